// Core of the simulator: PRNG, per-run context, allocator seam with fault injection.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

#define SIM_NOCOV __attribute__((no_sanitize("coverage")))

namespace sim
{

// ---------------------------------------------------------------- PRNG
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    bool chance(int percent) { return int(below(100)) < percent; }
    double unit() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
};

inline uint64_t hashMix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 33);
}

// ---------------------------------------------------------------- one step of a run
struct Op
{
    int code = 0;
    int64_t a[6] = {0, 0, 0, 0, 0, 0};
    int fault = 0;       // n > 0: the n-th allocation of the library within this step fails
    int burst = 1;       // number of consecutive allocations that fail
    int thread = 0;      // which simulated thread runs it (scheduler decision)
};

// ---------------------------------------------------------------- context of a run
struct Ctx
{
    // outcome
    bool failed = false;
    std::string cls;      // violation class
    std::string msg;
    int failStep = -1;
    // determinism
    uint64_t obs = 0;     // hash over all observations that must be reproducible
    uint64_t log = 0;     // hash over the executed steps and their outcome
    int step = 0;
    // allocator seam
    long allocs = 0;          // allocations of the library in this run
    long failAt = 0;          // countdown; 0 = not armed
    int failBurst = 0;        // remaining failures
    bool fired = false;
    unsigned char fill = 0xCD;
    long live = 0;            // live library allocations
    long liveBytes = 0;
    // statistics
    std::map<std::string, long> stats;
    std::unordered_set<uint32_t> states;
    void count(const char* k, long n = 1) { stats[k] += n; }
    void observe(uint64_t v) { obs = hashMix(obs, v); }
    void observe(double d)
    {
        uint64_t v;
        std::memcpy(&v, &d, 8);
        if (d != d)
            v = 0x7ff8000000000000ull;
        observe(v);
    }
    void state(uint64_t h) { states.insert(uint32_t(h ^ (h >> 32))); }
    void fail(const std::string& c, const std::string& m)
    {
        if (failed)
            return;
        failed = true;
        cls = c;
        msg = m;
        failStep = step;
    }
};

// the context of the simulated thread that is running (per OS thread)
extern thread_local Ctx* tlsCtx;
extern thread_local int tlsLib;  // > 0: executing library code

// what the library finds in uninitialised variables is that of fresh memory
void dirtyStack();

// marks execution of library code (allocations belong to the library)
struct Lib
{
    SIM_NOCOV Lib()
    {
        if (!tlsLib && tlsCtx)
            dirtyStack();
        ++tlsLib;
    }
    SIM_NOCOV ~Lib() { --tlsLib; }
};
// marks execution of harness code called back from the library
struct Out
{
    int saved;
    SIM_NOCOV Out() : saved(tlsLib) { tlsLib = 0; }
    SIM_NOCOV ~Out() { tlsLib = saved; }
};

long liveLibAllocs();

// ---------------------------------------------------------------- workloads
struct RunResult
{
    bool failed = false;
    std::string cls, msg;
    int failStep = -1;
    uint64_t obs = 0, log = 0;
    std::vector<Op> ops;
    std::vector<std::string> opText;
    std::map<std::string, long> stats;
    std::unordered_set<uint32_t> states;
};

struct RunRequest
{
    std::string workload, real, profile;
    uint64_t seed = 0;
    bool replay = false;
    bool keepText = false;
    int fill = -1;         // contents of fresh memory (-1: from the seed)
    std::vector<Op> ops;   // for replay
};

typedef RunResult (*RunFn)(const RunRequest&);
RunFn findWorkload(const std::string& workload, const std::string& real);
struct RegisterWorkload
{
    RegisterWorkload(const char* workload, const char* real, RunFn fn);
};

// notes where a run is (for attributing crashes)
void progress(size_t done, const Op& op);
extern bool progressOff;
void dropTracking(Ctx* c);

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

}  // namespace sim
