// The workload for C01: several threads, each with a simulated client of its own (the same workloads
// the other properties use), under the seeded scheduler. What each thread observes has to be bit for
// bit what it observes when it runs alone.
#include "core.hpp"
#include "profiles.hpp"
#include "sched.hpp"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

namespace sim
{
namespace
{
enum { SWITCH = 400 };

struct Kind
{
    const char *workload, *real, *profile;
    int weight;
};
const Kind kinds[] = {
    {"world", "double", "c01", 22}, {"world", "double", "c01f", 12}, {"world", "freal", "c01", 8},
    {"world", "areal", "c01", 10},  {"world", "float", "c01", 8},    {"drivers", "mixed", "c13", 14},
    {"stream", "mixed", "c14", 8},  {"chunk", "mixed", "c16", 4},   {"loop", "mixed", "c22", 12},
};
int pickKind(Rng& r)
{
    int sum = 0;
    for (auto& k : kinds) sum += k.weight;
    int x = int(r.below(uint64_t(sum)));
    int i = 0;
    while ((x -= kinds[i].weight) >= 0) ++i;
    return i;
}

// ---------------------------------------------------------------- results across processes
struct Packer
{
    std::string s;
    void num(uint64_t x) { s.append(reinterpret_cast<char*>(&x), 8); }
    void str(const std::string& x)
    {
        num(x.size());
        s += x;
    }
};
struct Unpacker
{
    const std::string& s;
    size_t p = 0;
    bool bad = false;
    uint64_t num()
    {
        uint64_t x = 0;
        if (p + 8 > s.size())
            bad = true;
        else
            std::memcpy(&x, s.data() + p, 8);
        p += 8;
        return x;
    }
    std::string str()
    {
        size_t n = size_t(num());
        if (bad || p + n > s.size())
        {
            bad = true;
            return "";
        }
        p += n;
        return s.substr(p - n, n);
    }
};
std::string pack(const RunResult& r)
{
    Packer k;
    k.num(r.failed);
    k.str(r.cls);
    k.str(r.msg);
    k.num(r.obs);
    k.num(r.log);
    k.num(r.ops.size());
    for (auto& o : r.ops)
    {
        k.num(uint64_t(o.code));
        for (auto x : o.a) k.num(uint64_t(x));
        k.num(uint64_t(o.fault));
        k.num(uint64_t(o.burst));
        k.num(uint64_t(o.thread));
    }
    k.num(r.opText.size());
    for (auto& t : r.opText) k.str(t);
    k.num(r.stats.size());
    for (auto& t : r.stats)
    {
        k.str(t.first);
        k.num(uint64_t(t.second));
    }
    k.num(r.states.size());
    for (auto t : r.states) k.num(t);
    return k.s;
}
bool unpack(const std::string& s, RunResult& r)
{
    Unpacker k{s};
    r.failed = k.num() != 0;
    r.cls = k.str();
    r.msg = k.str();
    r.obs = k.num();
    r.log = k.num();
    size_t n = size_t(k.num());
    for (size_t i = 0; i < n && !k.bad; ++i)
    {
        Op o;
        o.code = int(k.num());
        for (auto& x : o.a) x = int64_t(k.num());
        o.fault = int(k.num());
        o.burst = int(k.num());
        o.thread = int(k.num());
        r.ops.push_back(o);
    }
    n = size_t(k.num());
    for (size_t i = 0; i < n && !k.bad; ++i) r.opText.push_back(k.str());
    n = size_t(k.num());
    for (size_t i = 0; i < n && !k.bad; ++i)
    {
        std::string t = k.str();
        r.stats[t] = long(k.num());
    }
    n = size_t(k.num());
    for (size_t i = 0; i < n && !k.bad; ++i) r.states.insert(uint32_t(k.num()));
    return !k.bad;
}
// runs f in a process of its own; false if it doesn't survive
bool isolated(const std::function<RunResult()>& f, RunResult& res, int& status, bool quiet)
{
    int p[2];
    std::fflush(stdout);
    if (pipe(p) != 0)
        std::abort();
    pid_t pid = fork();
    if (pid < 0)
        std::abort();
    if (pid == 0)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        close(p[0]);
        if (quiet)
            std::freopen("/dev/null", "w", stderr);
        std::string s = pack(f());
        for (size_t i = 0; i < s.size();)
        {
            ssize_t n = write(p[1], s.data() + i, s.size() - i);
            if (n <= 0)
                _exit(7);
            i += size_t(n);
        }
        _exit(0);
    }
    close(p[1]);
    std::string s;
    char buf[65536];
    for (ssize_t n; (n = read(p[0], buf, sizeof buf)) > 0;) s.append(buf, size_t(n));
    close(p[0]);
    waitpid(pid, &status, 0);
    return WIFEXITED(status) && WEXITSTATUS(status) == 0 && unpack(s, res);
}

// in a process where the library hasn't run yet
RunResult runHere(const RunRequest& rq)
{
    RunResult res;
    Rng rng(rq.seed);
    const int n = 2 + int(rng.below(3));
    const bool same = rng.chance(50);
    const int kind = pickKind(rng);
    std::vector<RunRequest> req;
    std::vector<RunResult> solo, conc{size_t(n)};
    std::map<std::string, long> stats;
    size_t noted = 0;
    progressOff = true;
    for (int i = 0; i < n; ++i)
    {
        const Kind& k = kinds[same ? kind : pickKind(rng)];
        RunRequest q;
        q.workload = k.workload;
        q.real = k.real;
        q.profile = k.profile;
        q.seed = rng.next() >> 1;
        q.fill = rq.fill;
        q.keepText = rq.keepText;
        q.replay = rq.replay;
        for (auto& op : rq.ops)
            if (op.thread == i && op.code != SWITCH)
            {
                q.ops.push_back(op);
                q.ops.back().thread = 0;
            }
        stats[std::string("clients_") + k.workload + "_" + k.real]++;
        // alone in the process, on a thread of its own
        RunResult r;
        int status = 0;
        bool ok = isolated(
            [&] {
                RunFn fn = findWorkload(q.workload, q.real);
                RunResult x;
                std::thread t([&] { x = fn(q); });
                t.join();
                return x;
            },
            r, status, true);
        if (!ok)
        {
            // isn't about threads
            progressOff = false;
            res.stats["solo_failures"] = 1;
            return res;
        }
        // what fails alone too isn't about threads either, races and crashes are
        if (r.failed)
            stats["solo_failures"]++;
        for (auto& x : r.stats)
            if (x.first.compare(0, 3, "op_"))
                stats[x.first] += x.second;
        for (uint32_t s : r.states) res.states.insert(s);
        q.replay = true;
        q.keepText = false;
        q.ops = r.ops;
        req.push_back(q);
        solo.push_back(r);
    }
    progressOff = false;
    for (int i = 0; i < n; ++i)
        for (Op op : req[size_t(i)].ops)
        {
            op.thread = i;
            progress(noted++, op);
        }
    progressOff = true;
    // the same threads, interleaved
    sched::Plan plan;
    plan.given = rq.replay;
    for (auto& op : rq.ops)
        if (op.code == SWITCH)
            plan.switches.emplace_back(long(op.a[0]), int(op.a[1]));
    plan.onSwitch = [&](long after, int to) {
        Op op;
        op.code = SWITCH;
        op.a[0] = after;
        op.a[1] = to;
        progressOff = false;
        progress(noted++, op);
        progressOff = true;
    };
    sched::Result r = sched::run(n, rq.seed * 7919 + 13, plan, [&](int i) {
        conc[size_t(i)] = findWorkload(req[size_t(i)].workload, req[size_t(i)].real)(req[size_t(i)]);
    });
    progressOff = false;

    for (int i = 0; i < n; ++i)
    {
        const RunResult& s = solo[size_t(i)];
        for (size_t k = 0; k < s.ops.size(); ++k)
        {
            Op op = s.ops[k];
            op.thread = i;
            res.ops.push_back(op);
            res.opText.push_back(fmt("thread %d (%s %s): ", i, req[size_t(i)].workload.c_str(), req[size_t(i)].real.c_str()) +
                                 (k < s.opText.size() ? s.opText[k] : std::string("-")));
        }
        res.obs = hashMix(res.obs, s.obs);
        res.log = hashMix(res.log, s.log);
    }
    uint64_t h = 0;
    for (size_t i = 0; i < r.plan.switches.size(); ++i)
    {
        Op op;
        op.code = SWITCH;
        op.a[0] = r.plan.switches[i].first;
        op.a[1] = r.plan.switches[i].second;
        res.ops.push_back(op);
        res.log = hashMix(hashMix(res.log, uint64_t(op.a[0])), uint64_t(op.a[1]));
        res.opText.push_back(fmt("schedule: after %ld accesses thread %d", long(op.a[0]), int(op.a[1])));
        // interleavings, by where the switches are
        h = hashMix(hashMix(h, uint64_t(op.a[0])), uint64_t(op.a[1]));
        if (i % 8 == 7)
            res.states.insert(uint32_t(h));
    }
    for (int i = 0; i < n && !res.failed; ++i)
    {
        RunResult &a = solo[size_t(i)], &b = conc[size_t(i)];
        if (a.failed)
            continue;
        if (b.failed)
        {
            res.failed = true;
            res.cls = "thread:" + b.cls;
            res.msg = fmt("thread %d: ", i) + b.msg + " (not if it runs alone)";
        }
        else if (a.obs != b.obs)
        {
            res.failed = true;
            res.cls = "thread:differs";
            res.msg = fmt("thread %d gets other results than if it runs alone", i);
        }
    }
    if (!r.race.empty())
    {
        res.failed = true;
        res.cls = "data-race";
        res.msg = r.race;
    }
    stats["scheduling_points"] += r.points;
    stats["accesses_to_static_memory"] += r.shared;
    stats["synchronisations"] += r.syncs;
    stats["threads"] += n;
    stats["fault_preemption"] += long(r.plan.switches.size());
    res.stats = stats;
    return res;
}
RunResult runThreads(const RunRequest& rq)
{
    RunResult res;
    int status = 0;
    if (!isolated([&] { return runHere(rq); }, res, status, false))
    {
        if (WIFSIGNALED(status))
        {
            std::signal(WTERMSIG(status), SIG_DFL);
            raise(WTERMSIG(status));
        }
        _exit(WIFEXITED(status) && WEXITSTATUS(status) ? WEXITSTATUS(status) : 9);
    }
    return res;
}
RegisterWorkload r("threads", "mixed", runThreads);
}  // namespace
}  // namespace sim
