// Running workloads: ranges of seeds, or the steps of a replay file.
#include "core.hpp"
#include "profiles.hpp"
#include <condition_variable>
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <mutex>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <thread>
#include <unistd.h>

namespace sim
{
// ---------------------------------------------------------------- progress (survives a crash)
namespace
{
struct RawOp
{
    int64_t code, a[6], fault, burst, thread;
};
struct Progress
{
    uint64_t seed, n, seedsDone;
    RawOp ops[4096];
};
Progress* prog = nullptr;
}  // namespace

bool progressOff = false;
void progress(size_t done, const Op& op)
{
    if (!prog || progressOff || done >= 4096)
        return;
    RawOp& r = prog->ops[done];
    r.code = op.code;
    for (int i = 0; i < 6; ++i) r.a[i] = op.a[i];
    r.fault = op.fault;
    r.burst = op.burst;
    r.thread = op.thread;
    prog->n = done + 1;
}

// ---------------------------------------------------------------- worker threads
namespace
{
struct Worker
{
    std::mutex m;
    std::condition_variable cv;
    const std::function<void()>* job = nullptr;
    std::thread t;
    Worker()
    {
        t = std::thread([this] {
            std::unique_lock<std::mutex> l(m);
            for (;;)
            {
                cv.wait(l, [this] { return job != nullptr; });
                (*job)();
                job = nullptr;
                cv.notify_all();
            }
        });
        t.detach();
    }
    void run(const std::function<void()>& f)
    {
        std::unique_lock<std::mutex> l(m);
        job = &f;
        cv.notify_all();
        cv.wait(l, [this] { return job == nullptr; });
    }
};
}  // namespace
void runOnThread(int t, const std::function<void()>& f)
{
    static Worker* ws[8];
    if (!ws[t])
        ws[t] = new Worker();
    ws[t]->run(f);
}
}  // namespace sim

using namespace sim;

static void warmUp()
{
    std::ostringstream os;
    os << 1.5 << " " << 3 << "x";
    std::istringstream is("1.5");
    double d;
    is >> d;
    char buf[64];
    std::snprintf(buf, sizeof buf, "%.10g", d);
    try
    {
        throw std::bad_alloc();
    }
    catch (std::bad_alloc&)
    {
    }
}

static void dumpOps(const RunResult& r)
{
    for (auto& o : r.ops)
        std::printf("op %d %lld %lld %lld %lld %lld %lld %d %d %d\n", o.code, (long long)o.a[0], (long long)o.a[1],
                    (long long)o.a[2], (long long)o.a[3], (long long)o.a[4], (long long)o.a[5], o.fault, o.burst,
                    o.thread);
}

int main(int argc, char** argv)
{
    if (!getenv("SIM_NOASLR"))
    {
        setenv("SIM_NOASLR", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) != -1)
            execv("/proc/self/exe", argv);
    }
    std::map<std::string, std::string> o;
    std::string mode = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
    auto num = [&](const char* k, long d) { return o.count(k) ? std::strtoll(o[k].c_str(), nullptr, 0) : (long long)d; };
    warmUp();
    RunRequest rq;
    rq.fill = int(num("--fill", -1));

    if (mode == "run")
    {
        rq.workload = o["--workload"];
        rq.real = o["--real"];
        rq.profile = o["--profile"];
        RunFn fn = findWorkload(rq.workload, rq.real);
        if (!fn)
        {
            std::printf("ERROR no workload %s/%s\n", rq.workload.c_str(), rq.real.c_str());
            return 4;
        }
        if (o.count("--progress"))
        {
            int fd = open(o["--progress"].c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
            if (fd >= 0 && ftruncate(fd, sizeof(Progress)) == 0)
            {
                void* p = mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (p != MAP_FAILED)
                    prog = static_cast<Progress*>(p);
            }
        }
        long long from = num("--from", 0), count = num("--count", 1), step = num("--step", 1);
        double limit = double(num("--time", 600));
        bool hashes = num("--hashes", 0) != 0, twice = num("--twice", 0) != 0;
        timespec t0, t1;
        clock_gettime(CLOCK_MONOTONIC, &t0);
        std::map<std::string, long> stats;
        std::unordered_set<uint32_t> states;
        std::unordered_set<uint64_t> distinct;  // runs that did something and had results compared
        long runs = 0;
        int rc = 0;
        for (long long i = 0; i < count; ++i)
        {
            clock_gettime(CLOCK_MONOTONIC, &t1);
            if (double(t1.tv_sec - t0.tv_sec) + 1e-9 * double(t1.tv_nsec - t0.tv_nsec) > limit)
                break;
            rq.seed = uint64_t(from + i * step);
            if (prog)
            {
                prog->n = 0;
                prog->seed = rq.seed;
            }
            RunResult r = fn(rq);
            ++runs;
            if (prog)
                prog->seedsDone = uint64_t(runs);
            if (twice && !r.failed)
            {
                RunResult r2 = fn(rq);
                if (r2.obs != r.obs || r2.log != r.log || r2.failed)
                {
                    // the second run comes after another history of the process
                    r.failed = true;
                    r.cls = "not-reproducible";
                    r.msg = fmt("the same run executed a second time gives other results (%016llx %016llx)%s%s",
                                (unsigned long long)r.obs, (unsigned long long)r2.obs, r2.failed ? ": " : "",
                                r2.failed ? r2.msg.c_str() : "");
                }
            }
            for (auto& s : r.stats) stats[s.first] += s.second;
            states.insert(r.states.begin(), r.states.end());
            if (r.stats["steps"] >= 5 && r.stats["adjoints_checked"] + r.stats["elements_checked"] + r.stats["results_checked"] > 0)
                distinct.insert(r.log);
            if (hashes)
                std::printf("RUN %llu %016llx %016llx\n", (unsigned long long)rq.seed, (unsigned long long)r.obs,
                            (unsigned long long)r.log);
            if (r.failed)
            {
                std::printf("FAIL %llu\nCLS %s\nMSG %s\nHASH %016llx\n", (unsigned long long)rq.seed, r.cls.c_str(), r.msg.c_str(),
                            (unsigned long long)r.log);
                dumpOps(r);
                rc = 3;
                break;
            }
        }
        clock_gettime(CLOCK_MONOTONIC, &t1);
        std::printf("RUNS %ld\n", runs);
        std::printf("SECONDS %.3f\n", double(t1.tv_sec - t0.tv_sec) + 1e-9 * double(t1.tv_nsec - t0.tv_nsec));
        for (auto& s : stats) std::printf("STAT %s %ld\n", s.first.c_str(), s.second);
        if (o.count("--states"))
        {
            std::ofstream f(o["--states"], std::ios::binary);
            for (uint32_t s : states) f.write(reinterpret_cast<const char*>(&s), 4);
            std::ofstream f2(o["--states"] + ".runs", std::ios::binary);
            for (uint64_t s : distinct) f2.write(reinterpret_cast<const char*>(&s), 8);
        }
        std::printf("DONE\n");
        std::fflush(stdout);
        _exit(rc);
    }
    if (mode == "replay")
    {
        std::ifstream f(o["--file"]);
        std::string line;
        while (std::getline(f, line))
        {
            std::istringstream is(line);
            std::string k;
            is >> k;
            if (k == "workload")
                is >> rq.workload;
            else if (k == "real")
                is >> rq.real;
            else if (k == "profile")
                is >> rq.profile;
            else if (k == "seed")
                is >> rq.seed;
            else if (k == "fill" && !o.count("--fill"))
                is >> rq.fill;
            else if (k == "op")
            {
                Op op;
                long long x;
                is >> op.code;
                for (auto& a : op.a)
                {
                    is >> x;
                    a = x;
                }
                is >> op.fault >> op.burst >> op.thread;
                rq.ops.push_back(op);
            }
        }
        RunFn fn = findWorkload(rq.workload, rq.real);
        if (!fn)
        {
            std::printf("ERROR no workload\n");
            return 4;
        }
        rq.replay = num("--generate", 0) == 0;
        rq.keepText = true;
        RunResult r = fn(rq);
        if (num("--twice", 0) && !r.failed)
        {
            RunResult r2 = fn(rq);
            if (r2.obs != r.obs || r2.log != r.log || r2.failed)
            {
                r.failed = true;
                r.cls = "not-reproducible";
                r.msg = "the same run executed a second time gives other results" + (r2.failed ? ": " + r2.msg : std::string());
            }
        }
        if (num("--text", 0))
            for (auto& t : r.opText) std::printf("TEXT %s\n", t.c_str());
        if (r.failed)
            std::printf("FAIL %llu\nCLS %s\nMSG %s\n", (unsigned long long)rq.seed, r.cls.c_str(), r.msg.c_str());
        std::printf("STEP %d\nHASH %016llx\nOBS %016llx\nDONE\n", r.failStep, (unsigned long long)r.log,
                    (unsigned long long)r.obs);
        if (num("--ops", 0))
            dumpOps(r);
        std::fflush(stdout);
        _exit(r.failed ? 3 : 0);
    }
    std::printf("usage: %s run|replay ...\n", argv[0]);
    return 4;
}
