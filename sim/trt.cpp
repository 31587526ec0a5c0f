// Run-time of -fsanitize=thread instrumentation, with the simulator's scheduler in place of the real
// one: every access of the library is a point where the seeded scheduler may park the thread and
// release another one. Happens-before is tracked by vector clocks (atomics, mutexes, guards of static
// variables), and unordered conflicting accesses are reported. Not instrumented itself.
#include "sched.hpp"
#include "core.hpp"
#include <atomic>
#include <cxxabi.h>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <thread>
#include <unistd.h>
#include <cstdlib>

namespace sim
{
void (*allocHook)(void*, size_t) = nullptr;
namespace sched
{
namespace
{
enum { MAXT = 8 };
struct VC
{
    uint32_t c[MAXT] = {};
    void join(const VC& o)
    {
        for (int i = 0; i < MAXT; ++i)
            if (o.c[i] > c[i])
                c[i] = o.c[i];
    }
};
struct Cell
{
    uintptr_t key = 0;
    uint32_t epoch = 0;
    int8_t wt = -1;
    uint8_t wm = 0;
    uint32_t wc = 0;
    void* wpc = nullptr;
    uint8_t rm[MAXT] = {};
    uint32_t rc[MAXT] = {};
};
struct Thread
{
    std::atomic<int> go{0};
    bool done = false;
    const void* waitsFor = nullptr;
    VC vc;
};
struct State
{
    bool active = false;
    int n = 0, current = -1, alive = 0;
    Thread t[MAXT];
    Rng rng{0};
    // strategy
    int strategy = 0;
    long windowLeft = 0, gapLeft = 0;
    uint64_t prob = 0;        // of a switch, out of 65536
    uint64_t staticProb = 0;
    int prio[MAXT];
    long budget = 0;
    // plan
    const Plan* plan = nullptr;
    size_t next = 0;
    long since = 0;
    Result res;
    // happens-before
    uint32_t epoch = 0;
    Cell* cells = nullptr;
    size_t cap = 1 << 20, used = 0;
    std::vector<std::pair<const void*, VC>> syncs;
    std::vector<std::pair<const void*, int>> owners;   // locks and guards that are held
};
State S;
std::atomic<int> mainGo{0};
thread_local int me = -1;
uintptr_t staticLo, staticHi;

void fwait(std::atomic<int>& f)
{
    while (f.load() == 0) syscall(SYS_futex, &f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    f.store(0);
}
void fpost(std::atomic<int>& f)
{
    f.store(1);
    syscall(SYS_futex, &f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
bool runnable(int t)
{
    return t >= 0 && t < S.n && !S.t[t].done && !S.t[t].waitsFor;
}
int pickOther(int from)
{
    int c[MAXT], k = 0;
    for (int i = 0; i < S.n; ++i)
        if (i != from && runnable(i))
            c[k++] = i;
    return k ? c[S.rng.below(uint64_t(k))] : -1;
}
void switchTo(int t)
{
    S.res.plan.switches.emplace_back(S.since, t);
    if (S.plan->onSwitch)
        S.plan->onSwitch(S.since, t);
    S.since = 0;
    S.current = t;
    fpost(S.t[t].go);
}
bool inStatic(const void* p)
{
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    return a >= staticLo && a < staticHi;
}
// the running thread may be parked here
void point(bool shared)
{
    ++S.res.points;
    ++S.since;
    int to = -1;
    if (S.plan->given)
    {
        if (S.next < S.plan->switches.size() && S.since >= S.plan->switches[S.next].first)
        {
            to = S.plan->switches[S.next++].second;
            if (!runnable(to) || to == me)
            {
                to = -1;
                S.since = 0;
            }
        }
    }
    else
    {
        if (shared)
        {
            ++S.res.shared;
            if (S.budget > 0 && S.rng.below(65536) < S.staticProb)
                to = pickOther(me);
        }
        if (to < 0 && S.budget > 0)
        {
            if (S.windowLeft > 0)
            {
                --S.windowLeft;
                if (S.rng.below(65536) < S.prob)
                    to = pickOther(me);
                if (S.windowLeft == 0)
                    S.gapLeft = 1 + long(S.rng.below(S.strategy == 0 ? 3000 : 20000));
            }
            else if (--S.gapLeft <= 0)
            {
                S.windowLeft = 1 + long(S.rng.below(S.strategy == 1 ? 1 : 60));
                S.prob = S.strategy == 1 ? 65536 : (S.strategy == 2 ? 30000 : 8000);
            }
        }
    }
    if (to < 0)
        return;
    --S.budget;
    int self = me;
    switchTo(to);
    fwait(S.t[self].go);
}
// parks the running thread until something is released
void waitFor(const void* what)
{
    S.t[me].waitsFor = what;
    int to = pickOther(me);
    if (to < 0)
    {
        std::fprintf(stderr, "deadlock: all threads wait\n");
        std::abort();
    }
    int self = me;
    switchTo(to);
    fwait(S.t[self].go);
}
void wake(const void* what)
{
    for (int i = 0; i < S.n; ++i)
        if (S.t[i].waitsFor == what)
            S.t[i].waitsFor = nullptr;
}
VC& syncVar(const void* a)
{
    for (auto& x : S.syncs)
        if (x.first == a)
            return x.second;
    S.syncs.emplace_back(a, VC());
    return S.syncs.back().second;
}
void acquire(const void* a)
{
    ++S.res.syncs;
    S.t[me].vc.join(syncVar(a));
}
void release(const void* a)
{
    ++S.res.syncs;
    syncVar(a).join(S.t[me].vc);
    ++S.t[me].vc.c[me];
}
Cell* cell(uintptr_t key, bool create)
{
    size_t i = ((key >> 3) ^ (key >> 23)) & (S.cap - 1);
    for (size_t k = 0; k < S.cap; ++k, i = (i + 1) & (S.cap - 1))
    {
        Cell& c = S.cells[i];
        if (c.epoch != S.epoch)
        {
            if (!create || S.used * 2 > S.cap)
                return nullptr;
            ++S.used;
            c = Cell();
            c.epoch = S.epoch;
            c.key = key;
            return &c;
        }
        if (c.key == key)
            return &c;
    }
    return nullptr;
}
std::string where(void* pc)
{
    Dl_info d;
    if (dladdr(pc, &d) && d.dli_sname)
    {
        int st;
        char* s = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st);
        std::string r = s ? s : d.dli_sname;
        std::free(s);
        return r.substr(0, 160);
    }
    return "?";
}
void report(const void* a, bool w1, void* pc1, bool w2, void* pc2)
{
    if (!S.res.race.empty())
        return;
    std::string s = fmt("unordered %s and %s of the same %s memory", w1 ? "write" : "read", w2 ? "write" : "read", inStatic(a) ? "static" : "dynamic");
    s += " in " + where(pc2);
    if (pc1)
        s += " and " + where(pc1);
    S.res.race = s;
    std::fprintf(stderr, "DATA RACE: %s\n", s.c_str());
}
void access(const void* a, size_t n, bool write, void* pc)
{
    uintptr_t p = reinterpret_cast<uintptr_t>(a), e = p + n;
    Thread& t = S.t[me];
    while (p < e)
    {
        uintptr_t g = p & ~uintptr_t(7), ge = std::min(e, g + 8);
        uint8_t m = uint8_t(((1u << (ge - p)) - 1) << (p - g));
        p = ge;
        Cell* c = cell(g, true);
        if (!c)
            return;
        if (c->wt >= 0 && c->wt != me && (c->wm & m) && c->wc > t.vc.c[int(c->wt)])
            report(a, true, c->wpc, write, pc);
        if (write)
        {
            for (int i = 0; i < S.n; ++i)
                if (i != me && (c->rm[i] & m) && c->rc[i] > t.vc.c[i])
                    report(a, false, nullptr, true, pc);
            c->wt = int8_t(me);
            c->wc = t.vc.c[me];
            c->wm = m;
            c->wpc = pc;
        }
        else
        {
            if (c->rc[me] == t.vc.c[me])
                c->rm[me] |= m;
            else
                c->rm[me] = m;
            c->rc[me] = t.vc.c[me];
        }
    }
}
inline bool on() { return me >= 0 && tlsLib > 0; }
// while the run-time works, its own accesses and allocations aren't the library's
struct Inside
{
    int was = tlsLib;
    Inside() { tlsLib = 0; }
    ~Inside() { tlsLib = was; }
};
thread_local uintptr_t stackLo, stackHi;
inline void plain(const void* a, size_t n, bool write, void* pc)
{
    if (!on())
        return;
    uintptr_t p = reinterpret_cast<uintptr_t>(a);
    if (p >= stackLo && p < stackHi)
        return;   // own stack and thread-local storage
    Inside in;
    access(a, n, write, pc);
    point(inStatic(a));
}
inline void atomicBefore(const void* a, int order, bool load, bool store)
{
    if (!on())
        return;
    Inside in;
    point(true);
    if (store && (order == 3 || order == 4 || order == 5))
        release(a);
    if (load && (order == 1 || order == 2 || order == 4 || order == 5))
        acquire(a);
}
// fresh memory: what happened to it before doesn't count
void fresh(void* p, size_t n)
{
    if (!S.active || !p)
        return;
    bool lib = on();
    Inside in;
    uintptr_t g = reinterpret_cast<uintptr_t>(p) & ~uintptr_t(7), e = reinterpret_cast<uintptr_t>(p) + n;
    for (; g < e; g += 8)
    {
        Cell* c = cell(g, false);
        if (c)
        {
            c->wt = -1;
            std::memset(c->rm, 0, sizeof c->rm);
        }
    }
    if (lib)
        point(false);
}
extern "C" char __data_start, _end;
}  // namespace

Result run(int threads, uint64_t seed, const Plan& plan, const std::function<void(int)>& body)
{
    if (!S.cells)
    {
        S.cells = static_cast<Cell*>(std::calloc(S.cap, sizeof(Cell)));
        staticLo = reinterpret_cast<uintptr_t>(&__data_start);
        staticHi = reinterpret_cast<uintptr_t>(&_end);
    }
    S.n = threads;
    S.rng = Rng(seed);
    S.plan = &plan;
    S.next = 0;
    S.since = 0;
    S.res = Result();
    ++S.epoch;
    S.used = 0;
    S.syncs.clear();
    S.owners.clear();
    S.strategy = int(S.rng.below(3));
    S.windowLeft = 0;
    S.gapLeft = 1 + long(S.rng.below(500));
    static const uint64_t sp[] = {65536, 20000, 4000};
    S.staticProb = sp[S.rng.below(3)];
    S.budget = plan.given ? 1L << 40 : 20 + long(S.rng.below(300));
    for (int i = 0; i < threads; ++i)
    {
        S.t[i].done = false;
        S.t[i].waitsFor = nullptr;
        S.t[i].vc = VC();
        S.t[i].vc.c[i] = 1;
        S.t[i].go.store(0);
    }
    mainGo.store(0);
    S.active = true;
    allocHook = fresh;
    std::vector<std::thread> ths;
    for (int i = 0; i < threads; ++i)
        ths.emplace_back([&, i] {
            pthread_attr_t at;
            void* lo = nullptr;
            size_t sz = 0;
            pthread_getattr_np(pthread_self(), &at);
            pthread_attr_getstack(&at, &lo, &sz);
            pthread_attr_destroy(&at);
            stackLo = reinterpret_cast<uintptr_t>(lo);
            stackHi = stackLo + sz;
            fwait(S.t[i].go);
            me = i;
            body(i);
            me = -1;
            S.t[i].done = true;
            int to = -1;
            if (S.plan->given && S.next < S.plan->switches.size())
            {
                to = S.plan->switches[S.next++].second;
                if (!runnable(to))
                    to = -1;
            }
            if (to < 0)
                to = pickOther(i);
            if (to >= 0)
                switchTo(to);
            else
            {
                for (int k = 0; k < S.n; ++k)
                    if (!S.t[k].done)
                    {
                        std::fprintf(stderr, "deadlock: all threads wait\n");
                        std::abort();
                    }
                fpost(mainGo);
            }
        });
    int first = plan.given && !plan.switches.empty() ? plan.switches[0].second : int(S.rng.below(uint64_t(threads)));
    if (plan.given && !plan.switches.empty())
        S.next = 1;
    if (first < 0 || first >= threads)
        first = 0;
    switchTo(first);
    fwait(mainGo);
    for (auto& t : ths) t.join();
    S.active = false;
    allocHook = nullptr;
    return S.res;
}

bool tryOwn(const void* m)
{
    for (auto& o : S.owners)
        if (o.first == m)
            return false;
    S.owners.emplace_back(m, me);
    return true;
}
void disown(const void* m)
{
    for (size_t i = 0; i < S.owners.size(); ++i)
        if (S.owners[i].first == m)
        {
            S.owners.erase(S.owners.begin() + long(i));
            break;
        }
    wake(m);
}
bool simulated() { return on(); }
void simLock(const void* m)
{
    Inside in;
    point(true);
    while (!tryOwn(m)) waitFor(m);
    acquire(m);
}
void simUnlock(const void* m)
{
    Inside in;
    release(m);
    disown(m);
    point(true);
}
}  // namespace sched
}  // namespace sim

using namespace sim::sched;
#define PC __builtin_return_address(0)
extern "C"
{
    void __tsan_init() {}
    void __tsan_func_entry(void*) {}
    void __tsan_func_exit() {}
    void __tsan_ignore_thread_begin() {}
    void __tsan_ignore_thread_end() {}
#define RW(n)                                                                                      \
    void __tsan_read##n(void* a) { plain(a, n, false, PC); }                                       \
    void __tsan_write##n(void* a) { plain(a, n, true, PC); }                                       \
    void __tsan_unaligned_read##n(void* a) { plain(a, n, false, PC); }                             \
    void __tsan_unaligned_write##n(void* a) { plain(a, n, true, PC); }                             \
    void __tsan_read_write##n(void* a)                                                             \
    {                                                                                              \
        plain(a, n, false, PC);                                                                    \
        plain(a, n, true, PC);                                                                     \
    }                                                                                              \
    void __tsan_unaligned_read_write##n(void* a)                                                   \
    {                                                                                              \
        plain(a, n, false, PC);                                                                    \
        plain(a, n, true, PC);                                                                     \
    }                                                                                              \
    void __tsan_volatile_read##n(void* a) { plain(a, n, false, PC); }                              \
    void __tsan_volatile_write##n(void* a) { plain(a, n, true, PC); }                              \
    void __tsan_unaligned_volatile_read##n(void* a) { plain(a, n, false, PC); }                    \
    void __tsan_unaligned_volatile_write##n(void* a) { plain(a, n, true, PC); }
    RW(1) RW(2) RW(4) RW(8) RW(16)
    void __tsan_read_range(void* a, unsigned long n) { plain(a, n, false, PC); }
    void __tsan_write_range(void* a, unsigned long n) { plain(a, n, true, PC); }
    void __tsan_vptr_read(void** a) { plain(a, 8, false, PC); }
    void __tsan_vptr_update(void** a, void* v)
    {
        if (*a != v)
            plain(a, 8, true, PC);
    }
    void* __tsan_memcpy(void* d, const void* s, unsigned long n)
    {
        plain(s, n, false, PC);
        plain(d, n, true, PC);
        return std::memcpy(d, s, n);
    }
    void* __tsan_memmove(void* d, const void* s, unsigned long n)
    {
        plain(s, n, false, PC);
        plain(d, n, true, PC);
        return std::memmove(d, s, n);
    }
    void* __tsan_memset(void* d, int c, unsigned long n)
    {
        plain(d, n, true, PC);
        return std::memset(d, c, n);
    }
#define AT(bits, T)                                                                                \
    T __tsan_atomic##bits##_load(const volatile T* a, int o)                                       \
    {                                                                                              \
        T v = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                \
        atomicBefore((const void*)a, o, true, false);                                              \
        v = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                  \
        return v;                                                                                  \
    }                                                                                              \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int o)                                    \
    {                                                                                              \
        atomicBefore((const void*)a, o, false, true);                                              \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                  \
    }                                                                                              \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int o)                                    \
    {                                                                                              \
        atomicBefore((const void*)a, o, true, true);                                               \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                        \
    }                                                                                              \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int o)                                   \
    {                                                                                              \
        atomicBefore((const void*)a, o, true, true);                                               \
        return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                         \
    }                                                                                              \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int o)                                   \
    {                                                                                              \
        atomicBefore((const void*)a, o, true, true);                                               \
        return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                         \
    }                                                                                              \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int o)                                   \
    {                                                                                              \
        atomicBefore((const void*)a, o, true, true);                                               \
        return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                         \
    }                                                                                              \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int o)                                    \
    {                                                                                              \
        atomicBefore((const void*)a, o, true, true);                                               \
        return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                          \
    }                                                                                              \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int o)                                   \
    {                                                                                              \
        atomicBefore((const void*)a, o, true, true);                                               \
        return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                         \
    }                                                                                              \
    T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int o)                                  \
    {                                                                                              \
        atomicBefore((const void*)a, o, true, true);                                               \
        return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                                        \
    }                                                                                              \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int o, int)        \
    {                                                                                              \
        atomicBefore((const void*)a, o, true, true);                                               \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);    \
    }                                                                                              \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int o, int)          \
    {                                                                                              \
        atomicBefore((const void*)a, o, true, true);                                               \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);    \
    }                                                                                              \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int o, int)              \
    {                                                                                              \
        atomicBefore((const void*)a, o, true, true);                                               \
        __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);          \
        return c;                                                                                  \
    }
    AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
    void __tsan_atomic_thread_fence(int) {}
    void __tsan_atomic_signal_fence(int) {}

    int __real_pthread_mutex_lock(pthread_mutex_t*);
    int __real_pthread_mutex_unlock(pthread_mutex_t*);
    int __real_pthread_mutex_trylock(pthread_mutex_t*);
    int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
    {
        if (!simulated())
            return __real_pthread_mutex_lock(m);
        simLock(m);
        return 0;
    }
    int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
    {
        if (!simulated())
            return __real_pthread_mutex_unlock(m);
        simUnlock(m);
        return 0;
    }
    int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
    {
        if (!simulated())
            return __real_pthread_mutex_trylock(m);
        Inside in;
        point(true);
        if (!tryOwn(m))
            return 16;
        acquire(m);
        return 0;
    }
    int __real_pthread_once(pthread_once_t*, void (*)());
    int __wrap_pthread_once(pthread_once_t* o, void (*f)())
    {
        if (!simulated())
            return __real_pthread_once(o, f);
        static std::vector<pthread_once_t*> done;
        simLock(o);
        bool d = false;
        for (auto* x : done) d = d || x == o;
        if (!d)
        {
            f();
            Inside in;
            done.push_back(o);
        }
        simUnlock(o);
        return 0;
    }
    void* __real___cxa_allocate_exception(size_t);
    void* __wrap___cxa_allocate_exception(size_t n)
    {
        void* p = __real___cxa_allocate_exception(n);
        if (simulated())
            fresh(p, n);
        return p;
    }
    // guards of function-local static variables
    int __wrap___cxa_guard_acquire(uint64_t* g)
    {
        if (simulated())
        {
            Inside in;
            point(true);
            for (;;)
            {
                if (*reinterpret_cast<char*>(g))
                {
                    acquire(g);
                    return 0;
                }
                if (tryOwn(g))
                    return 1;
                waitFor(g);
            }
        }
        return *reinterpret_cast<char*>(g) ? 0 : 1;
    }
    void __wrap___cxa_guard_release(uint64_t* g)
    {
        *reinterpret_cast<char*>(g) = 1;
        if (simulated())
        {
            Inside in;
            release(g);
            disown(g);
        }
    }
    void __wrap___cxa_guard_abort(uint64_t* g)
    {
        if (simulated())
        {
            Inside in;
            disown(g);
        }
    }
}
