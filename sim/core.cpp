#include "core.hpp"
#include <cstdarg>
#include <cstdlib>
#include <cerrno>
#include <new>

// The allocator seam. All allocations made while library code is executing are attributed to the
// library: they can be made to fail, hand out memory with arbitrary contents, and are tracked.

extern "C"
{
    void* __real_malloc(size_t);
    void* __real_calloc(size_t, size_t);
    void* __real_realloc(void*, size_t);
    void* __real_aligned_alloc(size_t, size_t);
    int __real_posix_memalign(void**, size_t, size_t);
    void __real_free(void*);
}

namespace sim
{
thread_local bool illConditioned = false;
thread_local Ctx* tlsCtx = nullptr;
thread_local int tlsLib = 0;
__attribute__((noinline, no_sanitize("address", "thread", "coverage"))) void dirtyStack()
{
    char b[3072];
    __builtin_memset(b, tlsCtx->fill, sizeof b);
    asm volatile("" : : "r"(b) : "memory");
}

extern void (*allocHook)(void*, size_t) __attribute__((weak));
namespace
{
// open addressing table of live library allocations; the simulator lets only one thread run
struct Entry
{
    void* p;
    size_t n;
    Ctx* c;
};
Entry* table = nullptr;
size_t cap = 0, used = 0, liveN = 0;
void* const TOMB = reinterpret_cast<void*>(1);

SIM_NOCOV size_t slotOf(void* p) { return (reinterpret_cast<uintptr_t>(p) >> 4) * 0x9E3779B97F4A7C15ull >> 20; }
SIM_NOCOV void rawInsert(void* p, size_t n, Ctx* c)
{
    size_t i = slotOf(p) & (cap - 1);
    while (table[i].p && table[i].p != TOMB) i = (i + 1) & (cap - 1);
    if (!table[i].p)
        ++used;
    table[i] = Entry{p, n, c};
}
SIM_NOCOV void insert(void* p, size_t n, Ctx* c)
{
    if (!cap || used * 2 > cap)
    {
        Entry* old = table;
        size_t oc = cap;
        size_t nc = 4096;
        while (nc < liveN * 4 + 64) nc *= 2;
        table = static_cast<Entry*>(__real_calloc(nc, sizeof(Entry)));
        cap = nc;
        used = 0;
        for (size_t i = 0; i < oc; ++i)
            if (old[i].p && old[i].p != TOMB)
                rawInsert(old[i].p, old[i].n, old[i].c);
        __real_free(old);
    }
    rawInsert(p, n, c);
    ++liveN;
}
SIM_NOCOV bool erase(void* p, Entry* e)
{
    if (!cap)
        return false;
    size_t i = slotOf(p) & (cap - 1);
    while (table[i].p)
    {
        if (table[i].p == p)
        {
            *e = table[i];
            table[i].p = TOMB;
            --liveN;
            return true;
        }
        i = (i + 1) & (cap - 1);
    }
    return false;
}

SIM_NOCOV bool shouldFail()
{
    Ctx* c = tlsCtx;
    if (!c || !tlsLib)
        return false;
    ++c->allocs;
    if (c->failAt > 0 && --c->failAt == 0)
    {
        c->fired = true;
        if (--c->failBurst > 0)
            c->failAt = 1;
        return true;
    }
    return false;
}
SIM_NOCOV void track(void* p, size_t n, bool fill)
{
    if (&allocHook && allocHook)
        allocHook(p, n);
    if (!p || !tlsLib || !tlsCtx)
        return;
    if (fill)
        std::memset(p, tlsCtx->fill, n < 65536 ? n : 65536);
    insert(p, n, tlsCtx);
    ++tlsCtx->live;
    tlsCtx->liveBytes += long(n);
}
SIM_NOCOV void untrack(void* p)
{
    Entry e;
    if (!p || !liveN || !erase(p, &e))
        return;
    --e.c->live;
    e.c->liveBytes -= long(e.n);
}
}  // namespace

void dropTracking(Ctx* c)
{
    if (!c->live)
        return;
    for (size_t i = 0; i < cap; ++i)
        if (table[i].p && table[i].p != TOMB && table[i].c == c)
        {
            table[i].p = TOMB;
            --liveN;
        }
}

long liveLibAllocs() { return long(liveN); }

std::string fmt(const char* f, ...)
{
    char buf[1024];
    va_list ap;
    va_start(ap, f);
    std::vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

namespace
{
std::map<std::string, RunFn>& registry()
{
    static std::map<std::string, RunFn> r;
    return r;
}
}  // namespace
RegisterWorkload::RegisterWorkload(const char* w, const char* r, RunFn fn)
{
    registry()[std::string(w) + "/" + r] = fn;
}
RunFn findWorkload(const std::string& w, const std::string& r)
{
    auto it = registry().find(w + "/" + r);
    return it == registry().end() ? nullptr : it->second;
}

SIM_NOCOV static void* allocImpl(size_t n, size_t al, bool nothrow)
{
    if (shouldFail())
    {
        if (nothrow)
            return nullptr;
        throw std::bad_alloc();
    }
    if (n == 0)
        n = 1;
    // a request that can't be served: same as on a machine with limited memory
    void* p = nullptr;
    if (n < (size_t(1) << 32))
        p = al > 16 ? __real_aligned_alloc(al, (n + al - 1) / al * al) : __real_malloc(n);
    if (!p)
    {
        if (nothrow)
            return nullptr;
        throw std::bad_alloc();
    }
    track(p, n, true);
    return p;
}
}  // namespace sim

extern "C"
{
    SIM_NOCOV void* __wrap_malloc(size_t n)
    {
        if (sim::shouldFail())
            return nullptr;
        void* p = __real_malloc(n);
        sim::track(p, n, true);
        return p;
    }
    SIM_NOCOV void* __wrap_calloc(size_t a, size_t b)
    {
        if (sim::shouldFail())
            return nullptr;
        void* p = __real_calloc(a, b);
        sim::track(p, a * b, false);
        return p;
    }
    SIM_NOCOV void* __wrap_realloc(void* o, size_t n)
    {
        if (sim::shouldFail())
            return nullptr;
        void* p = __real_realloc(o, n);
        if (p || n == 0)
        {
            sim::untrack(o);
            sim::track(p, n, false);
        }
        return p;
    }
    SIM_NOCOV void* __wrap_aligned_alloc(size_t al, size_t n)
    {
        if (sim::shouldFail() || n >= (size_t(1) << 32))
            return nullptr;
        void* p = __real_aligned_alloc(al, n);
        sim::track(p, n, true);
        return p;
    }
    SIM_NOCOV int __wrap_posix_memalign(void** out, size_t al, size_t n)
    {
        if (sim::shouldFail() || n >= (size_t(1) << 32))
            return ENOMEM;
        int r = __real_posix_memalign(out, al, n);
        if (r == 0)
            sim::track(*out, n, true);
        return r;
    }
    SIM_NOCOV void __wrap_free(void* p)
    {
        sim::untrack(p);
        __real_free(p);
    }
}

SIM_NOCOV void* operator new(size_t n) { return sim::allocImpl(n, 0, false); }
SIM_NOCOV void* operator new[](size_t n) { return sim::allocImpl(n, 0, false); }
SIM_NOCOV void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim::allocImpl(n, 0, true); }
SIM_NOCOV void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim::allocImpl(n, 0, true); }
SIM_NOCOV void* operator new(size_t n, std::align_val_t a) { return sim::allocImpl(n, size_t(a), false); }
SIM_NOCOV void* operator new[](size_t n, std::align_val_t a) { return sim::allocImpl(n, size_t(a), false); }
SIM_NOCOV static void del(void* p) noexcept
{
    sim::untrack(p);
    __real_free(p);
}
SIM_NOCOV void operator delete(void* p) noexcept { del(p); }
SIM_NOCOV void operator delete[](void* p) noexcept { del(p); }
SIM_NOCOV void operator delete(void* p, size_t) noexcept { del(p); }
SIM_NOCOV void operator delete[](void* p, size_t) noexcept { del(p); }
SIM_NOCOV void operator delete(void* p, std::align_val_t) noexcept { del(p); }
SIM_NOCOV void operator delete[](void* p, std::align_val_t) noexcept { del(p); }
SIM_NOCOV void operator delete(void* p, size_t, std::align_val_t) noexcept { del(p); }
SIM_NOCOV void operator delete[](void* p, size_t, std::align_val_t) noexcept { del(p); }
