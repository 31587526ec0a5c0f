// C16 (and C12): sequences of operations on ChunkContainer, with failing allocations, against a
// plain vector.
#include "core.hpp"
#include <XAD/XAD.hpp>
#include <memory>
#include <set>
#include <utility>

namespace sim
{
namespace
{
// ---------------------------------------------------------------- element types
thread_local std::set<const void*>* liveElems = nullptr;
thread_local bool elemError = false;

// allocates memory, counts, and notes its address
struct Elem
{
    long* p;
    static long* make(long v)
    {
        long* q = new long;
        *q = v;
        return q;
    }
    void add()
    {
        Out o;
        if (!liveElems->insert(this).second)
            elemError = true;   // constructed over a live one
    }
    void rem()
    {
        Out o;
        if (!liveElems->erase(this))
            elemError = true;   // destroyed twice, or never constructed
    }
    explicit Elem(long v = 0) : p(make(v)) { add(); }
    Elem(long a, long b) : p(make(a + b)) { add(); }
    Elem(const Elem& o) : p(make(*o.p)) { add(); }
    Elem(Elem&& o) : p(make(*o.p)) { add(); }
    Elem& operator=(const Elem& o)
    {
        long* q = make(*o.p);
        delete p;
        p = q;
        return *this;
    }
    ~Elem()
    {
        rem();
        delete p;
    }
};
struct alignas(64) Wide
{
    long v[9];
};
template <class T>
struct ET;
template <>
struct ET<Elem>
{
    static constexpr bool trivial = false;
    static Elem make(long v) { return Elem(v); }
    static long get(const Elem& e) { return *e.p; }
    static void set(Elem& e, long v) { *e.p = v; }
    template <class C>
    static void emplace(C& c, long v) { c.emplace_back(v - 7, 7L); }
};
template <>
struct ET<double>
{
    static constexpr bool trivial = true;
    static double make(long v) { return double(v); }
    static long get(double e) { return long(e); }
    static void set(double& e, long v) { e = double(v); }
    template <class C>
    static void emplace(C& c, long v) { c.emplace_back(double(v)); }
};
template <>
struct ET<std::pair<unsigned, unsigned>>
{
    typedef std::pair<unsigned, unsigned> T;
    static constexpr bool trivial = true;
    static T make(long v) { return T(unsigned(v), ~unsigned(v)); }
    static long get(const T& e) { return e.second == ~e.first ? long(e.first) : -1; }
    static void set(T& e, long v) { e = make(v); }
    template <class C>
    static void emplace(C& c, long v) { c.emplace_back(unsigned(v), ~unsigned(v)); }
};
template <>
struct ET<Wide>
{
    static constexpr bool trivial = true;
    static Wide make(long v)
    {
        Wide w;
        for (int i = 0; i < 9; ++i) w.v[i] = v + i;
        return w;
    }
    static long get(const Wide& e)
    {
        for (int i = 0; i < 9; ++i)
            if (e.v[i] != e.v[0] + i)
                return -1;
        return e.v[0];
    }
    static void set(Wide& e, long v) { e = make(v); }
    template <class C>
    static void emplace(C& c, long v) { c.emplace_back(make(v)); }
};

enum COp
{
    PUSH = 100, PUSH_OWN, EMPLACE, APPEND, APPEND_OWN, RESIZE, RESIZE_VAL, RESIZE_OWN, ASSIGN, ASSIGN_OWN, RESERVE, CLEAR,
    EXTEND, WRITE, MOVE_NEW, MOVE_ASSIGN, DESTROY, CREATE, ITERATE, PUSH_MANY, COP_END
};
const char* cname(int c)
{
    static const char* n[] = {"push_back", "push_back(own element)", "emplace_back", "append", "append(own elements)", "resize", "resize(value)",
                              "resize(own element)", "assign", "assign(own element)", "reserve", "clear", "uninitialized_extend", "write",
                              "move construct", "move assign", "destroy", "create", "iterate", "push_back (many)"};
    return c >= PUSH && c < COP_END ? n[c - PUSH] : "?";
}

template <class T, size_t N>
struct ChunkWorld
{
    typedef xad::ChunkContainer<T, N> C;
    typedef ET<T> E;
    static constexpr int NC = 3;
    struct Slot
    {
        C* c = nullptr;
        bool husk = false;
        std::vector<long> m;
        std::vector<const void*> addr;
        std::vector<const void*> chunks;
    };
    Ctx& ctx;
    Slot s[NC];
    std::string text;
    int curFault = 0, curBurst = 1;
    explicit ChunkWorld(Ctx& c) : ctx(c) {}

    template <class F>
    bool lib(F f)   // false: out of memory
    {
        bool ok = true;
        ctx.fired = false;
        ctx.failBurst = curBurst;
        ctx.failAt = curFault;
        try
        {
            Lib l;
            f();
        }
        catch (const std::bad_alloc&)
        {
            ok = false;
        }
        catch (const std::exception& e)
        {
            ctx.fail("unexpected-exception", fmt("unexpected exception %s", e.what()));
        }
        ctx.failAt = 0;
        ctx.failBurst = 0;
        if (!ok && !ctx.fired)
            ctx.fail("spurious-bad_alloc", "std::bad_alloc although no allocation failed");
        if (curFault && ctx.fired)
            ctx.count(ok ? "fault_alloc_absorbed" : "fault_alloc_thrown");
        curFault = 0;
        return ok;
    }
    static long val(int64_t a) { return long(uint64_t(a) % 100000); }
    static size_t around(const Op& o, size_t cur)
    {
        // sizes close to chunk boundaries and to the current size
        size_t k = uint64_t(o.a[1]) % 6;
        long d = long(uint64_t(o.a[2]) % 5) - 2;
        long r;
        if (k < 3)
            r = long((cur / N + k) * N) + d;
        else if (k == 3)
            r = long(cur) + d;
        else if (k == 4)
            r = long(uint64_t(o.a[2]) % (4 * N + 8));
        else
            r = long(uint64_t(o.a[2]) % (N + 2));
        if (r < 0)
            r = 0;
        return size_t(r);
    }
    bool exec(const Op& o)
    {
        curFault = o.fault;
        curBurst = o.burst;
        int i = int(uint64_t(o.a[0]) % NC);
        Slot& x = s[i];
        long v = val(o.a[3]);
        text = fmt("%s c%d", cname(o.code), i);
        if (o.code == CREATE)
        {
            if (x.c)
                return false;
            C* c = nullptr;
            if (lib([&] { c = new C(); }))
                x.c = c;
            return true;
        }
        if (!x.c)
            return false;
        std::vector<long> want = x.m;
        bool grows = true;
        if (x.husk && o.code != DESTROY && o.code != MOVE_ASSIGN && o.code != CLEAR && o.code != RESERVE)
            return false;
        C& c = *x.c;
        bool ok = true;
        if (x.m.size() > 40 * N + 200 && (o.code < RESIZE || o.code == EXTEND || o.code == PUSH_MANY))
            return false;
        switch (o.code)
        {
            case PUSH:
                want.push_back(v);
                ok = lib([&] { c.push_back(E::make(v)); });
                break;
            case PUSH_OWN:
            {
                if (want.empty())
                    return false;
                size_t k = uint64_t(o.a[2]) % want.size();
                want.push_back(want[k]);
                ok = lib([&] { c.push_back(c[k]); });
                break;
            }
            case PUSH_MANY:
            {
                size_t n = uint64_t(o.a[2]) % (2 * N + 3);
                for (size_t k = 0; k < n; ++k) want.push_back(v + long(k));
                ok = lib([&] { for (size_t k = 0; k < n; ++k) c.push_back(E::make(v + long(k))); });
                break;
            }
            case EMPLACE:
                want.push_back(v);
                ok = lib([&] { E::emplace(c, v); });
                break;
            case APPEND:
            {
                size_t n = uint64_t(o.a[1]) % 3 == 0 ? N - uint64_t(o.a[2]) % 2 : uint64_t(o.a[2]) % (N + 1);
                std::vector<T> src;
                for (size_t k = 0; k < n; ++k)
                {
                    src.push_back(E::make(v + long(k)));
                    want.push_back(v + long(k));
                }
                text += fmt(" %d elements", int(n));
                ok = lib([&] { c.append(src.begin(), src.end()); });
                break;
            }
            case APPEND_OWN:
            {
                if (want.empty())
                    return false;
                // within one chunk
                size_t k = uint64_t(o.a[2]) % want.size();
                size_t n = std::min<size_t>(N - k % N, want.size() - k);
                n = std::min<size_t>(n, 1 + uint64_t(o.a[1]) % N);
                for (size_t j = 0; j < n; ++j) want.push_back(want[k + j]);
                text += fmt(" %d elements from %d", int(n), int(k));
                ok = lib([&] { const T* f = &c[k]; c.append(f, f + n); });
                break;
            }
            case RESIZE:
            case RESIZE_VAL:
            case RESIZE_OWN:
            {
                size_t n = around(o, x.m.size());
                size_t own = 0;
                if (o.code == RESIZE_OWN)
                {
                    if (want.empty())
                        return false;
                    own = uint64_t(o.a[3]) % want.size();
                    v = want[own];
                }
                if (o.code == RESIZE && E::trivial && std::is_same<T, Wide>::value)
                    return false;
                long dv = o.code == RESIZE ? E::get(T()) : v;
                grows = n >= want.size();
                want.resize(n, dv);
                text += fmt(" %d", int(n));
                if (o.code == RESIZE)
                    ok = lib([&] { c.resize(n); });
                else if (o.code == RESIZE_VAL)
                    ok = lib([&] { c.resize(n, E::make(v)); });
                else
                    ok = lib([&] { c.resize(n, c[own]); });
                break;
            }
            case ASSIGN:
            case ASSIGN_OWN:
            {
                size_t n = around(o, x.m.size());
                size_t own = 0;
                if (o.code == ASSIGN_OWN)
                {
                    if (want.empty())
                        return false;
                    own = uint64_t(o.a[3]) % want.size();
                    v = want[own];
                }
                text += fmt(" %d", int(n));
                std::vector<long> old = want;
                want.assign(n, v);
                if (o.code == ASSIGN)
                    ok = lib([&] { c.assign(n, E::make(v)); });
                else
                    ok = lib([&] { c.assign(n, c[own]); });
                if (!ok)
                {
                    // elements are either old or new
                    size_t now = c.size();
                    if (now < std::min(old.size(), n) || now > std::max(old.size(), n))
                    {
                        ctx.fail("wrong-size-after-failure", fmt("%s: size %zu", text.c_str(), now));
                        return true;
                    }
                    x.m.clear();
                    for (size_t k = 0; k < now; ++k)
                    {
                        long g = E::get(c[k]);
                        if (g != v && (k >= old.size() || g != old[k]))
                            ctx.fail("wrong-element-after-failure", fmt("%s: element %zu is %ld", text.c_str(), k, g));
                        x.m.push_back(g);
                    }
                    x.addr.resize(std::min(x.addr.size(), now));
                    return true;
                }
                x.addr.resize(std::min(x.addr.size(), n));
                break;
            }
            case RESERVE:
            {
                size_t n = around(o, x.m.size());
                text += fmt(" %d", int(n));
                ok = lib([&] { c.reserve(n); });
                if (ok && n > 0)
                    x.husk = false;
                break;
            }
            case CLEAR:
                want.clear();
                x.addr.clear();
                ok = lib([&] { c.clear(); });
                break;
            case EXTEND:
            {
                if (!E::trivial)
                    return false;
                size_t n = around(o, 0);
                size_t old = want.size();
                text += fmt(" by %d", int(n));
                for (size_t k = 0; k < n; ++k) want.push_back(v + long(k));
                ok = lib([&] { c.uninitialized_extend(n); });
                if (ok && c.size() == want.size())
                    for (size_t k = 0; k < n; ++k) E::set(c[old + k], v + long(k));
                break;
            }
            case WRITE:
            {
                if (want.empty())
                    return false;
                size_t k = uint64_t(o.a[2]) % want.size();
                want[k] = v;
                E::set(c[k], v);
                break;
            }
            case ITERATE:
            {
                if (want.empty())
                    return false;
                size_t k = uint64_t(o.a[2]) % want.size();
                size_t end = uint64_t(o.a[1]) % 2 ? want.size() : std::min(k + 3 * N + 2, want.size());
                text += fmt(" %d to %d", int(k), int(end));
                if (!lib([&] {
                        auto it = c.iterator_at(k);
                        const auto e = c.iterator_at(end);
                        size_t j = k;
                        for (; it != e; ++j)
                        {
                            if (j == end)
                                throw std::runtime_error("iterator misses the end");
                            if (&*it != &c[j])
                                throw std::runtime_error("iterator refers to another element");
                            if (j % 2)
                                ++it;
                            else
                            {
                                auto jt = it++;
                                if (!(jt == c.iterator_at(j)) || jt != c.iterator_at(j))
                                    throw std::runtime_error("iterators differ");
                            }
                        }
                        if (j != end)
                            throw std::runtime_error("iterator ends too early");
                    }))
                    return true;
                break;
            }
            case MOVE_NEW:
            {
                int j = int(uint64_t(o.a[2]) % NC);
                if (j == i || s[j].c)
                    return false;
                curFault = 0;
                lib([&] { s[j].c = new C(std::move(c)); });
                moved(i, j);
                return true;
            }
            case MOVE_ASSIGN:
            {
                int j = int(uint64_t(o.a[2]) % NC);
                // c_i = move(c_j)
                if (!s[j].c || s[j].husk)
                    return false;
                curFault = 0;
                text += fmt(" = move(c%d)", j);
                lib([&] { *s[i].c = std::move(*s[j].c); });
                if (i != j)
                {
                    s[i].m.clear();
                    moved(j, i);
                }
                return true;
            }
            case DESTROY:
                curFault = 0;
                lib([&] { delete x.c; });
                x = Slot();
                return true;
            default: return false;
        }
        if (ctx.failed)
            return true;
        size_t now = c.size();
        if (ok)
            x.m = want;
        else
        {
            ctx.count("recovered");
            // nothing lost, and what has been added already is part of it
            size_t lo = x.m.size(), hi = grows ? want.size() : x.m.size();
            if (now < lo || now > hi)
            {
                ctx.fail("wrong-size-after-failure", fmt("%s: size %zu, was %zu", text.c_str(), now, lo));
                return true;
            }
            if (o.code == EXTEND)
            {
                if (now != lo)
                    ctx.fail("wrong-size-after-failure", fmt("%s: size %zu, was %zu", text.c_str(), now, lo));
            }
            else
                for (size_t k = lo; k < now; ++k) x.m.push_back(want[k]);
        }
        x.addr.resize(std::min(x.addr.size(), x.m.size()));
        return true;
    }
    void moved(int from, int to)
    {
        s[to].m.swap(s[from].m);
        s[to].addr.swap(s[from].addr);
        s[to].husk = s[from].husk;
        s[from].husk = true;
        s[from].m.clear();
        s[from].addr.clear();
    }
    void check()
    {
        size_t total = 0;
        for (int i = 0; i < NC && !ctx.failed; ++i)
        {
            Slot& x = s[i];
            if (!x.c)
                continue;
            C& c = *x.c;
            const C& cc = c;
            total += x.m.size();
            if (c.size() != x.m.size() || c.empty() != x.m.empty())
            {
                ctx.fail("wrong-size", fmt("%s: c%d has size %zu, expected %zu", text.c_str(), i, c.size(), x.m.size()));
                return;
            }
            if (x.husk)
                continue;
            size_t nch = size_t(c.chunk_end() - c.chunk_begin());
            if (nch < C::getNumChunks(x.m.size()) || nch < 1)
            {
                ctx.fail("too-few-chunks", fmt("%s: c%d has %zu chunks for %zu elements", text.c_str(), i, nch, x.m.size()));
                return;
            }
            if (size_t(c.chunk_rend() - c.chunk_rbegin()) != nch)
                ctx.fail("wrong-chunks", "reverse iteration over the chunks");
            for (size_t k = 0; k < x.m.size(); ++k)
            {
                const T* p = &cc[k];
                if (k < x.addr.size() && x.addr[k] != p)
                {
                    ctx.fail("address-changed", fmt("%s: element %zu of c%d moved", text.c_str(), k, i));
                    return;
                }
                if (p != &c[k] || p != c.chunk_begin()[long(k / N)] + k % N || reinterpret_cast<uintptr_t>(p) % alignof(T))
                {
                    ctx.fail("wrong-address", fmt("%s: element %zu of c%d", text.c_str(), k, i));
                    return;
                }
                long g = E::get(*p);
                if (g != x.m[k])
                {
                    ctx.fail("wrong-element", fmt("%s: element %zu of c%d is %ld, expected %ld", text.c_str(), k, i, g, x.m[k]));
                    return;
                }
                if (k >= x.addr.size())
                    x.addr.push_back(p);
                ctx.observe(uint64_t(g));
            }
            ctx.state(hashMix(hashMix(x.m.size(), nch), hashMix(N, sizeof(T))));
            ctx.count("elements_checked", long(x.m.size()));
        }
        if (elemError)
            ctx.fail("element-lifetime", text + ": an element was destroyed twice, or constructed over another one");
        if (!E::trivial && !ctx.failed && liveElems->size() != total)
            ctx.fail("element-lifetime", fmt("%s: %zu live elements, expected %zu", text.c_str(), liveElems->size(), total));
    }
    void finish()
    {
        for (auto& x : s)
        {
            if (x.c)
            {
                Lib l;
                delete x.c;
            }
            x = Slot();
        }
        if (elemError || !liveElems->empty())
            ctx.fail("element-lifetime", fmt("after the destruction: %zu elements not destroyed", liveElems->size()));
    }
};

template <class T, size_t N>
void runChunk(const RunRequest& rq, Ctx& ctx, RunResult& res, Rng& rng)
{
    ChunkWorld<T, N> w(ctx);
    std::set<const void*> live;
    liveElems = &live;
    elemError = false;
    auto note = [&](const Op& op) {
        res.ops.push_back(op);
        for (char ch : w.text) ctx.log = hashMix(ctx.log, uint64_t((unsigned char)ch));
        ctx.log = hashMix(ctx.log, ctx.obs);
        ctx.stats[std::string("op_") + cname(op.code)]++;
        if (op.fault)
            ctx.count("fault_alloc_armed");
        if (rq.keepText)
            res.opText.push_back("[] " + w.text + (op.fault ? fmt(" (allocation %d fails, %d times)", op.fault, op.burst) : ""));
    };
    if (rq.replay)
    {
        for (auto op : rq.ops)
        {
            if (ctx.failed)
                break;
            ++ctx.step;
            if (!w.exec(op))
            {
                --ctx.step;
                continue;
            }
            note(op);
            if (!ctx.failed)
                w.check();
        }
    }
    else
    {
        int n = 20 + int(rng.below(70));
        // swarm: some kinds of steps are left out
        std::vector<int> kinds;
        for (int k = PUSH; k < COP_END; ++k)
            if (k == CREATE || k == PUSH || rng.chance(70))
                kinds.push_back(k);
        int pf = rng.chance(70) ? int(rng.below(30)) : 0;
        for (int i = 0; i < n * 4 && ctx.step < n && !ctx.failed; ++i)
        {
            Op op;
            op.code = i == 0 ? int(CREATE) : kinds[size_t(rng.below(kinds.size()))];
            if (op.code == CLEAR && rng.chance(60))
                op.code = PUSH_MANY;
            for (auto& a : op.a) a = int64_t(rng.below(1u << 30));
            if (rng.chance(55))
                op.a[0] = 0;
            if (rng.chance(pf))
            {
                op.fault = 1 + int(rng.chance(50) ? rng.below(3) : rng.below(2 * N + 4));
                op.burst = rng.chance(75) ? 1 : 3;
            }
            ++ctx.step;
            progress(res.ops.size(), op);
            if (!w.exec(op))
            {
                --ctx.step;
                continue;
            }
            note(op);
            if (!ctx.failed)
                w.check();
        }
    }
    ctx.stats["steps"] += ctx.step;
    w.finish();
    liveElems = nullptr;
}

RunResult runChunks(const RunRequest& rq)
{
    RunResult res;
    Ctx ctx;
    Rng rng(rq.seed);
    ctx.fill = (unsigned char)(0x11 * rng.below(16));
    if (rq.fill >= 0)
        ctx.fill = (unsigned char)rq.fill;
    Ctx* saved = tlsCtx;
    tlsCtx = &ctx;
    typedef std::pair<unsigned, unsigned> UU;
    switch (rq.seed % 12)
    {
        case 0: runChunk<Elem, 4>(rq, ctx, res, rng); break;
        case 1: runChunk<Elem, 1>(rq, ctx, res, rng); break;
        case 2: runChunk<Elem, 2>(rq, ctx, res, rng); break;
        case 3: runChunk<Elem, 3>(rq, ctx, res, rng); break;
        case 4: runChunk<Elem, 8>(rq, ctx, res, rng); break;
        case 5: runChunk<Elem, 16>(rq, ctx, res, rng); break;
        case 6: runChunk<double, 4>(rq, ctx, res, rng); break;
        case 7: runChunk<double, 16>(rq, ctx, res, rng); break;
        case 8: runChunk<double, 1>(rq, ctx, res, rng); break;
        case 9: runChunk<UU, 2>(rq, ctx, res, rng); break;
        case 10: runChunk<UU, 64>(rq, ctx, res, rng); break;
        default: runChunk<Wide, 3>(rq, ctx, res, rng); break;
    }
    if (!ctx.failed && ctx.live != 0)
        ctx.fail("leak", fmt("%ld allocations (%ld bytes) of the library never released", ctx.live, ctx.liveBytes));
    tlsCtx = saved;
    dropTracking(&ctx);
    res.failed = ctx.failed;
    res.cls = ctx.cls;
    res.msg = ctx.msg;
    res.failStep = ctx.failStep;
    res.obs = ctx.obs;
    res.log = ctx.log;
    ctx.stats["allocations"] += ctx.allocs;
    res.stats = ctx.stats;
    res.states = ctx.states;
    return res;
}
RegisterWorkload r("chunk", "mixed", runChunks);
}  // namespace
}  // namespace sim
