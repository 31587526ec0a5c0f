// World: real tapes and variables of the library, executed step by step next to a small reference
// model. The model has no slots, no storage and no re-use: it keeps a list of recorded events per
// tape over handles that are never re-used, with partial derivatives from dual numbers.
#pragma once
#include "core.hpp"
#include "cplx.hpp"
#include "dual.hpp"
#include "profiles.hpp"
#include "shapes.hpp"
#include "thrown.hpp"
#include "traits.hpp"

#include <XAD/XAD.hpp>
#include <algorithm>
#include <deque>
#include <functional>
#include <list>
#include <memory>
#include <new>
#include <string>
#include <set>
#include <vector>

namespace sim
{

struct SimError
{
    int id;
};

// runs the function on the given (real) thread, and waits for it to finish
void runOnThread(int t, const std::function<void()>& f);

template <class T, class N>
void evalShape(T& out, int s, const T& a, const T& b, const T& c, N k);
template <class A, class N>
A* newShape(void* mem, int s, const A& a, const A& b, const A& c, N k);
template <class A, class N>
void assignShape(A& x, int s, const A& a, const A& b, const A& c, N k);

template <class Real>
struct World
{
    typedef Tr<Real> T;
    typedef typename T::F F;
    typedef typename T::N N;
    typedef typename T::Env Env;
    typedef xad::AReal<Real> A;
    typedef xad::Tape<Real> TapeT;
    typedef Dual<F, 3> P;   // for partial derivatives of statements
    static constexpr int NV = 20;
    static constexpr int NT = 3;
    static constexpr int NTH = 3;
    static constexpr int NC = 24;
    static constexpr unsigned INV = TapeT::INVALID_SLOT;

    // ------------------------------------------------------------------ model
    struct VarM
    {
        bool on = false, moved = false;
        int tape = -1, h = -1;
        F val = F(0.0);
        double gain = 1;   // bound for the derivatives along chains of statements in this variable
    };
    struct PoolVar
    {
        VarM m;
        A* p = nullptr;
    };
    struct Event
    {
        int lhs = -1;
        int n = 0;
        int h[3];
        F c[3];
        int ckpt = -1;
    };
    struct HI
    {
        F adj = F(0.0);
        double err = 0;
        bool dead = false, stale = false, obscured = false;
        int regEv = 0;
        unsigned slot = 0;
    };
    struct Pos
    {
        unsigned real;
        int ev;
    };
    struct Cb;
    struct Ckpt
    {
        int id = 0;
        Cb* cb = nullptr;
        std::vector<int> in, out;
        std::vector<std::vector<F>> d;   // d[out][in]
        double amp = 0;                  // of rounding errors within
    };
    struct MT
    {
        TapeT* real = nullptr;
        bool husk = false;
        int activeOn = -1;
        std::vector<Event> ev;
        std::vector<HI> hs;
        std::vector<Ckpt> ckpts;
        std::vector<Pos> pos;
        std::vector<Cb*> owned;
        bool init = false, damaged = false, oom = false, leaky = false, slotLeaky = false;
        bool deadNonzero = false, polluted = false;
        int sweptTo = 1 << 30;
        long live = 0, base = 0, peak = 0;
        long regs = 0;           // number of registrations so far
        long clearedStep = -5;
        unsigned validBelow = 0; // no slot from here on can have a derivative
        unsigned everBelow = 0;
        std::set<int> optional;      // numbers of events after which there may be another statement without effect
        unsigned clearedFrom = INV;   // not accessible after clearDerivativesAfter
        bool external = false;
        void clearAdj()
        {
            for (auto& h : hs)
            {
                h.adj = F(0.0);
                h.err = 0;
                h.obscured = false;
            }
            deadNonzero = polluted = false;
            sweptTo = 1 << 30;
        }
    };

    // ------------------------------------------------------------------ real checkpoint callbacks
    struct PStep
    {
        int shape, a, b, c;   // shape < 0: inner checkpoint (linear)
        double k, k2;
    };
    struct Prog
    {
        int nin = 1, nout = 1, kind = 0, style = 0;
        int mid = -1, midHow = 0;   // a nested recording within, after this step
        int misuse = 0;             // wrong calls within callbacks and nested recordings
        std::vector<PStep> steps;
        double lin[2][3];
    };
    struct Frame
    {
        int id;
        Prog prog;
        std::vector<unsigned> in, out;
        std::vector<Real> x;
    };
    enum CbKind { CB_LIN, CB_NEST, CB_NEST2, CB_NKINDS };

    struct Cb : xad::CheckpointCallback<TapeT>
    {
        World* w;
        int serial;
        std::vector<Frame> frames;
        explicit Cb(World* ww) : w(ww), serial(int(ww->cbDestroyed.size())) { ww->cbDestroyed.push_back(0); }
        ~Cb() override
        {
            ++w->cbDestroyed[size_t(serial)];
            ++w->cbDestroyedTotal;
        }
        void computeAdjoint(TapeT* tape) override { w->runCallback(this, tape); }
    };
    // linear callback inside of a nested recording
    struct InnerCb : xad::CheckpointCallback<TapeT>
    {
        World* w;
        unsigned in[2], out;
        double k[2];
        int style;
        int calls = 0;
        void computeAdjoint(TapeT* tape) override
        {
            ++calls;
            w->maybeThrow(2);
            Real a = tape->getAndResetOutputAdjoint(out);
            if (style & 1)
            {
                // variables of the callback's own
                A z;
                xad::value(z) = a;
                tape->registerInput(z);
                A z2 = z * N(2);
            }
            for (int i = 0; i < 2; ++i) tape->incrementAdjoint(in[i], Real(a * N(k[i])));
            w->maybeThrow(4);
        }
    };

    // a callback that must never be called
    struct Trip : xad::CheckpointCallback<TapeT>
    {
        World* w;
        void computeAdjoint(TapeT*) override { ++w->tripped; }
    };
    Trip trip;
    long tripped = 0, trippedSeen = 0;

    Ctx& ctx;
    const Profile& prof;
    Env& env;
    Rng* rng = nullptr;   // only when generating
    PoolVar pool[NV];
    std::vector<A>* cv = nullptr;
    std::vector<VarM> cm;
    MT tapes[NT];
    std::vector<TapeT*> husks;
    std::vector<Cb*> looseCbs;
    std::vector<int> cbDestroyed;
    long cbDestroyedTotal = 0;
    std::vector<int> invoked;     // real invocation log of the current sweep
    int throwInv = 0, throwStage = 0, throwType = 0, invCount = 0;
    int gotKind = 0, gotId = 0;
    int nextCkpt = 1;
    int act[NTH];
    int th = 0;
    int curFault = 0, curBurst = 1;
    bool sub = false;
    std::string errType;
    std::string text;
    std::deque<Op> queue;  // generator: steps already decided
    std::vector<int> swarm;
    typedef xad::Tape<typename std::conditional<T::isFloat, double, float>::type> OtherTape;
    OtherTape* other = nullptr;
    bool otherActive[NTH];
    xad::AReal<typename OtherTape::value_type>* otherVar = nullptr;

    World(Ctx& c, const Profile& p, Env& e) : ctx(c), prof(p), env(e)
    {
        for (auto& a : act) a = -1;
        for (auto& a : otherActive) a = false;
        trip.w = this;
        Lib l;
        cv = new std::vector<A>();
    }
    World(const World&) = delete;

    // ================================================================== helpers
    enum St { OK, OOM, CBTHROW, XERR };

    // what has been thrown (for use in handlers)
    St classify()
    {
        int kind, id;
        if (caughtThrown(kind, id))
        {
            ctx.observe(uint64_t(0xCB00 + id));
            gotKind = kind;
            gotId = id;
            return CBTHROW;
        }
        try
        {
            throw;
        }
        catch (const std::bad_alloc&)
        {
            return OOM;
        }
        catch (const xad::TapeAlreadyActive&)
        {
            errType = "TapeAlreadyActive";
        }
        catch (const xad::OutOfRange&)
        {
            errType = "OutOfRange";
        }
        catch (const xad::DerivativesNotInitialized&)
        {
            errType = "DerivativesNotInitialized";
        }
        catch (const xad::NoTapeException&)
        {
            errType = "NoTapeException";
        }
        catch (const std::exception& e)
        {
            errType = std::string("std: ") + e.what();
        }
        return XERR;
    }

    template <class Fn>
    St lib(Fn fn)
    {
        St st = OK;
        long before = ctx.allocs;
        ctx.fired = false;
        ctx.failBurst = curBurst;
        ctx.failAt = curFault;
        try
        {
            Lib l;
            fn();
        }
        catch (...)
        {
            st = classify();
        }
        ctx.failAt = 0;
        ctx.failBurst = 0;
        if (curFault && ctx.fired)
        {
            ctx.count(st == OOM ? "fault_alloc_thrown" : "fault_alloc_absorbed");
            if (st != OOM)
                for (auto& t : tapes)
                    if (t.activeOn == th)
                        t.slotLeaky = true;
        }
        if (st == OOM && !ctx.fired)
            ctx.fail("spurious-bad_alloc", "std::bad_alloc although no allocation failed");
        if (st == OOM)
            ctx.observe(uint64_t(0xBAD));
        (void)before;
        curFault = 0;
        return st;
    }
    // executes something that has to succeed
    template <class Fn>
    bool must(const char* what, Fn fn)
    {
        St st = lib(fn);
        if (st == OK)
            return true;
        if (st == OOM)
            return false;
        ctx.fail("unexpected-exception", fmt("%s: unexpected exception %s", what, st == CBTHROW ? "of the callback" : errType.c_str()));
        return false;
    }

    int A0() const { return act[th]; }

    VarM* vm(int i)
    {
        if (i < NV)
            return &pool[i].m;
        i -= NV;
        return i < int(cm.size()) ? &cm[size_t(i)] : nullptr;
    }
    A* vp(int i) { return i < NV ? pool[i].p : &(*cv)[size_t(i - NV)]; }
    int nvars() const { return NV + int(cm.size()); }
    int idx(int64_t a) { return int(uint64_t(a) % uint64_t(nvars())); }

    bool reg(const VarM& m) const { return m.h >= 0; }
    bool mine(const VarM& m)
    {
        if (m.h < 0)
            return true;
        return m.tape == A0() && !tapes[m.tape].damaged && !tapes[m.tape].hs[size_t(m.h)].stale;
    }
    // adjoints scale with the seeds, however small
    int tinySeeds = 0;  // all seeds are scaled by two to minus this
    double seedScale = 0;
    bool usable(const VarM& m) { return m.on && !m.moved && mine(m); }
    bool assignable(const VarM& m) { return m.on && mine(m); }
    bool canRegister()
    {
        if (A0() < 0)
            return false;
        MT& t = tapes[A0()];
        return !t.damaged && !(t.init && (t.deadNonzero || t.polluted)) && t.live < 700 && t.ev.size() < 4000;
    }
    bool canRecord()
    {
        if (A0() < 0)
            return false;
        MT& t = tapes[A0()];
        return !t.damaged && t.ev.size() < 4000;
    }
    // destroying variables of other tapes is only possible if none is active
    bool destroyable(const VarM& m) { return m.on && (m.h < 0 || m.tape == A0()); }

    int newHandle(const A& v)
    {
        MT& t = tapes[A0()];
        HI h;
        h.regEv = int(t.ev.size()) + 1;
        h.slot = v.getSlot();
        t.hs.push_back(h);
        ++t.live;
        ++t.regs;
        t.peak = std::max(t.peak, t.live);
        t.validBelow = std::max(t.validBelow, h.slot + 1);
        t.everBelow = std::max(t.everBelow, h.slot + 1);
        t.clearedFrom = INV;
        return int(t.hs.size()) - 1;
    }
    void killHandle(VarM& m)
    {
        if (m.h < 0)
            return;
        MT& t = tapes[m.tape];
        HI& h = t.hs[size_t(m.h)];
        h.dead = true;
        if (t.init && (!isZero(h.adj) || h.err > 0))
            t.deadNonzero = true;
        if (A0() == m.tape)
            --t.live;
        else
            t.leaky = true;
        m.h = -1;
        m.tape = -1;
    }
    void addEvent(const Event& e)
    {
        tapes[A0()].ev.push_back(e);
    }
    // ------------------------------------------------------------------ values
    static bool inRange(const F& f) { return norm(f) < 1e4 && std::fabs(prim(f)) <= 6.0; }

    void checkValue(const char* what, A& a, VarM& m)
    {
        const Real& r = static_cast<const A&>(a).value();
        double d = std::fabs(T::primal(r) - prim(m.val));
        double tol = T::isFloat ? 2e-4 : 1e-9;
        if (!(d <= tol * (1 + std::fabs(prim(m.val)))))
        {
            if (prof.oracle & O_VALUE)
                ctx.fail("wrong-value", fmt("%s: value %.12g, expected %.12g", what, T::primal(r), prim(m.val)));
            return;
        }
        T::sync(m.val, r);
        T::observe(&ctx, r);
    }
    // a shape evaluated by the model; returns false if it's not suitable
    bool evalModel(int shape, const VarM& a, const VarM& b, const VarM& c, double k, F& val, F d[3])
    {
        P pa(a.val), pb(b.val), pc(c.val), r;
        pa.d[0] = F(1.0);
        pb.d[1] = F(1.0);
        pc.d[2] = F(1.0);
        illConditioned = false;
        evalShape<P, double>(r, shape, pa, pb, pc, k);
        val = r.v;
        for (int i = 0; i < 3; ++i) d[i] = r.d[i];
        if (illConditioned || !inRange(val))
            return false;
        for (int i = 0; i < 3; ++i)
            if (!(norm(d[i]) < 1e6))
                return false;
        return true;
    }
    static int arity(int s)
    {
        static const int ar[] = {
#define X(i, n, e) n,
            SIM_SHAPES(X)
#undef X
        };
        return ar[s];
    }
    // one of the shapes with several operands
    static int manyOperands(uint64_t r)
    {
        static const std::vector<int> v = [] {
            std::vector<int> l;
            for (int s = 0; s < SIM_NUM_SHAPES; ++s)
                if (arity(s) > 1)
                    l.push_back(s);
            return l;
        }();
        return v[r % v.size()];
    }
    static int shapeOf(int64_t c) { return int(uint64_t(c) % SIM_NUM_SHAPES); }
    static double constOf(int64_t c) { return 0.5 + double(uint64_t(c) % 97) / 64.0; }

    static void addOp(Event& e, const F& c, int h)
    {
        if (h < 0)
            return;
        e.c[e.n] = c;
        e.h[e.n] = h;
        ++e.n;
    }

    // after memory ran out (or a callback has thrown) in an operation of the active tape
    void damage(int t, bool oom)
    {
        if (t < 0)
            return;
        tapes[t].damaged = true;
        if (oom)
        {
            tapes[t].oom = true;
            tapes[t].leaky = true;
            tapes[t].slotLeaky = true;
        }
        ctx.count("recoveries_needed");
    }
    // brings the model's registration state in line with the variable after a failed operation
    void resync(A& a, VarM& m)
    {
        if (a.shouldRecord() == (m.h >= 0))
            return;
        if (a.shouldRecord())
        {
            m.tape = A0();
            m.h = newHandle(a);
        }
        else
            killHandle(m);
    }

    // ================================================================== callbacks
    void maybeThrow(int stage)
    {
        if (throwInv > 0 && throwInv == invCount && throwStage == stage)
        {
            Out out;
            throwInv = 0;
            ctx.count("fault_callback_throw");
            throwKind(throwType, stage);
        }
    }

    // nested recordings that are given up without computing adjoints leave nothing behind
    void abandon(TapeT* tape, int how, A& x)
    {
        const int depth = 1 + (how & 1);
        try
        {
            xad::ScopedNestedRecording<TapeT> n1(tape);
            abandonBody(tape, how >> 1, x);
            if (depth > 1)
            {
                xad::ScopedNestedRecording<TapeT> n2(tape);
                abandonBody(tape, how >> 4, x);
                if ((how & 384) == 128)
                    throw SimError{-7};
            }
            if ((how & 384) == 256)
                throw SimError{-7};
        }
        catch (const SimError& e)
        {
            if (e.id != -7)
                throw;
        }
        ctxCount("nested_abandoned");
    }
    void ctxCount(const char* what)
    {
        Out out;
        ctx.count(what);
    }
    // a nested recording within another one
    void inside(TapeT* tape, int how, A& x)
    {
        if (how % 4 != 0)
            abandon(tape, how >> 4, x);
        if (how % 4 != 1)
        {
            double got, want = T::primal(xad::value(x)) * 0.5 + 1;
            {
                A z;
                xad::value(z) = xad::value(x);
                tape->registerInput(z);
                xad::ScopedNestedRecording<TapeT> n(tape);
                A w = z * z * N(0.25) + z;
                tape->registerOutput(w);
                xad::derivative(w) = Real(N(1));
                n.computeAdjoints();
                got = T::primal(xad::derivative(z));
            }
            if (!(std::fabs(got - want) <= 1e-4 * (1 + std::fabs(want))))
                insideBad = true;
        }
        ctxCount("nested_in_nested");
    }
    bool insideBad = false;

    // wrong calls within a callback or a nested recording, which have to be reported and change nothing
    std::string misuseBad;
    void misuseWithin(TapeT* tape, int how, bool fresh)
    {
        TapeT* other = nullptr;
        for (auto& t : tapes)
            if (t.real && t.real != tape && t.activeOn < 0 && !t.damaged)
                other = t.real;
        const unsigned slot = INV - unsigned(how >> 4) % 3;
        const char *want = "OutOfRange", *got = "no exception";
        const auto vars = tape->getNumVariables(), ops = tape->getNumOperations(), pos = tape->getPosition(),
                   cbs = tape->getNumCallbacks();
        int kind = how % 8;
        if (kind < 2 && !other)
            kind = 7;
        if (kind == 6 && cbs)
            return;
        try
        {
            switch (kind)
            {
                case 0: want = "TapeAlreadyActive"; other->activate(); break;
                case 1: want = "TapeAlreadyActive"; TapeT::setActive(other); break;
                case 2: (void)tape->derivative(slot); break;
                case 3: tape->setDerivative(slot, Real(N(1))); break;
                case 4: tape->incrementAdjoint(slot, Real(N(1))); break;
                case 5: (void)tape->getAndResetOutputAdjoint(slot); break;
                case 6:
                    if (how & 16)
                        tape->popCallback();
                    else
                        (void)tape->getLastCallback();
                    break;
                default:
                    if (fresh)
                    {
                        want = "DerivativesNotInitialized";
                        tape->computeAdjoints();
                    }
                    else
                    {
                        want = "TapeAlreadyActive";
                        TapeT again;
                    }
                    break;
            }
        }
        catch (const xad::TapeAlreadyActive&) { got = "TapeAlreadyActive"; }
        catch (const xad::OutOfRange&) { got = "OutOfRange"; }
        catch (const xad::DerivativesNotInitialized&) { got = "DerivativesNotInitialized"; }
        Out out;
        ctx.count("misuses_within");
        const bool lost = TapeT::getActive() != tape;
        if (lost)
        {
            TapeT::deactivateAll();
            TapeT::setActive(tape);
        }
        if (std::strcmp(want, got))
            misuseBad = fmt("wrong call %d within a callback or nested recording: expected %s, got %s", kind, want, got);
        else if (lost || vars != tape->getNumVariables() || ops != tape->getNumOperations() ||
                 pos != tape->getPosition() || cbs != tape->getNumCallbacks())
            misuseBad = fmt("wrong call %d within a callback or nested recording changed the tape", kind);
    }
    void abandonBody(TapeT* tape, int how, A& x)
    {
        if (how & 1)
            tape->insertCallback(&trip);
        if (how & 2)
        {
            A z = x * N(2);
            A y;
            tape->registerInput(y);
            z = z * y + x;
            tape->insertCallback(&trip);
            z *= x;
        }
        if (how & 4)
            tape->insertCallback(&trip);
    }

    void runCallback(Cb* cb, TapeT* tape)
    {
        ++invCount;
        if (cb->frames.empty())
        {
            invoked.push_back(-1);
            return;
        }
        Frame fr = std::move(cb->frames.back());
        cb->frames.pop_back();
        invoked.push_back(fr.id);
        maybeThrow(1);
        const Prog& pr = fr.prog;
        std::vector<Real> oa;
        for (auto s : fr.out) oa.push_back(tape->getAndResetOutputAdjoint(s));
        maybeThrow(2);
        if (pr.misuse)
            misuseWithin(tape, pr.misuse, false);
        if (pr.kind == CB_LIN)
        {
            if (pr.style & 1)
            {
                std::vector<A> tmp(3);
                for (auto& z : tmp) tape->registerInput(z);
                A z = tmp[0] * tmp[1] + N(1);
                if (pr.style & 2)
                    tmp.erase(tmp.begin());
                maybeThrow(3);
            }
            for (int o = 0; o < pr.nout; ++o)
                for (int i = 0; i < pr.nin; ++i)
                    tape->incrementAdjoint(fr.in[size_t(i)], Real(oa[size_t(o)] * N(pr.lin[o][i])));
            maybeThrow(4);
            return;
        }
        std::vector<std::unique_ptr<A>> L;
        for (int i = 0; i < pr.nin; ++i)
        {
            L.push_back(std::unique_ptr<A>(new A()));
            xad::value(*L.back()) = fr.x[size_t(i)];
            tape->registerInput(*L.back());
        }
        if (pr.style >> 4 & 1)
            abandon(tape, pr.style >> 6, *L[0]);
        if (pr.kind == CB_NEST2)
        {
            // one nested recording per output
            for (int o = 0; o < pr.nout; ++o) nestedBody(tape, fr, L, oa, o, o + 1);
        }
        else
            nestedBody(tape, fr, L, oa, 0, pr.nout);
        if (pr.style >> 5 & 1)
            abandon(tape, pr.style >> 15, *L[0]);
        maybeThrow(6);
        if (pr.style & 4)
            L.erase(L.begin());
    }

    void nestedBody(TapeT* tape, const Frame& fr, std::vector<std::unique_ptr<A>>& L,
                    const std::vector<Real>& oa, int o0, int o1)
    {
        const Prog& pr = fr.prog;
        const size_t nin = size_t(pr.nin);
        std::vector<std::unique_ptr<InnerCb>> inner;
        xad::ScopedNestedRecording<TapeT> nested(tape);
        {
            std::vector<std::unique_ptr<A>> V;   // all but the inputs
            auto get = [&](int i) -> A& { return size_t(i) < nin ? *L[size_t(i)] : *V[size_t(i) - nin]; };
            maybeThrow(3);
            if (pr.misuse)
                misuseWithin(tape, pr.misuse >> 8, true);
            for (size_t si = 0; si < pr.steps.size(); ++si)
            {
                const PStep& s = pr.steps[si];
                if (s.shape < 0)
                {
                    inner.push_back(std::unique_ptr<InnerCb>(new InnerCb()));
                    InnerCb& ic = *inner.back();
                    ic.w = this;
                    ic.k[0] = s.k;
                    ic.k[1] = s.k2;
                    ic.style = pr.style;
                    V.push_back(std::unique_ptr<A>(new A()));
                    xad::value(*V.back()) = xad::value(get(s.a)) * N(s.k) + xad::value(get(s.b)) * N(s.k2);
                    tape->registerOutput(*V.back());
                    ic.in[0] = get(s.a).getSlot();
                    ic.in[1] = get(s.b).getSlot();
                    ic.out = V.back()->getSlot();
                    tape->insertCallback(&ic);
                }
                else
                {
                    V.emplace_back();
                    V.back().reset(new A());
                    assignShape<A, N>(*V.back(), s.shape, get(s.a), get(s.b), get(s.c), N(s.k));
                }
                if (int(si) == pr.mid)
                    inside(tape, pr.midHow, get(int(nin + si)));
                // temporaries that aren't needed anymore are gone, in any order
                if ((pr.style & 8) && si + 1 < pr.steps.size())
                {
                    for (size_t v = 0; v < V.size(); ++v)
                    {
                        if (!V[v])
                            continue;
                        bool need = v + size_t(pr.nout) >= pr.steps.size();
                        int ii = int(v + nin);
                        for (size_t sj = si + 1; sj < pr.steps.size(); ++sj)
                            need = need || pr.steps[sj].a == ii || pr.steps[sj].b == ii || pr.steps[sj].c == ii;
                        if (!need)
                            V[v].reset();
                    }
                }
            }
            maybeThrow(4);
            const size_t nv = pr.steps.size();
            for (int o = o0; o < o1; ++o)
            {
                A& y = *V[nv - 1 - size_t(o)];
                tape->registerOutput(y);
                xad::derivative(y) = oa[size_t(o)];
            }
            nested.computeAdjoints();
            maybeThrow(5);
            for (size_t i = 0; i < nin; ++i)
                nested.incrementAdjoint(fr.in[i], Real(xad::derivative(*L[i])));
        }
        for (auto& ic : inner)
            if (ic->calls != 1)
                cbBad = ic->calls + 100;
    }
    int cbBad = 0;

    // evaluates the program passively (real) and with the model
    bool progModel(const Prog& pr, const std::vector<F>& x, std::vector<F>& y, std::vector<std::vector<F>>& d, double& amp)
    {
        std::vector<P> v;
        // bounds of the rounding errors of values, in units of the precision, and sums of the absolute
        // contributions to derivatives - programs that amplify rounding errors much aren't used
        std::vector<double> ve, da;
        amp = 0;
        for (int i = 0; i < pr.nin; ++i)
        {
            ve.push_back(0);
            da.push_back(1);
            v.push_back(P(x[size_t(i)]));
            v.back().d[i] = F(1.0);
        }
        if (pr.kind == CB_LIN)
        {
            std::vector<P> o;
            for (int j = 0; j < pr.nout; ++j)
            {
                P s(0.0);
                for (int i = 0; i < pr.nin; ++i) s += v[size_t(i)] * pr.lin[j][i];
                o.push_back(s);
            }
            v = o;
            std::reverse(v.begin(), v.end());
        }
        else
            for (auto& s : pr.steps)
            {
                P r;
                illConditioned = false;
                const size_t op[3] = {size_t(s.a), size_t(s.b), size_t(s.c)};
                double part[3] = {std::fabs(s.k), std::fabs(s.k2), 0};
                if (s.shape < 0)
                    r = v[op[0]] * s.k + v[op[1]] * s.k2;
                else
                {
                    evalShape<P, double>(r, s.shape, v[op[0]], v[op[1]], v[op[2]], s.k);
                    P o[3], q;
                    for (int j = 0; j < 3; ++j)
                    {
                        o[j] = P(v[op[j]].v);
                        o[j].d[j] = F(1.0);
                    }
                    evalShape<P, double>(q, s.shape, o[0], o[1], o[2], s.k);
                    for (int j = 0; j < 3; ++j) part[j] = norm(q.d[j]);
                }
                if (illConditioned || !inRange(r.v))
                    return false;
                double e = norm(r.v), sum = 0;
                for (int j = 0; j < 3; ++j)
                {
                    if (!(part[j] < 100))
                        return false;
                    e += part[j] * (ve[op[j]] + norm(v[op[j]].v));
                    sum += part[j] * da[op[j]];
                }
                if (!(e < 1000) || !(sum < 1e4))
                    return false;
                amp = std::max(amp, sum);
                v.push_back(r);
                ve.push_back(e);
                da.push_back(sum);
            }
        for (int o = 0; o < pr.nout; ++o)
        {
            P& r = v[v.size() - 1 - size_t(o)];
            if (!inRange(r.v))
                return false;
            y.push_back(r.v);
            d.emplace_back();
            for (int i = 0; i < pr.nin; ++i)
            {
                if (!(norm(r.d[i]) < 1e6))
                    return false;
                d.back().push_back(r.d[i]);
            }
        }
        return true;
    }
    void progReal(const Prog& pr, const std::vector<Real>& x, std::vector<Real>& y)
    {
        if (pr.kind == CB_LIN)
        {
            for (int j = 0; j < pr.nout; ++j)
            {
                Real s = Real();
                for (int i = 0; i < pr.nin; ++i) s = s + x[size_t(i)] * N(pr.lin[j][i]);
                y.push_back(s);
            }
            return;
        }
        std::vector<std::unique_ptr<A>> v;
        for (auto& r : x)
        {
            v.push_back(std::unique_ptr<A>(new A()));
            xad::value(*v.back()) = r;
        }
        for (auto& s : pr.steps)
        {
            v.emplace_back();
            v.back().reset(new A());
            A& t = *v.back();
            if (s.shape < 0)
                xad::value(t) = xad::value(*v[size_t(s.a)]) * N(s.k) + xad::value(*v[size_t(s.b)]) * N(s.k2);
            else
                assignShape<A, N>(t, s.shape, *v[size_t(s.a)], *v[size_t(s.b)], *v[size_t(s.c)], N(s.k));
        }
        for (int o = 0; o < pr.nout; ++o) y.push_back(xad::value(static_cast<const A&>(*v[v.size() - 1 - size_t(o)])));
    }
    Prog makeProg(int64_t code, int kind, int nin, int nout)
    {
        Rng r{uint64_t(code)};
        Prog p;
        p.kind = kind;
        p.nin = nin;
        p.nout = nout;
        p.style = int(r.below(16));
        const int left = int(r.below(1 << 20)), left2 = int(r.below(64));   // given up recordings
        if (left2 < 16)
            p.style |= (1 << 4 << (left2 % 2)) | (left2 % 8 == 0 ? 3 << 4 : 0) | left << 6;
        for (auto& row : p.lin)
            for (double& v : row) v = double(int64_t(r.below(17)) - 8) / 8.0;
        int n = nout + int(r.below(6));
        bool inner = r.chance(40);
        for (int i = 0; i < n; ++i)
        {
            PStep s;
            int m = nin + i;
            auto pickv = [&] { return r.chance(50) ? m - 1 : int(r.below(uint64_t(m))); };
            s.a = pickv();
            s.b = pickv();
            s.c = pickv();
            s.shape = inner && r.chance(35) ? -1 : int(r.below(SIM_NUM_SHAPES));
            s.k = s.shape < 0 ? double(int64_t(r.below(17)) - 8) / 8.0 : constOf(int64_t(r.below(1000)));
            s.k2 = double(int64_t(r.below(17)) - 8) / 8.0;
            p.steps.push_back(s);
        }
        p.mid = r.chance(20) ? int(r.below(uint64_t(n))) : -1;
        p.midHow = int(r.below(1 << 20));
        if (r.chance(30))
            p.misuse = 1 + int(r.below(1 << 20));
        return p;
    }

    // ================================================================== model sweep
    struct SweepOut
    {
        std::vector<HI> hs;
        size_t evSize = 0;
        int firstProcessed = -1;
        std::vector<int> invoked;
        bool overflow = false;
    };
    void accumulate(std::vector<HI>& hs, int h, const F& c, const F& a, double ea, bool& overflow)
    {
        HI& x = hs[size_t(h)];
        x.adj = x.adj + c * a;
        double nc = norm(c), na = norm(a);
        x.err += nc * ea + T::eps() * ((nc + 1) * (na + ea) + norm(x.adj));
        if (!(norm(x.adj) < 1e20) || !(x.err < 1e20))
            overflow = true;
    }
    SweepOut sweepModel(const MT& t, int to)
    {
        SweepOut o;
        o.hs = t.hs;
        o.evSize = t.ev.size();
        for (int i = int(t.ev.size()); i > to; --i)
        {
            const Event& e = t.ev[size_t(i - 1)];
            if (e.ckpt >= 0)
            {
                const Ckpt& k = t.ckpts[size_t(e.ckpt)];
                o.invoked.push_back(k.id);
                std::vector<F> a;
                std::vector<double> ea;
                for (int h : k.out)
                {
                    a.push_back(o.hs[size_t(h)].adj);
                    ea.push_back(o.hs[size_t(h)].err);
                    o.hs[size_t(h)].adj = F(0.0);
                    o.hs[size_t(h)].err = 0;
                }
                for (size_t y = 0; y < k.out.size(); ++y)
                    for (size_t x = 0; x < k.in.size(); ++x)
                        {
                        accumulate(o.hs, k.in[x], k.d[y][x], a[y], ea[y] + 50 * T::eps() * norm(a[y]), o.overflow);
                        o.hs[size_t(k.in[x])].err += T::eps() * k.amp * norm(a[y]);
                    }
                o.evSize = size_t(i - 1);
                continue;
            }
            HI& l = o.hs[size_t(e.lhs)];
            F a = l.adj;
            double ea = l.err;
            l.adj = F(0.0);
            l.err = 0;
            if (isZero(a) && ea == 0)
                continue;
            for (int j = 0; j < e.n; ++j) accumulate(o.hs, e.h[j], e.c[j], a, ea, o.overflow);
        }
        return o;
    }
    // drop events (and the checkpoints within) after the given size; dropFrames: for those that have
    // not been run
    void truncate(MT& t, size_t n, bool dropFrames)
    {
        while (t.ev.size() > n)
        {
            Event& e = t.ev.back();
            if (e.ckpt >= 0)
            {
                Ckpt& k = t.ckpts[size_t(e.ckpt)];
                if (dropFrames && k.cb && !k.cb->frames.empty())
                    k.cb->frames.pop_back();
                t.ckpts.pop_back();
            }
            t.ev.pop_back();
        }
        for (auto& h : t.hs)
            if (!h.dead && h.regEv > int(n))
                h.stale = true;
        while (!t.pos.empty() && t.pos.back().ev > int(n)) t.pos.pop_back();
        // positions may be out of order
        for (size_t i = t.pos.size(); i > 0; --i)
            if (t.pos[i - 1].ev > int(n))
                t.pos.erase(t.pos.begin() + long(i - 1));
    }
    void recomputeDead(MT& t)
    {
        t.deadNonzero = false;
        for (auto& h : t.hs)
            if (h.dead && (!isZero(h.adj) || h.err > 0))
            {
                t.deadNonzero = true;
                return;
            }
    }
    // derivatives that have been set, but not been propagated before their variables were removed by
    // resetTo: these slots may be shared with earlier variables
    void checkPolluted(MT& t, int ev)
    {
        for (auto& h : t.hs)
            if (h.regEv > ev && t.init && (!isZero(h.adj) || h.err > 0))
                t.polluted = true;
    }
    bool canSweep(MT& t, int to)
    {
        if (t.damaged || !t.init || t.polluted)
            return false;
        if (to > int(t.ev.size()))
            return false;
        if (t.deadNonzero && int(t.ev.size()) > t.sweptTo)
            return false;
        return true;
    }

    // to < 0: computeAdjoints
    bool doSweep(int to, unsigned realPos, const Op& op)
    {
        MT& t = tapes[A0()];
        int tov = to < 0 ? 0 : to;
        if (!canSweep(t, tov))
            return false;
        SweepOut o = sweepModel(t, tov);
        if (o.overflow)
            return false;
        invoked.clear();
        invCount = 0;
        cbBad = 0;
        throwInv = 0;
        if (prof.cbThrows && op.a[3] > 0 && !o.invoked.empty())
        {
            throwInv = 1 + int(uint64_t(op.a[3]) % o.invoked.size());
            throwStage = 1 + int(uint64_t(op.a[4]) % 6);
            throwType = int(uint64_t(op.a[4]) / 6 % THROW_KINDS);
        }
        bool wantThrow = throwInv > 0;
        int throwAt = throwInv;
        TapeT* r = t.real;
        St st = lib([&] {
            if (to < 0)
                r->computeAdjoints();
            else
                r->computeAdjointsTo(realPos);
        });
        bool didThrow = wantThrow && throwInv == 0;
        throwInv = 0;
        text += fmt(" to=%d ckpts=%d", tov, int(o.invoked.size()));
        ctx.count("sweeps");
        ctx.count("callbacks_run", long(invoked.size()));
        if (st == XERR)
        {
            ctx.fail("unexpected-exception", "computing adjoints: " + errType);
            return true;
        }
        if (didThrow != (st == CBTHROW))
        {
            if (st != OOM)
                ctx.fail("callback-exception", didThrow ? "exception of the callback did not reach the caller"
                                                        : "exception without callback having thrown");
        }
        else if (didThrow && (gotKind != throwType || gotId != throwStage))
            ctx.fail("callback-exception", "the exception that reached the caller is not the one of the callback");
        bool prefix = invoked.size() <= o.invoked.size() && std::equal(invoked.begin(), invoked.end(), o.invoked.begin());
        if (!prefix || (st == OK && invoked.size() != o.invoked.size()) ||
            (st == CBTHROW && int(invoked.size()) != throwAt))
        {
            std::string s = "callbacks invoked:";
            for (int i : invoked) s += fmt(" %d", i);
            s += " expected:";
            for (int i : o.invoked) s += fmt(" %d", i);
            ctx.fail("callback-order", s);
        }
        if (tripped != trippedSeen)
        {
            trippedSeen = tripped;
            ctx.fail("callback-order", "callback of an abandoned nested recording invoked");
        }
        if (insideBad)
            ctx.fail("wrong-adjoint", "nested recording within a nested recording: wrong adjoint");
        if (!misuseBad.empty())
            ctx.fail("misuse-not-reported", misuseBad);
        if (cbBad)
            ctx.fail("callback-order", fmt("nested callback invoked %d times", cbBad - 100));
        if (st != OK)
        {
            damage(A0(), st == OOM);
            return true;
        }
        t.hs = o.hs;
        if (o.evSize < t.ev.size())
            truncate(t, o.evSize, false);
        for (auto& h : t.hs)
            if (h.regEv > tov)
                h.obscured = true;
        t.sweptTo = std::min(t.sweptTo, tov);
        recomputeDead(t);
        return true;
    }

    bool readable(const VarM& m)
    {
        if (!m.on || m.h < 0 || m.tape != A0() || m.tape < 0)
            return false;
        MT& t = tapes[m.tape];
        const HI& h = t.hs[size_t(m.h)];
        return !t.damaged && !h.stale && !h.obscured && h.slot < t.clearedFrom;
    }

    void checkAdjoints(bool deep)
    {
        if (A0() < 0)
            return;
        MT& t = tapes[A0()];
        if (t.damaged)
            return;
        int n = nvars();
        for (int i = 0; i < n && !ctx.failed; ++i)
        {
            VarM& m = *vm(i);
            if (usable(m) && m.h < 0 && (i + ctx.step) % 3 == 0)
            {
                // not part of the recording, which looking at it doesn't change
                const A& x = *vp(i);
                Real d = Real(N(1));
                if (!must("reading a derivative", [&] { d = (i + ctx.step) % 2 ? x.getDerivative() : x.getAdjoint(); }))
                    return;
                if (x.shouldRecord())
                    ctx.fail("wrong-registration", fmt("v%d is registered after reading its derivative", i));
                else if (!T::same(env, d, F(0.0), 0, false, &ctx) && (prof.oracle & O_ADJ))
                    ctx.fail("wrong-adjoint", fmt("variable v%d isn't registered, but has adjoint %s", i, T::str(d).c_str()));
                continue;
            }
            if (!readable(m))
                continue;
            HI& h = t.hs[size_t(m.h)];
            Real d = Real();
            const A& x = *vp(i);
            A& xm = *vp(i);
            bool ok = must("reading a derivative", [&] {
                switch ((i + ctx.step) % 5)
                {
                    case 0: d = xad::derivative(xm); break;
                    case 1: d = t.init ? x.getDerivative() : xad::derivative(xm); break;
                    case 2: d = t.init ? t.real->getDerivative(x.getSlot()) : xad::derivative(xm); break;
                    case 3: d = t.real->derivative(x.getSlot()); break;
                    default: d = t.init ? x.getAdjoint() : xad::derivative(xm); break;
                }
            });
            if (!ok)
                return;
            if (!t.init)
            {
                t.init = true;   // accessing derivatives initialises them
            }
            ctx.count("adjoints_checked");
            double tol = h.err + T::eps() * (seedScale + norm(h.adj));
            bool same = T::same(env, d, h.adj, tol, deep, &ctx);
            if (!same && (prof.oracle & O_ADJ))
                ctx.fail("wrong-adjoint", fmt("variable v%d: adjoint %s, expected %s (tolerance %.3g)", i,
                                              T::str(d).c_str(), T::strF(h.adj).c_str(), tol));
        }
    }

    // ================================================================== invariants after each step
    // the re-usable slots as they are reported: "[first, second), ..."
    bool checkRanges(MT& t, unsigned long long* used, long maxs, long freeBelow)
    {
        const std::string r = t.real->getReusableSlotsString();
        std::vector<long> ends;
        for (size_t i = 0; i < r.size();)
        {
            if (r[i] < '0' || r[i] > '9')
            {
                ++i;
                continue;
            }
            long n = 0;
            for (; i < r.size() && r[i] >= '0' && r[i] <= '9'; ++i) n = n * 10 + (r[i] - '0');
            ends.push_back(n);
        }
        std::string bad;
        if (ends.size() != 2 * size_t(t.real->getNumReusableSlotSections()))
            bad = fmt("%zu slots in %u ranges", ends.size(), unsigned(t.real->getNumReusableSlotSections()));
        long total = 0;
        for (size_t i = 0; bad.empty() && i + 1 < ends.size(); i += 2)
            for (long n = ends[i]; n < ends[i + 1] && bad.empty(); ++n, ++total)
                if (n > maxs || (n < 2048 && used[n >> 6] >> (n & 63) & 1))
                    bad = fmt("slot %ld is not unused", n);
                else if (n < 2048)
                    used[n >> 6] |= 1ull << (n & 63);
        if (bad.empty() && total != freeBelow)
            bad = fmt("%ld slots, not %ld", total, freeBelow);
        if (bad.empty())
            return true;
        ctx.fail("wrong-reusable-slots", "reported as re-usable: " + r + " (" + bad + ")");
        return false;
    }

    void invariants()
    {
        if (ctx.failed)
            return;
        // active tape of this thread
        TapeT* want = A0() >= 0 ? tapes[A0()].real : nullptr;
        if (TapeT::getActive() != want)
        {
            if (prof.oracle & O_ACTIVE)
            {
                ctx.fail("wrong-active-tape", "active tape of the thread is not the expected one");
                return;
            }
        }
        for (auto& t : tapes)
        {
            if (!t.real)
                continue;
            if ((prof.oracle & O_ACTIVE) && t.real->isActive() != (t.real == want))
            {
                ctx.fail("wrong-active-tape", "isActive() differs from what is expected");
                return;
            }
        }
        if ((prof.oracle & O_ACTIVE) && other && OtherTape::getActive() != (otherActive[th] ? other : nullptr))
        {
            ctx.fail("wrong-active-tape", "active tape of another type affected");
            return;
        }
        unsigned long long used[32];
        for (int ti = 0; ti < NT; ++ti)
        {
            MT& t = tapes[ti];
            if (!t.real)
                continue;
            if (prof.oracle & O_COUNT)
            {
                long n = long(t.real->getNumVariables()) - t.base;
                if (!sub)
                {
                    if (n < t.live || (!t.leaky && n != t.live))
                    {
                        { ctx.fail("wrong-variable-count", fmt("tape %d reports %ld variables, %ld are alive", ti, n, t.live)); }
                        return;
                    }
                }
            }
            if (prof.oracle & O_SLOT)
            {
                std::memset(used, 0, sizeof used);
                long maxs = -1, cnt = 0;
                for (int i = 0, n = nvars(); i < n; ++i)
                {
                    VarM& m = *vm(i);
                    if (!m.on || m.h < 0 || m.tape != ti)
                        continue;
                    unsigned s = vp(i)->getSlot();
                    if (s >= 2048)
                        continue;
                    if (used[s >> 6] >> (s & 63) & 1)
                    {
                        ctx.fail("shared-slot", fmt("two live variables of tape %d have slot %u (one is v%d)", ti, s, i));
                        return;
                    }
                    used[s >> 6] |= 1ull << (s & 63);
                    maxs = std::max(maxs, long(s));
                    ++cnt;
                }
#ifdef XAD_TAPE_REUSE_SLOTS
                if (!sub && !t.slotLeaky && !t.leaky)
                {
                    if (maxs >= t.peak)
                    {
                        ctx.fail("slot-not-reused", fmt("slot %ld in use, although never more than %ld variables were alive", maxs, t.peak));
                        return;
                    }
                    if (cnt == t.live)
                    {
                        long freeBelow = maxs + 1 - cnt;
                        if (long(t.real->getNumReusableSlots()) != freeBelow)
                        {
                            ctx.fail("wrong-reusable-slots", fmt("%ld re-usable slots reported, %ld are unused below the highest in use", long(t.real->getNumReusableSlots()), freeBelow));
                            return;
                        }
                        if ((ctx.step & 3) == 0 && !checkRanges(t, used, maxs, freeBelow))
                            return;
                    }
                }
#endif
            }
        }
        if (!sub)
        {
            uint64_t h = 0;
            for (auto& t : tapes)
            {
                if (!t.real)
                    continue;
                h = hashMix(h, uint64_t(t.live) << 3 ^ uint64_t(t.init) ^ uint64_t(t.damaged) << 1);
                h = hashMix(h, t.ev.size() % 128);
                h = hashMix(h, uint64_t(t.ckpts.size()) * 31 + t.pos.size());
                h = hashMix(h, uint64_t(t.activeOn + 1));
#ifdef XAD_TAPE_REUSE_SLOTS
                h = hashMix(h, t.real->getNumReusableSlotSections() * 64 + t.real->getNumReusableSlots());
#endif
            }
            ctx.state(h);
        }
    }

#include "world_ops.inc"
#include "world_gen.inc"
};

}  // namespace sim
