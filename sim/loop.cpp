// The workload for C22: the same piece of work, repeated on one tape. A run is a loop body (recording,
// sweeps, checkpoints, nested recordings, drivers, moves of the tape), a way to start over after each
// repetition, and faults that abort some of the repetitions. Every completed repetition has to give
// what the first one gave, and what the library holds must not grow from repetition to repetition.
#include "core.hpp"
#include "shapes_impl.hpp"
#include "thrown.hpp"
#include <XAD/XAD.hpp>
#include <XAD/Jacobian.hpp>
#include <algorithm>
#include <cmath>
#include <functional>
#include <memory>

namespace sim
{
namespace
{
typedef xad::FReal<double> FR;

enum LOp
{
    LOOP = 500, FAULT, NEWVAR, EXPR, ASSIGN, COPY, MOVE_LAST, POP, DEL, OUTPUT, CKPT, SWEEP, SWEEP_CKPT, PATHS, NESTED, TMOVE,
    REACTIVATE, TAPE2, BIG, CLEARDER, DRIVER, LOP_END
};
const char* lname(int c)
{
    static const char* n[] = {"LOOP",  "FAULT", "NEWVAR",     "EXPR",  "ASSIGN", "COPY",  "MOVE_LAST",  "POP",   "DEL", "OUTPUT",  "CKPT",
                              "SWEEP", "SWEEP_CKPT", "PATHS", "NESTED", "TMOVE", "REACTIVATE", "TAPE2", "BIG", "CLEARDER", "DRIVER"};
    return c >= LOOP && c < LOP_END ? n[c - LOOP] : "NONE";
}
// how a repetition ends
enum Restart { NEW_RECORDING, CLEAR_ALL, NEW_TAPE, RESET_TO, IN_NESTED, NUM_RESTARTS };

double primal(double x) { return x; }
double primal(float x) { return double(x); }
double primal(const FR& x) { return xad::value(x); }
double second(double) { return 0; }
double second(float) { return 0; }
double second(const FR& x) { return xad::derivative(x); }
void seedInner(double&, double) {}
void seedInner(float&, double) {}
void seedInner(FR& x, double t) { xad::derivative(x) = t; }

struct Abort {};     // ends a repetition

template <class T, class N>
struct Loop
{
    typedef xad::AReal<T> A;
    typedef xad::Tape<T> Tape;
    Ctx& ctx;
    Tape* tape = nullptr;
    std::vector<A*> in;
    std::vector<A*> tmp;
    std::vector<char> dead;
    std::vector<double> results;       // of this repetition
    unsigned maxSlot = 0;
    int restart = 0, throwSerial = 0, cbThrowAt = 0, cbCalls = 0;
    bool lifo = true;
    unsigned pos = 0;
    long fault = 0;
    int burst = 1;

    explicit Loop(Ctx& c) : ctx(c) {}
    static A make(const T& v)
    {
        A a;
        xad::value(a) = v;
        return a;
    }

    // ---------------------------------------------------------------- calls
    template <class F>
    void lib(F&& f)
    {
        ctx.fired = false;
        ctx.failAt = fault;
        ctx.failBurst = burst;
        bool oom = false, thrown = false;
        int kind = 0, id = 0;
        std::string what;
        try
        {
            Lib l;
            f();
        }
        catch (...)
        {
            ctx.failAt = 0;
            thrown = true;
            if (!caughtThrown(kind, id))
            {
                id = 0;
                try
                {
                    throw;
                }
                catch (const std::bad_alloc&)
                {
                    oom = true;
                }
                catch (const std::exception& e)
                {
                    what = e.what();
                }
                catch (...)
                {
                    what = "an unknown exception";
                }
            }
        }
        if (fault)
            fault = ctx.fired ? 0 : ctx.failAt;
        ctx.failAt = 0;
        if (ctx.fired)
        {
            ctx.count(oom ? "fault_alloc_thrown" : "fault_alloc_absorbed");
            hit = true;
        }
        if (!thrown)
            return;
        if (id && id == throwSerial)
        {
            ctx.count("fault_callback_throw");
            cbThrew = true;
            throw Abort();
        }
        if (!oom || !ctx.fired)
            ctx.fail("unexpected-exception", oom ? "bad_alloc without a failed allocation" : "exception: " + what);
        throw Abort();
    }
    bool cbThrew = false;  // a callback has thrown in this repetition
    bool hit = false;      // an allocation failed in this repetition

    void note(double x) { results.push_back(x); }
    void noteSlot(const A& x)
    {
        if (x.shouldRecord())
            maxSlot = std::max(maxSlot, unsigned(x.getSlot()));
    }
    void noteGradient()
    {
        for (auto* x : in)
        {
            T d{};
            lib([&] { d = tape->getDerivative(x->getSlot()); });
            note(primal(d));
            note(second(d));
        }
    }
    // (in a nested recording, clearDerivatives leaves alone what is from outside)
    void clearAdjoints()
    {
        lib([&] {
            if (restart == IN_NESTED)
                for (auto* x : in) tape->setDerivative(x->getSlot(), T());
            tape->clearDerivatives();
        });
    }
    void counts()
    {
        note(tape->getNumVariables());
        note(tape->getNumOperations());
        note(tape->getNumStatements());
        note(tape->getPosition());
        note(tape->getNumCallbacks());
    }

    // ---------------------------------------------------------------- variables
    A& pick(int64_t i)
    {
        uint64_t n = in.size() + tmp.size();
        for (uint64_t k = 0; k < n; ++k)
        {
            uint64_t j = (uint64_t(i) + k) % n;
            if (j < in.size())
                return *in[j];
            if (!dead[j - in.size()])
                return *tmp[j - in.size()];
        }
        return *in[0];
    }
    // keeps values in the domain of all shapes
    void bound(A& x)
    {
        double v = primal(xad::value(x));
        if (!(std::fabs(v) <= 4))
            lib([&] { x = tanh(x * N(0.125)); });
        if (!(std::fabs(primal(xad::value(x))) <= 4))
            lib([&] { x = x * N(0); });
    }
    void add(A* p)
    {
        tmp.push_back(p);
        dead.push_back(0);
        noteSlot(*p);
    }
    A* expr(uint64_t s, A& a, A& b, A& c)
    {
        A* p = nullptr;
        lib([&] {
            void* mem = ::operator new(sizeof(A));
            struct G { void* m; ~G() { if (m) ::operator delete(m); } } g{mem};
            p = newShape<A, N>(mem, int(s % SIM_NUM_SHAPES), a, b, c, N(0.5 + double(s / 256 % 96) / 64.0));
            g.m = nullptr;
        });
        return p;
    }
    void pop()
    {
        A* p = tmp.back();
        tmp.pop_back();
        dead.pop_back();
        lib([&] { delete p; });
    }

    // ---------------------------------------------------------------- a checkpoint
    struct Cb : public xad::CheckpointCallback<Tape>
    {
        Loop* w;
        unsigned x[2], y;
        T xv[2];
        uint64_t s;
        bool nested;
        explicit Cb(Loop* l) : w(l) { ++w->cbs; }
        ~Cb() { --w->cbs; }
        void computeAdjoint(Tape* t) override
        {
            Out o;
            if (++w->cbCalls == w->cbThrowAt)
                throwKind(w->throwSerial % THROW_KINDS, w->throwSerial);
            Lib l;
            using std::sin;
            T ybar = t->getAndResetOutputAdjoint(y);
            if (s % 4 == 1)
            {
                // variables of its own in the recording, and the derivatives by hand
                A z(make(xv[0]));
                t->registerInput(z);
                A u = z * N(0.5);
                A v = u + z;
                if (s % 3 == 0)
                    throwPoint(1000);
                t->incrementAdjoint(x[0], T(ybar * T(N(0.5))));
                if (s % 8 == 1)
                {
                    A a(make(xv[1]));
                    t->registerInput(a);
                    xad::ScopedNestedRecording<Tape> n(t);
                    A r = a * N(0.5);
                    t->registerOutput(r);
                    derivative(r) = ybar;
                    t->computeAdjoints();
                    n.incrementAdjoint(x[1], derivative(a));
                }
                return;
            }
            A a(make(xv[0])), b(make(xv[1]));
            t->registerInput(a);
            t->registerInput(b);
            xad::ScopedNestedRecording<Tape> n(t);
            A r = a * N(0.5) + sin(a * b);
            if (nested)
            {
                // one more level
                A c(make(xv[0]));
                t->registerInput(c);
                xad::ScopedNestedRecording<Tape> n2(t);
                A q = cos(c) * N(0.25);
                t->registerOutput(q);
                derivative(q) = T(N(1));
                t->computeAdjoints();
                n2.incrementAdjoint(x[0], T(derivative(c) * ybar));
            }
            t->registerOutput(r);
            derivative(r) = ybar;
            if (s % 3 == 0)
                throwPoint(1000);
            t->computeAdjoints();
            n.incrementAdjoint(x[0], derivative(a));
            n.incrementAdjoint(x[1], derivative(b));
        }
        void throwPoint(int k)
        {
            Out o;
            if (w->cbCalls + k == w->cbThrowAt)
                throwKind(w->throwSerial % THROW_KINDS, w->throwSerial);
        }
    };
    std::vector<Cb*> own, pushed;
    long cbs = 0;
    void dropCallbacks()
    {
        while (!pushed.empty())
        {
            Cb* c = pushed.back();
            pushed.pop_back();
            if (tape)
                lib([&] {
                    auto* last = tape->getLastCallback();
                    tape->popCallback();
                    if (last != c)
                        throw std::logic_error("getLastCallback isn't the last callback");
                });
            delete c;
        }
        for (auto* c : own) delete c;
        own.clear();
    }

    // ---------------------------------------------------------------- one step of the body
    void step(const Op& op)
    {
        const int64_t* a = op.a;
        switch (op.code)
        {
            case NEWVAR:
            {
                A* p = nullptr;
                double v = double(a[0] % 65 - 32) / 16.0;
                lib([&] {
                    std::unique_ptr<A> q(new A{N(v)});
                    if (a[1] % 2)
                        tape->registerInput(*q);
                    else
                        tape->registerOutput(*q);
                    p = q.release();
                });
                add(p);
                break;
            }
            case EXPR:
                add(expr(uint64_t(a[3]), pick(a[0]), pick(a[1]), pick(a[2])));
                bound(*tmp.back());
                note(primal(xad::value(*tmp.back())));
                break;
            case ASSIGN:
            {
                A& x = pick(a[4]);
                // (the inputs keep their values)
                if (std::find(in.begin(), in.end(), &x) != in.end() || !x.shouldRecord())
                    break;
                A &p = pick(a[0]), &q = pick(a[1]), &r = pick(a[2]);
                int64_t m = a[5] % 5;
                lib([&] {
                    if (m == 0)
                        x += p;
                    else if (m == 1)
                        x *= p;
                    else if (m == 2)
                        x -= p * q;
                    else if (m == 3)
                        x = p;
                    else
                        assignShape<A, N>(x, int(a[3] % SIM_NUM_SHAPES), p, q, r, N(1.25));
                });
                bound(x);
                note(primal(xad::value(x)));
                break;
            }
            case COPY:
            {
                A& x = pick(a[0]);
                A* p = nullptr;
                lib([&] { p = new A(x); });
                add(p);
                break;
            }
            case MOVE_LAST:
            {
                // the last one only, such that the slots remain in order
                if (tmp.empty() || dead.back())
                    break;
                A* x = tmp.back();
                A* p = nullptr;
                lib([&] { p = new A(std::move(*x)); });
                dead.back() = 1;
                add(p);
                break;
            }
            case POP:
                for (int64_t i = 0; i <= a[0] % 4 && !tmp.empty(); ++i) pop();
                break;
            case DEL:
            {
                if (tmp.empty() || lifo)
                    break;
                size_t i = size_t(a[0]) % tmp.size();
                A* p = tmp[i];
                tmp.erase(tmp.begin() + long(i));
                dead.erase(dead.begin() + long(i));
                lib([&] { delete p; });
                break;
            }
            case OUTPUT:
            {
                A& x = pick(a[0]);
                lib([&] { tape->registerOutput(x); });
                break;
            }
            case CKPT:
            {
                A &x = pick(a[0]), &z = pick(a[1]);
                if (!x.shouldRecord() || !z.shouldRecord())
                    break;
                Cb* c = new Cb(this);
                own.push_back(c);
                c->s = uint64_t(a[3]);
                c->nested = a[4] % 3 == 0;
                c->x[0] = x.getSlot();
                c->x[1] = z.getSlot();
                c->xv[0] = xad::value(x);
                c->xv[1] = xad::value(z);
                A* p = nullptr;
                lib([&] {
                    using std::sin;
                    T v = c->xv[0] * T(N(0.5)) + sin(T(c->xv[0] * c->xv[1]));
                    std::unique_ptr<A> q(new A(make(v)));
                    tape->registerOutput(*q);
                    p = q.release();
                });
                add(p);
                c->y = p->getSlot();
                if (a[5] % 2)
                {
                    lib([&] { tape->pushCallback(c); });
                    own.pop_back();
                    pushed.push_back(c);
                }
                lib([&] { tape->insertCallback(c); });
                note(primal(xad::value(*p)));
                break;
            }
            case SWEEP:
            case SWEEP_CKPT:
            {
                A& x = pick(a[0]);
                if (!x.shouldRecord())
                    break;
                lib([&] {
                    T seed{N(1)};
                    seedInner(seed, 0.5);
                    derivative(x) = seed;
                    if (op.code == SWEEP)
                        tape->computeAdjoints();
                    else
                        tape->computeAdjointsTo(tape->getPosition() / 2 > pos ? tape->getPosition() / 2 : pos);
                });
                noteGradient();
                counts();
                clearAdjoints();
                break;
            }
            case CLEARDER:
                lib([&] {
                    if (a[0] % 2)
                    {
                        tape->clearDerivativesAfter(tape->getPosition());
                        // accessible again once there is a further variable
                        A x;
                        tape->registerInput(x);
                    }
                    else
                        tape->clearDerivatives();
                });
                break;
            case PATHS:
            {
                unsigned here = tape->getPosition();
                size_t n0 = tmp.size();
                std::vector<double> first;
                for (int64_t k = 0, n = 2 + a[0] % 6; k < n; ++k)
                {
                    std::vector<double> outer;
                    outer.swap(results);
                    for (int64_t j = 0; j <= a[1] % 5; ++j)
                    {
                        add(expr(uint64_t(a[3] + j * 7919), pick(a[2] + j), pick(a[4] + j), pick(a[5] + j)));
                        bound(*tmp.back());
                    }
                    A& y = *tmp.back();
                    if (y.shouldRecord())
                    {
                        lib([&] {
                            derivative(y) = T(N(1));
                            tape->computeAdjointsTo(here);
                        });
                        for (size_t i = 0; i < n0; ++i)
                            if (!dead[i] && tmp[i]->shouldRecord())
                            {
                                T d{};
                                lib([&] { d = tape->getDerivative(tmp[i]->getSlot()); });
                                note(primal(d));
                            }
                        noteGradient();
                        counts();
                        clearAdjoints();
                    }
                    while (tmp.size() > n0) pop();
                    lib([&] { tape->resetTo(here); });
                    outer.swap(results);
                    if (k == 0)
                        first = outer;
                    else if (!same(first, outer))
                    {
                        ctx.fail("path-differs", fmt("path %d of the inner loop gives something else than the first one%s", int(k), differing(first, outer).c_str()));
                        throw Abort();
                    }
                }
                results.insert(results.end(), first.begin(), first.end());
                break;
            }
            case NESTED:
            {
                A &x = pick(a[0]), &z = pick(a[1]);
                double g[2] = {0, 0};
                lib([&] {
                    A p(make(xad::value(x))), q(make(xad::value(z)));
                    tape->registerInput(p);
                    tape->registerInput(q);
                    xad::ScopedNestedRecording<Tape> n(tape);
                    A r = p * q + sin(p) * N(0.5);
                    for (int64_t i = 0; i < a[2] % 4; ++i)
                    {
                        A s = r * p - q;
                        r = tanh(s) + r * N(0.125);
                    }
                    derivative(r) = T(N(1));
                    n.computeAdjoints();
                    g[0] = primal(derivative(p));
                    g[1] = primal(derivative(q));
                });
                note(g[0]);
                note(g[1]);
                clearAdjoints();
                break;
            }
            case TMOVE:
                if (restart == IN_NESTED)
                    break;
                lib([&] {
                    if (a[0] % 2)
                    {
                        Tape t(std::move(*tape));
                        *tape = std::move(t);
                    }
                    else
                    {
                        std::unique_ptr<Tape> t(new Tape(std::move(*tape)));
                        delete tape;
                        tape = t.release();
                    }
                });
                break;
            case REACTIVATE:
                lib([&] {
                    tape->deactivate();
                    tape->activate();
                });
                break;
            case TAPE2:
            {
                double g = 0;
                lib([&] {
                    xad::detail::ScopedActiveTape<Tape> restore(tape);
                    tape->deactivate();
                    Tape t(a[0] % 2 != 0);
                    if (a[0] % 2 == 0)
                        t.activate();
                    A x{N(1.5)};
                    t.registerInput(x);
                    for (int64_t i = 0; i < a[1] % 3; ++i)
                    {
                        t.newRecording();
                        A y = x * x * N(0.5) + sin(x);
                        derivative(y) = T(N(1));
                        t.computeAdjoints();
                        g = primal(derivative(x));
                    }
                });
                note(g);
                break;
            }
            case BIG:
            {
                // more than a chunk
                A& x = pick(a[0]);
                A* p = nullptr;
                lib([&] { p = new A(x); });
                add(p);
                for (int64_t i = 0; i < 20 + a[1] % 60; ++i) lib([&] { *p = *p * N(0.5) + x * N(0.25); });
                bound(*p);
                note(primal(xad::value(*p)));
                break;
            }
            default: break;
        }
    }

    static bool same(const std::vector<double>& a, const std::vector<double>& b)
    {
        return a.size() == b.size() && (a.empty() || std::memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0);
    }
    static std::string differing(const std::vector<double>& a, const std::vector<double>& b)
    {
        for (size_t i = 0; i < a.size() && i < b.size(); ++i)
            if (std::memcmp(&a[i], &b[i], 8) != 0)
                return fmt(" (result %d of %d is %.17g, was %.17g)", int(i), int(b.size()), b[i], a[i]);
        return fmt(" (%d results, were %d)", int(b.size()), int(a.size()));
    }

    // ---------------------------------------------------------------- the loop
    const Op* head = nullptr;
    std::vector<Op> body, faults;
    const Op* driver = nullptr;

    void makeInputs(bool reg)
    {
        for (int64_t i = 0, n = 1 + head->a[3] % 4; i < n; ++i)
        {
            A* p = nullptr;
            double v = double((head->a[4] >> (6 * i)) % 61 - 30) / 16.0;
            lib([&] { p = new A{N(v)}; });
            seedInner(xad::value(*p), double(i) - 0.5);
            in.push_back(p);
        }
        if (reg)
            for (auto* p : in) lib([&] { tape->registerInput(*p); });
    }
    void dropInputs()
    {
        while (!in.empty())
        {
            A* p = in.back();
            in.pop_back();
            lib([&] { delete p; });
        }
    }
    void setUp()
    {
        if (!tape)
            lib([&] { tape = new Tape(); });
        makeInputs(true);
        lib([&] { tape->newRecording(); });
        if (restart == RESET_TO || restart == IN_NESTED)
        {
            // something before the position
            lib([&] {
                base.reset(new A(*in[0] * N(0.5) + N(0.25)));
            });
        }
        pos = tape->getPosition();
    }
    std::unique_ptr<A> base;
    void tearDown(bool hard)
    {
        lib([&] { base.reset(); });
        dropInputs();
        if (hard || restart == NEW_TAPE)
        {
            Tape* t = tape;
            tape = nullptr;
            lib([&] { delete t; });
        }
        else if (restart == CLEAR_ALL)
            lib([&] { tape->clearAll(); });
    }
    // also after the repetition has been aborted
    void cleanUp()
    {
        fault = 0;
        while (!tmp.empty()) pop();
    }
    void work(int64_t abortAt)
    {
        int64_t k = 0;
        for (auto& op : body)
        {
            if (k++ == abortAt)
            {
                ctx.count("fault_aborted_repetition");
                throw Abort();
            }
            step(op);
            counts();
        }
        // the result of a repetition
        A& y = pick(int64_t(in.size() + tmp.size()) - 1);
        if (y.shouldRecord())
        {
            lib([&] {
                T seed{N(1)};
                seedInner(seed, 0.25);
                derivative(y) = seed;
                if (restart == RESET_TO)
                    tape->computeAdjointsTo(pos);
                else
                    tape->computeAdjoints();
            });
            noteGradient();
        }
#ifdef XAD_TAPE_REUSE_SLOTS
        const bool drive = driver && restart <= NEW_TAPE;
#else
        // the elements of a vector don't give back their slots in order
        const bool drive = driver && (restart == CLEAR_ALL || restart == NEW_TAPE);
#endif
        if (drive)
        {
            std::vector<double> g;
            lib([&] {
                std::vector<A> v;
                for (auto* x : in) v.push_back(make(xad::value(*x)));
                std::function<std::vector<A>(std::vector<A>&)> f = [&](std::vector<A>& q) {
                    std::vector<A> r;
                    for (int64_t i = 0; i < 1 + driver->a[0] % 3; ++i) r.push_back(q[size_t(i) % q.size()] * q[0] + sin(q.back()));
                    return r;
                };
                auto m = driver->a[1] % 2 ? xad::computeJacobian(v, f, tape) : xad::computeJacobian(v, f);
                Out o;
                for (auto& row : m)
                    for (auto& x : row) g.push_back(primal(x));
            });
            for (double x : g) note(x);
        }
    }

    struct Held
    {
        long live = -1, bytes = -1;
        size_t memory = 0;
        unsigned slot = 0;
        void max(const Held& o)
        {
            live = std::max(live, o.live);
            bytes = std::max(bytes, o.bytes);
            memory = std::max(memory, o.memory);
            slot = std::max(slot, o.slot);
        }
    };

    void run()
    {
        const int64_t n = head->a[2];
        restart = int(head->a[1] % NUM_RESTARTS);
#ifdef XAD_TAPE_REUSE_SLOTS
        lifo = head->a[5] % 2 != 0;
#else
        // slots are only given back in order
        lifo = (restart != CLEAR_ALL && restart != NEW_TAPE) || head->a[5] % 2 != 0;
#endif
        Held before, after;
        int64_t epoch = 0;          // the first repetition with this tape
        int64_t lastAbort = -1;
        std::vector<double> first;
        bool haveFirst = false, up = false;
        int64_t done = 0;
        for (int64_t it = 0; it < n && !ctx.failed; ++it)
        {
            const Op* f = nullptr;
            for (auto& x : faults)
                if (x.a[0] == it)
                    f = &x;
            results.clear();
            hit = cbThrew = false;
            cbCalls = 0;
            cbThrowAt = 0;
            fault = 0;
            maxSlot = 0;
            bool aborted = false;
            try
            {
                if (!up)
                {
                    setUp();
                    up = true;
                }
                int64_t abortAt = -1;
                if (f)
                {
                    throwSerial = int(1 + f->a[4] % 1000);
                    switch (f->a[1] % 3)
                    {
                        case 0: fault = 1 + f->a[2]; burst = f->a[3] % 4 ? 1 : 3; break;
                        case 1: abortAt = f->a[2] % int64_t(body.size() + 1); break;
                        default: cbThrowAt = int(1 + f->a[2] % 4 + (f->a[3] % 3 ? 0 : 1000)); break;
                    }
                }
                if (restart == IN_NESTED)
                {
                    struct N0
                    {
                        Loop& l;
                        explicit N0(Loop& q) : l(q) { l.lib([&] { l.tape->newNestedRecording(); }); }
                        ~N0()
                        {
                            // variables first, they belong to the nested recording
                            l.fault = 0;
                            try
                            {
                                while (!l.tmp.empty()) l.pop();
                                l.lib([&] { l.tape->endNestedRecording(); });
                            }
                            catch (const Abort&)
                            {
                            }
                        }
                    } nr(*this);
                    work(abortAt);
                }
                else
                {
                    if (restart == NEW_RECORDING)
                        lib([&] { tape->newRecording(); });
                    counts();
                    work(abortAt);
                }
            }
            catch (const Abort&)
            {
                aborted = true;
            }
            if (ctx.failed)
                return;
            // ---- start over
            try
            {
                cleanUp();
                if (aborted && hit)
                {
                    // memory ran out: from scratch
                    dropCallbacks();
                    tearDown(true);
                    up = false;
                }
                else
                {
                    switch (restart)
                    {
                        case NEW_RECORDING: lib([&] { tape->newRecording(); }); break;
                        case RESET_TO:
                            if (cbThrew)
                            {
                                // what the callback has recorded keeps its slots until newRecording
                                tearDown(false);
                                up = false;
                                break;
                            }
                            lib([&] {
                                tape->resetTo(pos);
                                tape->clearDerivatives();
                            });
                            break;
                        case IN_NESTED: clearAdjoints(); break;
                        default:
                            // the tape releases what it was given
                            if (restart == NEW_TAPE)
                                pushed.clear();
                            tearDown(false);
                            up = false;
                    }
                    dropCallbacks();
                }
            }
            catch (const Abort&)
            {
                if (!ctx.failed)
                    ctx.fail("unexpected-exception", "starting over after a repetition failed");
                return;
            }
            ctx.count(aborted ? "repetitions_aborted" : "repetitions");
            // an allocation that failed without consequences (a slot that isn't re-used): from scratch
            if (hit && !aborted)
            {
                try
                {
                    if (up)
                        tearDown(true);
                    else
                    {
                        Tape* t = tape;
                        tape = nullptr;
                        lib([&] { delete t; });
                    }
                    up = false;
                }
                catch (const Abort&)
                {
                    return;
                }
            }
            if (!tape && ctx.live != 0)
                return ctx.fail("leak", fmt("%ld allocations (%ld bytes) are held without a tape, after repetition %ld", ctx.live, ctx.liveBytes, long(it)));
            if (aborted)
                lastAbort = it;
            if (hit)
            {
                // the storage of the next tape grows in other steps
                before = after = Held();
                epoch = it + 1;
            }
            if (aborted || hit)
                continue;
            ++done;
            for (double x : results) ctx.observe(x);
            if (haveFirst)
                ctx.count("results_checked", long(results.size()));
            if (!haveFirst)
            {
                first = results;
                haveFirst = true;
            }
            if (cbs != 0)
                return ctx.fail("callback-leak", fmt("%ld callbacks were not released", cbs));
            if (!same(first, results))
                return ctx.fail("repetition-differs", fmt("repetition %ld gives something else than the first one%s", long(it), differing(first, results).c_str()));
            Held h;
            h.live = ctx.live;
            h.bytes = ctx.liveBytes;
            h.memory = tape ? tape->getMemory() : 0;
            h.slot = maxSlot;
            (it < (epoch + n) / 2 ? before : after).max(h);
            if (it < 8)
                ctx.state(hashMix(hashMix(uint64_t(h.bytes), uint64_t(h.live)), uint64_t(restart * 8 + int(lifo))));
        }
        if (before.live >= 0 && after.live >= 0 && n - epoch >= 8)
        {
            // what an aborted repetition needs may differ, but doesn't add up
            if (lastAbort >= (epoch + n) / 2)
                before.bytes = before.bytes * 2 + 256;
            ctx.count("loops_compared");
            if (after.live > before.live)
                ctx.fail("memory-grows", fmt("%ld allocations are held at the end of the repetitions, %ld in the first half", after.live, before.live));
            else if (after.bytes > before.bytes)
                ctx.fail("memory-grows", fmt("%ld bytes are held at the end of the repetitions, %ld in the first half", after.bytes, before.bytes));
            else if (after.memory > before.memory)
                ctx.fail("tape-grows", fmt("getMemory() is %zu, %zu in the first half of the repetitions", after.memory, before.memory));
            else if (after.slot > before.slot)
                ctx.fail("slots-grow", fmt("slots up to %u are used, up to %u in the first half of the repetitions", after.slot, before.slot));
        }
        ctx.count("completed", long(done));
        if (up)
            try
            {
                tearDown(true);
            }
            catch (const Abort&)
            {
            }
        else if (tape)
        {
            Tape* t = tape;
            tape = nullptr;
            Lib l;
            delete t;
        }
    }
};

void generate(Rng& r, std::vector<Op>& ops)
{
    Op h;
    h.code = LOOP;
    h.a[0] = int64_t(r.below(8));
    h.a[1] = int64_t(r.below(NUM_RESTARTS));
    h.a[2] = 12 + int64_t(r.below(r.chance(15) ? 150 : 28));
    for (int i = 3; i < 6; ++i) h.a[i] = int64_t(r.below(1u << 30));
    ops.push_back(h);
    static const int weights[] = {2, 10, 4, 3, 2, 3, 4, 1, 4, 4, 2, 3, 3, 2, 2, 1, 1, 1};   // NEWVAR ...
    int sum = 0;
    std::vector<int> w;
    for (int x : weights)
    {
        if (r.chance(25))
            x = 0;
        w.push_back(x);
        sum += x;
    }
    int n = 2 + int(r.below(22));
    for (int i = 0; i < n; ++i)
    {
        Op op;
        op.code = EXPR;
        if (sum)
        {
            int x = int(r.below(uint64_t(sum)));
            int k = 0;
            while ((x -= w[size_t(k)]) >= 0) ++k;
            op.code = NEWVAR + k;
        }
        for (auto& a : op.a) a = int64_t(r.below(1u << 30));
        ops.push_back(op);
    }
    if (r.chance(25))
    {
        Op op;
        op.code = DRIVER;
        for (auto& a : op.a) a = int64_t(r.below(1u << 30));
        ops.push_back(op);
    }
    int nf = r.chance(40) ? 0 : 1 + int(r.below(8));
    for (int i = 0; i < nf; ++i)
    {
        Op op;
        op.code = FAULT;
        for (auto& a : op.a) a = int64_t(r.below(1u << 30));
        op.a[0] = int64_t(r.below(uint64_t(h.a[2])));
        op.a[2] = int64_t(r.below(r.chance(50) ? 12 : 120));
        ops.push_back(op);
    }
}

template <class T, class N>
void runLoop(Ctx& ctx, const std::vector<Op>& ops)
{
    Loop<T, N> l(ctx);
    for (auto& op : ops)
        if (op.code == LOOP)
            l.head = &op;
        else if (op.code == FAULT)
            l.faults.push_back(op);
        else if (op.code == DRIVER)
            l.driver = &op;
        else
            l.body.push_back(op);
    if (l.head)
        l.run();
    // what is left after a failure isn't judged
    xad::Tape<T>::deactivateAll();
}

RunResult runLoops(const RunRequest& rq)
{
    RunResult res;
    Ctx ctx;
    Rng rng(rq.seed);
    ctx.fill = (unsigned char)(0x11 * rng.below(16));
    if (rq.fill >= 0)
        ctx.fill = (unsigned char)rq.fill;
    if (rq.replay)
        res.ops = rq.ops;
    else
        generate(rng, res.ops);
    Ctx* saved = tlsCtx;
    tlsCtx = &ctx;
    for (size_t i = 0; i < res.ops.size(); ++i)
    {
        auto& op = res.ops[i];
        progress(i, op);
        ctx.stats[std::string("op_") + lname(op.code)]++;
        if (op.code == FAULT && op.a[1] % 3 == 0)
            ctx.count("fault_alloc_armed");
        if (rq.keepText)
        {
            static const char* restarts[] = {"newRecording", "clearAll", "a new tape", "resetTo", "a nested recording"};
            static const char* kinds[] = {"allocation fails", "work stops early", "callback throws"};
            std::string t = op.code == LOOP    ? fmt("%d repetitions on %s, started over by %s", int(op.a[2]), op.a[0] % 4 == 0 ? "AReal<FReal<double>>" : op.a[0] % 4 == 1 ? "AReal<float>" : "AReal<double>", restarts[op.a[1] % NUM_RESTARTS])
                            : op.code == FAULT ? fmt("in repetition %d: %s (%d)", int(op.a[0]), kinds[op.a[1] % 3], int(op.a[2]))
                                               : fmt("%d %d %d %d", int(op.a[0]), int(op.a[1]), int(op.a[2]), int(op.a[3]));
            res.opText.push_back(std::string(lname(op.code)) + " " + t);
        }
    }
    progress(res.ops.size(), Op());
    switch (res.ops.empty() ? 2 : res.ops[0].a[0] % 4)
    {
        case 0: runLoop<FR, double>(ctx, res.ops); break;
        case 1: runLoop<float, float>(ctx, res.ops); break;
        default: runLoop<double, double>(ctx, res.ops); break;
    }
    ctx.stats["steps"] += long(res.ops.size());
    if (!ctx.failed && ctx.live != 0)
        ctx.fail("leak", fmt("%ld allocations (%ld bytes) of the library never released", ctx.live, ctx.liveBytes));
    tlsCtx = saved;
    dropTracking(&ctx);
    for (auto& op : res.ops)
    {
        ctx.log = hashMix(ctx.log, uint64_t(op.code));
        for (auto x : op.a) ctx.log = hashMix(ctx.log, uint64_t(x));
    }
    ctx.log = hashMix(ctx.log, ctx.obs);
    res.failed = ctx.failed;
    res.cls = ctx.cls;
    res.msg = ctx.msg;
    res.failStep = ctx.failStep;
    res.obs = ctx.obs;
    res.log = ctx.log;
    ctx.stats["allocations"] += ctx.allocs;
    res.stats = ctx.stats;
    res.states = ctx.states;
    return res;
}
RegisterWorkload r("loop", "mixed", runLoops);
}  // namespace
}  // namespace sim
