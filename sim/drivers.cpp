// The workload for C13: computeJacobian and computeHessian in all modes and interfaces, amid other
// uses of the tapes, with functions that throw, allocations that fail, and outputs of wrong sizes.
#include "thrown.hpp"
#include "core.hpp"
#include "dual.hpp"
#include "shapes_impl.hpp"
#include <XAD/XAD.hpp>
#include <XAD/Jacobian.hpp>
#include <XAD/Hessian.hpp>
#include <algorithm>
#include <deque>
#include <list>
#include <memory>

namespace sim
{
namespace
{
typedef Dual<Dual<double, 5>, 5> DD;
typedef xad::FReal<double> FR;

enum Code
{
    TAPE_NEW = 200, TAPE_DEL, TAPE_ACT, TAPE_DEACT, DIRTY, RESTART, JAC_ADJ, JAC_FWD, HES_ADJ, HES_FWD, CODE_END
};
const char* dname(int c)
{
    static const char* n[] = {"TAPE_NEW", "TAPE_DEL", "TAPE_ACT", "TAPE_DEACT", "DIRTY", "RESTART", "JACOBIAN_ADJ", "JACOBIAN_FWD", "HESSIAN_FWD_ADJ", "HESSIAN_FWD_FWD"};
    return c >= 200 && c < CODE_END ? n[c - 200] : "NONE";
}

// a random function of n arguments with m results; what it computes is fixed when it is made
struct Program
{
    struct Step
    {
        int shape, x, y, z;
        double k;
        int into;   // >= 0: assigned to this argument instead of a new variable
    };
    int n = 0;
    std::vector<Step> steps;
    std::vector<int> outs;          // register, or -1-k for constants
    std::vector<double> in, tan;    // values of the arguments, and their inner derivatives
    std::vector<DD> result;
    std::vector<double> consts;
    double scale = 1;
    bool noCopies = false;
};

double constOf(uint64_t r) { return 0.5 + double(r % 96) / 64.0; }

Program makeProgram(uint64_t seed, int nmax, int m, bool tangents)
{
    Rng r(seed);
    Program p;
    p.n = int(r.below(uint64_t(nmax + 1)));
    if (p.n == 0 && r.chance(70))
        p.n = 1 + int(r.below(uint64_t(nmax)));
    std::vector<DD> reg;
    for (int i = 0; i < p.n; ++i)
    {
        p.in.push_back(double(int64_t(r.below(513)) - 256) / 128.0);
        p.tan.push_back(tangents && r.chance(60) ? double(int64_t(r.below(17)) - 8) / 8.0 : 0.0);
        DD d;
        d.v.v = p.in.back();
        d.v.d[i] = 1.0;
        d.d[i].v = 1.0;
        reg.push_back(d);
    }
    for (int i = 0; i < 4; ++i) p.consts.push_back(double(int64_t(r.below(65)) - 32) / 8.0);
    int len = r.chance(20) ? int(r.below(3)) : int(r.below(14));
    if (r.chance(5))
        len = 60;    // beyond one chunk of the tape
    if (p.n == 0)
        len = 0;
    bool mutate = r.chance(30);
    for (int i = 0; i < len; ++i)
    {
        Program::Step s;
        s.shape = int(r.below(SIM_NUM_SHAPES));
        auto pick = [&] {
            return r.chance(40) && reg.size() > 4 ? int(reg.size() - 1 - r.below(3)) : int(r.below(reg.size()));
        };
        s.x = pick();
        s.y = pick();
        s.z = pick();
        s.k = constOf(r.next());
        s.into = mutate && r.chance(40) ? int(r.below(uint64_t(p.n))) : -1;
        DD v;
        illConditioned = false;
        evalShape(v, s.shape, reg[size_t(s.x)], reg[size_t(s.y)], reg[size_t(s.z)], s.k);
        if (illConditioned || !(norm(v) < 1e3) || !(std::fabs(v.v.v) <= 6))
        {
            s.shape = 0;
            evalShape(v, s.shape, reg[size_t(s.x)], reg[size_t(s.x)], reg[size_t(s.x)], s.k);
            if (!(norm(v) < 1e4))
                continue;
        }
        p.scale = std::max(p.scale, norm(v));
        if (s.into >= 0)
            reg[size_t(s.into)] = v;
        else
            reg.push_back(v);
        p.steps.push_back(s);
    }
    for (int j = 0; j < m; ++j)
    {
        int o;
        if (reg.empty() || r.chance(8))
            o = -1 - int(r.below(4));
        else if (r.chance(50))
            o = int(reg.size() - 1 - r.below(std::min<size_t>(3, reg.size())));
        else
            o = int(r.below(reg.size()));
        p.outs.push_back(o);
        p.result.push_back(o < 0 ? DD(p.consts[size_t(-1 - o)]) : reg[size_t(o)]);
    }
    return p;
}

struct World
{
    Ctx& ctx;
    std::string text;

    template <class T>
    struct Side
    {
        typedef xad::AReal<T> A;
        typedef xad::Tape<T> Tape;
        struct M
        {
            Tape* t = nullptr;
            std::vector<A*> vars;      // registered with this tape
            bool leaky = false;        // memory ran out: slots may have been lost
            bool restart = false;      // has to be restarted before it is used for anything else
        };
        M m[3];
        int act = -1;
    };
    Side<double> sd;
    Side<FR> sf;

    explicit World(Ctx& c) : ctx(c) {}

    long curFault = 0;
    int curBurst = 1;
    enum St { OK, OOM, FN, RANGE, OTHER };
    int gotSerial = 0;
    std::string what;
    St classify()
    {
        int kind;
        if (caughtThrown(kind, gotSerial))
        {
            if (kind != gotSerial % THROW_KINDS)
                gotSerial = -1;
            return FN;
        }
        try
        {
            throw;
        }
        catch (const std::bad_alloc&)
        {
            return OOM;
        }
        catch (const xad::OutOfRange& e)
        {
            what = e.what();
            return RANGE;
        }
        catch (const std::exception& e)
        {
            what = e.what();
        }
        return OTHER;
    }
    template <class F>
    St lib(F&& f, bool faults = true)
    {
        St st = OK;
        ctx.fired = false;
        ctx.failAt = faults ? curFault : 0;
        ctx.failBurst = curBurst;
        try
        {
            Lib l;
            f();
        }
        catch (...)
        {
            st = classify();
        }
        ctx.failAt = 0;
        if (ctx.fired)
        {
            ctx.count(st == OOM ? "fault_alloc_thrown" : "fault_alloc_absorbed");
            curFault = 0;
        }
        if (st == OOM && !ctx.fired)
        {
            st = OTHER;
            what = "bad_alloc without a failed allocation";
        }
        return st;
    }
    void must(const char* w, St st)
    {
        if (st != OK)
            ctx.fail("unexpected-exception", std::string(w) + ": " + (st == OOM ? "bad_alloc" : st == FN ? "exception of the function" : what));
    }

    // ------------------------------------------------------------------ invariants
    template <class T>
    void invariants(Side<T>& s)
    {
        typename Side<T>::Tape* want = s.act >= 0 ? s.m[s.act].t : nullptr;
        if (Side<T>::Tape::getActive() != want)
            return ctx.fail("wrong-active-tape", "active tape of the thread isn't the one from before");
        for (int i = 0; i < 3; ++i)
        {
            auto& m = s.m[i];
            if (!m.t)
                continue;
            if (m.t->isActive() != (i == s.act))
                return ctx.fail("wrong-active-tape", "isActive() is wrong");
            long n = long(m.t->getNumVariables()), w = long(m.vars.size());
            if (n < w || (n != w && !m.leaky))
                return ctx.fail("wrong-variable-count", fmt("tape has %ld variables, expected %ld", n, w));
            ctx.observe(uint64_t(m.t->getNumVariables()));
            ctx.state(hashMix(hashMix(uint64_t(m.t->getNumOperations()), uint64_t(m.t->getNumStatements())), uint64_t(n * 8 + s.act * 2)));
        }
    }

    // ------------------------------------------------------------------ tapes
    template <class T>
    bool tapeOp(Side<T>& s, int code, const int64_t* a)
    {
        typedef typename Side<T>::A A;
        typedef typename Side<T>::Tape Tape;
        int i = int(uint64_t(a[1]) % 3);
        auto& m = s.m[i];
        switch (code)
        {
            case TAPE_NEW:
            {
                if (m.t)
                    return false;
                bool activate = a[2] % 2 && s.act < 0;
                Tape* p = nullptr;
                St st = lib([&] { p = new Tape(activate); });
                text = fmt("tape %d%s", i, activate ? " active" : "");
                if (st == OOM)
                    return true;
                must("creating a tape", st);
                m.t = p;
                if (activate)
                    s.act = i;
                return true;
            }
            case TAPE_DEL:
            {
                if (!m.t || (!m.vars.empty() && s.act != i))
                    return false;
                text = fmt("tape %d", i);
                dropVars(s, i);
                Tape* p = m.t;
                m.t = nullptr;
                must("destroying a tape", lib([&] { delete p; }, false));
                m = typename Side<T>::M();
                if (s.act == i)
                    s.act = -1;
                return true;
            }
            case TAPE_ACT:
            {
                if (!m.t || s.act >= 0)
                    return false;
                text = fmt("tape %d", i);
                must("activating", lib([&] { m.t->activate(); }, false));
                s.act = i;
                return true;
            }
            case TAPE_DEACT:
            {
                if (!m.t)
                    return false;
                text = fmt("tape %d", i);
                must("deactivating", lib([&] { m.t->deactivate(); }, false));
                if (s.act == i)
                    s.act = -1;
                return true;
            }
            case RESTART: return s.act >= 0 && restart(s, s.act, uint64_t(a[2]), a[3] % 3 == 0);
            default: break;
        }
        // DIRTY: leave the active tape in some state
        if (s.act < 0)
            return false;
        auto& t = s.m[s.act];
        if (t.restart)
            return false;
        Rng r{uint64_t(a[2])};
        text = fmt("tape %d:", s.act);
        for (int k = 0, n = 1 + int(r.below(6)); k < n && !ctx.failed; ++k)
        {
            int w = int(r.below(9));
            if (t.vars.empty())
                w = 0;
            A* v = t.vars.empty() ? nullptr : t.vars[r.below(t.vars.size())];
            A* v2 = t.vars.empty() ? nullptr : t.vars[r.below(t.vars.size())];
            double val = double(int64_t(r.below(65)) - 32) / 16.0;
            St st = OK;
            switch (w)
            {
                case 0:
                case 1:
                {
                    if (t.vars.size() > 8)
                        break;
                    A* p = nullptr;
                    st = lib([&] {
                        std::unique_ptr<A> q(new A(val));
                        t.t->registerInput(*q);
                        p = q.release();
                    });
                    if (st == OK)
                        t.vars.push_back(p);
                    text += " new";
                    break;
                }
                case 2:
                case 3: st = lib([&] { *v = sin(*v) * *v2 + val; }); text += " record"; break;
                case 4:
                {
                    if (t.vars.size() > 8)
                        break;
                    A* p = nullptr;
                    st = lib([&] { p = new A(*v * *v2); });
                    if (st == OK)
                        t.vars.push_back(p);
                    text += " new-record";
                    break;
                }
                case 5:
                    st = lib([&] { derivative(*v) = T(1.0); });
                    text += " seed";
                    break;
                case 6:
                    st = lib([&] {
                        derivative(*v) = T(1.0);
                        t.t->computeAdjoints();
                    });
                    text += " sweep";
                    break;
                case 7:
                {
                    size_t k2 = r.below(t.vars.size());
                    A* p = t.vars[k2];
                    t.vars.erase(t.vars.begin() + long(k2));
                    st = lib([&] { delete p; });
                    text += " destroy";
                    break;
                }
                default:
                    st = lib([&] { t.t->newRecording(); });
                    text += " newRecording";
                    break;
            }
            if (st == OOM)
            {
                t.leaky = t.restart = true;
                return true;
            }
            must("using a tape", st);
        }
        return true;
    }
    template <class T>
    void dropVars(Side<T>& s, int i)
    {
        for (auto* p : s.m[i].vars) must("destroying a variable", lib([&] { delete p; }, false));
        s.m[i].vars.clear();
    }
    static double primal(double x) { return x; }
    static double primal(const FR& x) { return xad::value(x); }

    // restarts the tape, after which it has to work as a new one
    template <class T>
    bool restart(Side<T>& s, int i, uint64_t seed, bool clear)
    {
        typedef xad::AReal<T> A;
        auto& t = s.m[i];
        Program p = makeProgram(seed, 4, 2, false);
        text = fmt("tape %d %s, then %d steps of %d variables", i, clear ? "clearAll" : "newRecording", int(p.steps.size()), p.n);
        curFault = 0;
        if (clear)
        {
            dropVars(s, i);
            must("clearAll", lib([&] { t.t->clearAll(); }));
            t.leaky = false;
        }
        std::vector<T> grad(size_t(p.n), T(0.0));
        for (size_t out = 0; out < 2 && !ctx.failed; ++out)
        {
            must("recording on a restarted tape", lib([&] {
                     std::vector<A> x;
                     for (double v : p.in) x.push_back(A(v));
                     t.t->registerInputs(x);
                     t.t->newRecording();
                     std::vector<A> reg(x), y;
                     run(p, reg, y);
                     t.t->registerOutputs(y);
                     derivative(y[out]) = T(1.0);
                     t.t->computeAdjoints();
                     for (size_t j = 0; j < x.size(); ++j) grad[j] = derivative(x[j]);
                     t.t->newRecording();
                 }));
            if (ctx.failed)
                return true;
            for (size_t j = 0; j < grad.size(); ++j) compare("adjoint on a restarted tape", primal(grad[j]), p.result[out].d[j].v, p.scale, int(out), int(j));
        }
        t.restart = false;
        ctx.count("restarts");
        return true;
    }
    void compare(const char* w, double got, double want, double scale, int i, int j)
    {
        ctx.count("results_checked");
        ctx.observe(got);
        double tol = 1e-9 * (1 + scale) * (1 + std::fabs(want));
        if (!(std::fabs(got - want) <= tol))
            ctx.fail("wrong-derivative", fmt("%s: element (%d,%d) is %.12g, expected %.12g", w, i, j, got, want));
    }

    // executes the program on registers that start as copies of the arguments
    template <class A>
    static void run(const Program& p, std::vector<A>& reg, std::vector<A>& y, int throwStep = -1, int serial = 0)
    {
        size_t extra = 0;
        for (auto& s : p.steps) extra += s.into < 0;
        reg.reserve(reg.size() + extra);
        int k = 0;
        for (auto& s : p.steps)
        {
            if (k++ == throwStep)
            {
                Out out;
                throwKind(serial % THROW_KINDS, serial);
            }
            if (s.into >= 0)
                assignShape<A, double>(reg[size_t(s.into)], s.shape, reg[size_t(s.x)], reg[size_t(s.y)], reg[size_t(s.z)], s.k);
            else
            {
                alignas(A) unsigned char mem[sizeof(A)];
                A* v = newShape<A, double>(mem, s.shape, reg[size_t(s.x)], reg[size_t(s.y)], reg[size_t(s.z)], s.k);
                struct D { A* p; ~D() { p->~A(); } } d{v};
                reg.push_back(std::move(*v));
            }
        }
        if (throwStep >= k)
        {
            Out out;
            throwKind(serial % THROW_KINDS, serial);
        }
        y.reserve(p.outs.size());
        for (int o : p.outs)
            if (o < 0)
                y.push_back(A(p.consts[size_t(-1 - o)]));
            else
                y.push_back(reg[size_t(o)]);
    }

    // ------------------------------------------------------------------ calling a driver
    struct Call
    {
        Program p;
        bool jac = false;
        int rows = 0;
        int iface = 0;                       // 0: returned matrix, 1..3: iterators of several containers
        int wrong = 0, wrongRow = 0;         // wrong sizes
        int throwAt = 0, throwStep = 0, serial = 0;
        bool mutateArg = false, keepRefs = false;
        int invocations = 0;
        bool badArg = false;
        std::vector<std::vector<double>> got;
    };
    bool setup(Call& c, const int64_t* a, bool jac, bool tangents)
    {
        Rng r{uint64_t(a[2])};
        c.jac = jac;
        c.p = makeProgram(uint64_t(a[3]), 5, jac ? int(r.below(5)) : 1, tangents);
        c.rows = jac ? int(c.p.outs.size()) : c.p.n;
        c.iface = int(r.below(4));
        c.mutateArg = r.chance(50);
        if (c.iface && r.chance(25))
        {
            c.wrong = 1 + int(r.below(5));
            if (c.rows == 0 && c.wrong != 1)
                c.wrong = 0;
            if (c.p.n == 0 && c.wrong == 3)
                c.wrong = 0;
            c.wrongRow = c.rows ? int(r.below(uint64_t(c.rows))) : 0;
        }
        else if (r.chance(25))
        {
            c.throwAt = 1 + int(r.below(r.chance(60) ? 2 : 8));
            c.throwStep = int(r.below(c.p.steps.size() + 1));
            c.serial = 1 + int(r.below(1000));
        }
        return true;
    }
    // sizes of the rows that are passed
    std::vector<int> rowSizes(const Call& c)
    {
        std::vector<int> s(size_t(c.rows), c.p.n);
        switch (c.wrong)
        {
            case 1: s.push_back(c.p.n); break;
            case 2: s.pop_back(); break;
            case 3: s[size_t(c.wrongRow)] -= 1; break;
            case 4: s[size_t(c.wrongRow)] += 1; break;
            case 5: s[size_t(c.wrongRow)] += 3; break;
            default: break;
        }
        return s;
    }
    template <class A>
    static double primalOf(const A& x) { return xad::value(x); }
    static double primalOf(const xad::AReal<FR>& x) { return xad::value(xad::value(x)); }
    static double primalOf(const xad::FReal<FR>& x) { return xad::value(xad::value(x)); }

    // the function given to the driver
    template <class A>
    void body(Call& c, std::vector<A>& x, std::vector<A>& y)
    {
        {
            Out o;
            ++c.invocations;
            if (int(x.size()) != c.p.n)
                c.badArg = true;
            for (size_t i = 0; i < x.size() && i < c.p.in.size(); ++i)
                if (primalOf(x[i]) != c.p.in[i])
                    c.badArg = true;
        }
        int ts = c.invocations == c.throwAt ? c.throwStep : -1;
        if (c.mutateArg)
            run(c.p, x, y, ts, c.serial);     // changes (and extends) its argument
        else
        {
            std::vector<A> reg(x);
            run(c.p, reg, y, ts, c.serial);
        }
    }
    static double tangent(double) { return 0; }
    static double tangent(const FR& x) { return xad::derivative(x); }

    struct CallX : Call
    {
        std::vector<std::vector<double>> inner;
    };

    // checks the outcome of a driver; true if memory ran out
    bool outcome(CallX& c, St st, bool innerT)
    {
        const Program& p = c.p;
        if (c.badArg)
            ctx.fail("wrong-argument", "the function was called with other values than the given ones");
        if (st == OOM)
            return true;
        bool shouldThrow = c.throwAt && c.invocations >= c.throwAt;
        if (st == FN || shouldThrow)
        {
            if (shouldThrow)
                ctx.count("fault_function_throw");
            if (st != FN || !shouldThrow || gotSerial != c.serial)
                ctx.fail("function-exception", "exception of the function did not reach the caller unchanged");
            if (c.invocations > c.throwAt)
                ctx.fail("function-exception", "function was called again after it has thrown");
            return false;
        }
        if (c.wrong)
        {
            ctx.count("fault_wrong_size");
            if (st != RANGE)
                ctx.fail("wrong-size-accepted", fmt("output of wrong size (kind %d) did not raise OutOfRange", c.wrong));
            return false;
        }
        if (st != OK)
        {
            ctx.fail("unexpected-exception", what);
            return false;
        }
        if (int(c.got.size()) != c.rows)
        {
            ctx.fail("wrong-size", fmt("matrix has %d rows, expected %d", int(c.got.size()), c.rows));
            return false;
        }
        for (int i = 0; i < c.rows && !ctx.failed; ++i)
        {
            if (int(c.got[size_t(i)].size()) != p.n)
            {
                ctx.fail("wrong-size", "matrix has wrong number of columns");
                return false;
            }
            for (int j = 0; j < p.n && !ctx.failed; ++j)
            {
                double want = c.jac ? p.result[size_t(i)].d[j].v : p.result[0].d[i].d[j];
                compare(c.jac ? "Jacobian" : "Hessian", c.got[size_t(i)][size_t(j)], want, p.scale, i, j);
                if (c.jac && innerT)
                {
                    double w = 0;
                    for (int k = 0; k < p.n; ++k) w += p.result[size_t(i)].d[j].d[k] * p.tan[size_t(k)];
                    compare("derivative of the Jacobian", c.inner[size_t(i)][size_t(j)], w, p.scale * 10, i, j);
                }
            }
        }
        return false;
    }

    static void setTangent(double&, double) {}
    static void setTangent(FR& x, double t) { xad::derivative(x) = t; }

    // the arguments; some are registered with the active tape or carry derivatives
    template <class T>
    St makeArgs(Side<T>& s, const Program& p, std::vector<xad::AReal<T>>& v, Rng& r, bool registered)
    {
        return lib([&] {
            v.reserve(p.in.size());
            for (size_t i = 0; i < p.in.size(); ++i)
            {
                T x(p.in[i]);
                setTangent(x, p.tan[i]);
                v.push_back(xad::AReal<T>(p.in[i]));
                xad::value(v.back()) = x;
                if (registered && r.chance(60))
                {
                    s.m[s.act].t->registerInput(v.back());
                    if (r.chance(30) && !s.m[s.act].restart)
                        derivative(v.back()) = T(2.0);
                }
            }
        }, false);
    }

    template <class T>
    bool adj(Side<T>& s, const int64_t* a, bool jac)
    {
        typedef xad::AReal<T> A;
        typedef xad::Tape<T> Tape;
        CallX c;
        // the Hessian driver overwrites the inner derivatives, the Jacobian one must propagate them
        if (!setup(c, a, jac, std::is_same<T, FR>::value))
            return false;
        Rng r{uint64_t(a[2]) + 17};
        // which tape: 0 default, 1 the active one, 2 another one, 3 none
        int which = int(uint64_t(a[1]) % 4);
        int ti = s.act;
        Tape* given = nullptr;
        if (which == 1 && s.act < 0)
            which = 2;
        if (which == 1)
            given = s.m[s.act].t;
        if (which == 2)
        {
            ti = int(uint64_t(a[4]) % 3);
            if (!s.m[ti].t || ti == s.act)
                return false;
            given = s.m[ti].t;
        }
        if (which == 3)
            ti = -1;
        bool sameTape = s.act >= 0 && ti == s.act;
        std::vector<A>* v = new std::vector<A>();
        must("arguments", makeArgs(s, c.p, *v, r, sameTape && r.chance(60)));
        text = fmt("%s n=%d rows=%d steps=%d interface %d%s%s%s", which == 0 ? "default tape" : which == 1 ? "given active tape" : which == 2 ? "given other tape" : "no tape",
                   c.p.n, c.rows, int(c.p.steps.size()), c.iface, c.wrong ? fmt(" wrong size %d row %d", c.wrong, c.wrongRow).c_str() : "",
                   c.throwAt ? fmt(" throws in call %d at step %d", c.throwAt, c.throwStep).c_str() : "",
                   c.mutateArg ? " changes its argument" : "");
        St st = OK;
        if constexpr (true)
        {
            std::function<std::vector<A>(std::vector<A>&)> f = [&](std::vector<A>& x) {
                std::vector<A> y;
                body(c, x, y);
                return y;
            };
            auto drive = [&](auto b, auto e) {
                if (which == 0)
                    xad::computeJacobian(*v, f, b, e);
                else
                    xad::computeJacobian(*v, f, b, e, given);
            };
            if (jac)
                switch (c.iface)
                {
                    case 0:
                    {
                        std::vector<std::vector<T>>* m = new std::vector<std::vector<T>>();
                        st = lib([&] { *m = which == 0 ? xad::computeJacobian(*v, f) : xad::computeJacobian(*v, f, given); });
                        if (st == OK)
                            collect(c, *m);
                        lib([&] { delete m; }, false);
                        break;
                    }
                    case 1: st = callX<std::vector<std::vector<T>>, T>(c, drive); break;
                    case 2: st = callX<std::list<std::list<T>>, T>(c, drive); break;
                    default: st = callX<std::deque<std::vector<T>>, T>(c, drive); break;
                }
        }
        if constexpr (std::is_same<T, FR>::value)
            if (!jac)
            {
                std::function<A(std::vector<A>&)> f = [&](std::vector<A>& x) {
                    std::vector<A> y;
                    body(c, x, y);
                    return A(y[0]);
                };
                auto drive = [&](auto b, auto e) {
                    if (which == 0)
                        xad::computeHessian(*v, f, b, e);
                    else
                        xad::computeHessian(*v, f, b, e, given);
                };
                switch (c.iface)
                {
                    case 0:
                    {
                        std::vector<std::vector<double>>* m = new std::vector<std::vector<double>>();
                        st = lib([&] { *m = which == 0 ? xad::computeHessian(*v, f) : xad::computeHessian(*v, f, given); });
                        if (st == OK)
                            collect(c, *m);
                        lib([&] { delete m; }, false);
                        break;
                    }
                    case 1: st = callX<std::vector<std::vector<double>>, double>(c, drive); break;
                    case 2: st = callX<std::list<std::list<double>>, double>(c, drive); break;
                    default: st = callX<std::deque<std::vector<double>>, double>(c, drive); break;
                }
            }
        bool oom = outcome(c, st, std::is_same<T, FR>::value);
        must("destroying the arguments", lib([&] { delete v; }, false));
        if (ti >= 0)
        {
            s.m[ti].restart = true;
            if (oom)
                s.m[ti].leaky = true;
        }
        return true;
    }
    template <class M>
    void collect(CallX& c, const M& m)
    {
        for (auto& row : m)
        {
            c.got.emplace_back();
            c.inner.emplace_back();
            for (auto& x : row)
            {
                c.got.back().push_back(primal(x));
                c.inner.back().push_back(tangent(x));
            }
        }
    }
    template <class Cont, class T, class Driver>
    St callX(CallX& c, Driver&& d)
    {
        Cont m;
        for (int s : rowSizes(c))
        {
            m.emplace_back();
            for (int i = 0; i < s; ++i) m.back().push_back(T(777.0));
        }
        St st = lib([&] { d(m.begin(), m.end()); });
        if (st == OK)
            collect(c, m);
        return st;
    }

    template <class T>
    bool fwd(const int64_t* a, bool jac)
    {
        typedef xad::FReal<T> A;
        CallX c;
        if (!setup(c, a, jac, std::is_same<T, FR>::value))
            return false;
        Rng r{uint64_t(a[2]) + 17};
        std::vector<A>* v = new std::vector<A>();
        for (size_t i = 0; i < c.p.in.size(); ++i)
        {
            T x(c.p.in[i]);
            setTangent(x, c.p.tan[i]);
            v->push_back(A(c.p.in[i]));
            xad::value(v->back()) = x;
            if (r.chance(30))
                xad::derivative(v->back()) = T(double(r.below(9)) / 2.0 - 2.0);
        }
        text = fmt("n=%d rows=%d steps=%d interface %d%s%s%s", c.p.n, c.rows, int(c.p.steps.size()), c.iface,
                   c.wrong ? fmt(" wrong size %d row %d", c.wrong, c.wrongRow).c_str() : "",
                   c.throwAt ? fmt(" throws in call %d at step %d", c.throwAt, c.throwStep).c_str() : "", c.mutateArg ? " changes its argument" : "");
        St st = OK;
        if (jac)
        {
            std::function<std::vector<A>(std::vector<A>&)> f = [&](std::vector<A>& x) {
                std::vector<A> y;
                body(c, x, y);
                return y;
            };
            auto drive = [&](auto b, auto e) { xad::computeJacobian(*v, f, b, e); };
            switch (c.iface)
            {
                case 0:
                {
                    std::vector<std::vector<T>>* m = new std::vector<std::vector<T>>();
                    st = lib([&] { *m = xad::computeJacobian(*v, f); });
                    if (st == OK)
                        collect(c, *m);
                    lib([&] { delete m; }, false);
                    break;
                }
                case 1: st = callX<std::vector<std::vector<T>>, T>(c, drive); break;
                case 2: st = callX<std::list<std::list<T>>, T>(c, drive); break;
                default: st = callX<std::deque<std::vector<T>>, T>(c, drive); break;
            }
        }
        if constexpr (std::is_same<T, FR>::value)
            if (!jac)
            {
                std::function<A(std::vector<A>&)> f = [&](std::vector<A>& x) {
                    std::vector<A> y;
                    body(c, x, y);
                    return A(y[0]);
                };
                auto drive = [&](auto b, auto e) { xad::computeHessian(*v, f, b, e); };
                switch (c.iface)
                {
                    case 0:
                    {
                        std::vector<std::vector<double>>* m = new std::vector<std::vector<double>>();
                        st = lib([&] { *m = xad::computeHessian(*v, f); });
                        if (st == OK)
                            collect(c, *m);
                        lib([&] { delete m; }, false);
                        break;
                    }
                    case 1: st = callX<std::vector<std::vector<double>>, double>(c, drive); break;
                    case 2: st = callX<std::list<std::list<double>>, double>(c, drive); break;
                    default: st = callX<std::deque<std::vector<double>>, double>(c, drive); break;
                }
            }
        outcome(c, st, std::is_same<T, FR>::value);
        must("destroying the arguments", lib([&] { delete v; }, false));
        return true;
    }

    bool exec(const Op& op)
    {
        text.clear();
        curFault = op.fault;
        curBurst = op.burst;
        const int64_t* a = op.a;
        bool side = a[0] % 2 != 0;
        bool ok = false;
        switch (op.code)
        {
            case JAC_ADJ: ok = side ? adj(sf, a, true) : adj(sd, a, true); break;
            case JAC_FWD: ok = side ? fwd<FR>(a, true) : fwd<double>(a, true); break;
            case HES_ADJ: ok = adj(sf, a, false); side = true; break;
            case HES_FWD: ok = fwd<FR>(a, false); break;
            default:
                if (op.code < TAPE_NEW || op.code >= CODE_END)
                    return false;
                ok = side ? tapeOp(sf, op.code, a) : tapeOp(sd, op.code, a);
        }
        if (ok)
        {
            text = (side ? "[FReal] " : "[double] ") + text;
            if (!ctx.failed)
            {
                invariants(sd);
                if (!ctx.failed)
                    invariants(sf);
            }
        }
        return ok;
    }
    template <class T>
    void finish(Side<T>& s)
    {
        curFault = 0;
        for (int i = 0; i < 3; ++i)
        {
            if (!s.m[i].t)
                continue;
            if (s.act >= 0 && s.act != i)
                s.m[s.act].t->deactivate();
            if (s.act != i)
                s.m[i].t->activate();
            s.act = i;
            if (!ctx.failed)
                restart(s, i, uint64_t(i) + 5, i % 2);
            if (!ctx.failed)
                invariants(s);
            dropVars(s, i);
            auto* p = s.m[i].t;
            must("destroying a tape", lib([&] { delete p; }, false));
            s.m[i].t = nullptr;
            s.act = -1;
        }
    }
};

RunResult runDrivers(const RunRequest& rq)
{
    RunResult res;
    Ctx ctx;
    Rng rng(rq.seed);
    ctx.fill = (unsigned char)(0x11 * rng.below(16));
    if (rq.fill >= 0)
        ctx.fill = (unsigned char)rq.fill;
    Ctx* saved = tlsCtx;
    tlsCtx = &ctx;
    {
        World w(ctx);
        auto note = [&](const Op& op) {
            res.ops.push_back(op);
            ctx.log = hashMix(ctx.log, uint64_t(op.code));
            for (char ch : w.text) ctx.log = hashMix(ctx.log, uint64_t((unsigned char)ch));
            for (auto x : op.a) ctx.log = hashMix(ctx.log, uint64_t(x));
            ctx.log = hashMix(ctx.log, ctx.obs);
            ctx.stats[std::string("op_") + dname(op.code)]++;
            if (op.fault)
                ctx.count("fault_alloc_armed");
            if (rq.keepText)
                res.opText.push_back(fmt("%s ", dname(op.code)) + w.text + (op.fault ? fmt(" (allocation %d fails, %d times)", op.fault, op.burst) : ""));
        };
        if (rq.replay)
        {
            for (auto& op : rq.ops)
            {
                if (ctx.failed)
                    break;
                ++ctx.step;
                if (w.exec(op))
                    note(op);
                else
                    --ctx.step;
            }
        }
        else
        {
            int n = 6 + int(rng.below(20));
            int pf = rng.chance(50) ? 0 : 15 + int(rng.below(30));
            static const int weights[] = {4, 1, 3, 2, 8, 4, 8, 4, 6, 3};
            for (int i = 0; i < n * 5 && ctx.step < n && !ctx.failed; ++i)
            {
                Op op;
                int x = int(rng.below(43));
                op.code = TAPE_NEW;
                for (int k = 0; k < 10; ++k)
                {
                    if (x < weights[k])
                    {
                        op.code = TAPE_NEW + k;
                        break;
                    }
                    x -= weights[k];
                }
                for (auto& a : op.a) a = int64_t(rng.below(1u << 30));
                if (rng.chance(pf))
                {
                    op.fault = 1 + int(rng.chance(60) ? rng.below(20) : rng.below(120));
                    op.burst = rng.chance(75) ? 1 : 3;
                }
                ++ctx.step;
                progress(res.ops.size(), op);
                if (!w.exec(op))
                {
                    --ctx.step;
                    continue;
                }
                note(op);
            }
        }
        ctx.stats["steps"] += ctx.step;
        progress(res.ops.size(), Op());
        w.finish(w.sd);
        w.finish(w.sf);
        {
            Lib l;
            w.what = std::string();
        }
    }
    if (!ctx.failed && ctx.live != 0)
        ctx.fail("leak", fmt("%ld allocations (%ld bytes) of the library never released", ctx.live, ctx.liveBytes));
    tlsCtx = saved;
    dropTracking(&ctx);
    res.failed = ctx.failed;
    res.cls = ctx.cls;
    res.msg = ctx.msg;
    res.failStep = ctx.failStep;
    res.obs = ctx.obs;
    res.log = ctx.log;
    ctx.stats["allocations"] += ctx.allocs;
    res.stats = ctx.stats;
    res.states = ctx.states;
    return res;
}
RegisterWorkload r("drivers", "mixed", runDrivers);
}  // namespace
}  // namespace sim
