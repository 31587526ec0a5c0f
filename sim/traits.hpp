// How the workloads handle each element type of a tape: creating values, comparing them with the
// model, observing them.
#pragma once
#include "core.hpp"
#include "dual.hpp"
#include <XAD/XAD.hpp>
#include <memory>

namespace sim
{

// small exactly representable numbers derived from an operand of a step
inline double codeVal(int64_t c)
{
    uint64_t h = uint64_t(c) * 0x9E3779B97F4A7C15ull;
    h ^= h >> 29;
    double v = double(int64_t(h % 513) - 256) / 128.0;  // [-2, 2]
    return v;
}
// numbers for derivative components; zero with high probability, so that zero values with
// non-zero derivatives (and vice versa) occur
inline double codeTangent(int64_t c)
{
    uint64_t h = uint64_t(c) * 0xD1342543DE82EF95ull;
    h ^= h >> 31;
    if (h % 5 == 0)
        return 0.0;
    return double(int64_t((h >> 8) % 17) - 8) / 8.0;
}
inline int64_t codeMix(int64_t c, int64_t k) { return int64_t(uint64_t(c) * 6364136223846793005ull + uint64_t(k) * 1442695040888963407ull); }

template <class R>
struct Tr;

template <>
struct Tr<double>
{
    typedef double F;
    typedef double N;
    static constexpr bool hasInnerTape = false;
    static constexpr bool isFloat = false;
    struct Env
    {
        explicit Env(bool) {}
        void reset() {}
        bool consistent() const { return true; }
    };
    static double eps() { return 1e-12; }
    static void make(double& r, Env&, double v, int64_t) { r = v; }
    static F makeF(double v, int64_t) { return v; }
    static void sync(F& f, const double& r) { f = r; }
    static double primal(const double& r) { return r; }
    static bool same(Env&, const double& r, const F& f, double tol, bool, Ctx* c)
    {
        c->observe(r);
        return std::fabs(r - f) <= tol;
    }
    static void observe(Ctx* c, const double& r) { c->observe(r); }
    static std::string str(const double& r) { return fmt("%.10g", r); }
    static std::string strF(const F& r) { return fmt("%.10g", r); }
};

template <>
struct Tr<float>
{
    typedef double F;
    typedef float N;
    static constexpr bool hasInnerTape = false;
    static constexpr bool isFloat = true;
    typedef Tr<double>::Env Env;
    static double eps() { return 4e-6; }
    static void make(float& r, Env&, double v, int64_t) { r = float(v); }
    static F makeF(double v, int64_t) { return v; }
    static void sync(F& f, const float& r) { f = r; }
    static double primal(const float& r) { return r; }
    static bool same(Env&, const float& r, const F& f, double tol, bool, Ctx* c)
    {
        c->observe(double(r));
        return std::fabs(double(r) - f) <= tol;
    }
    static void observe(Ctx* c, const float& r) { c->observe(double(r)); }
    static std::string str(const float& r) { return fmt("%.10g", double(r)); }
    static std::string strF(const F& r) { return fmt("%.10g", r); }
};

template <class I>
struct Tr<xad::FReal<I>>
{
    typedef xad::FReal<I> R;
    typedef Dual<typename Tr<I>::F, 1> F;
    typedef typename Tr<I>::N N;
    static constexpr bool hasInnerTape = Tr<I>::hasInnerTape;
    static constexpr bool isFloat = Tr<I>::isFloat;
    typedef typename Tr<I>::Env Env;
    static double eps() { return Tr<I>::eps() * 64; }
    static void make(R& r, Env& e, double v, int64_t code)
    {
        Tr<I>::make(xad::value(r), e, v, codeMix(code, 1));
        Tr<I>::make(xad::derivative(r), e, codeTangent(code), codeMix(code, 2));
    }
    static F makeF(double v, int64_t code)
    {
        F f;
        f.v = Tr<I>::makeF(v, codeMix(code, 1));
        f.d[0] = Tr<I>::makeF(codeTangent(code), codeMix(code, 2));
        return f;
    }
    static void sync(F& f, const R& r)
    {
        Tr<I>::sync(f.v, xad::value(r));
        Tr<I>::sync(f.d[0], xad::derivative(r));
    }
    static double primal(const R& r) { return Tr<I>::primal(xad::value(r)); }
    static bool same(Env& e, const R& r, const F& f, double tol, bool deep, Ctx* c)
    {
        bool a = Tr<I>::same(e, xad::value(r), f.v, tol, deep, c);
        bool b = Tr<I>::same(e, xad::derivative(r), f.d[0], tol, deep, c);
        return a && b;
    }
    static void observe(Ctx* c, const R& r)
    {
        Tr<I>::observe(c, xad::value(r));
        Tr<I>::observe(c, xad::derivative(r));
    }
    static std::string str(const R& r) { return "(" + Tr<I>::str(xad::value(r)) + "," + Tr<I>::str(xad::derivative(r)) + ")"; }
    static std::string strF(const F& r) { return "(" + Tr<I>::strF(r.v) + "," + Tr<I>::strF(r.d[0]) + ")"; }
};

// an inner tape with 3 independent variables, whose values are zero
template <class I>
struct InnerEnv : Tr<I>::Env
{
    typedef xad::AReal<I> A;
    std::unique_ptr<xad::Tape<I>> tape;
    A u[3];
    unsigned baseCount = 0;
    explicit InnerEnv(bool create) : Tr<I>::Env(create)
    {
        if (!create)
            return;
        Lib l;
        tape.reset(new xad::Tape<I>());
        for (auto& x : u) tape->registerInput(x);
        tape->newRecording();
        baseCount = tape->getNumVariables();
    }
    // forget everything recorded (all other variables have to be destroyed)
    void reset()
    {
        Tr<I>::Env::reset();
        Lib l;
        tape->newRecording();
    }
    // (this tape itself may keep variables of the tapes further inside)
    bool consistent() const { return tape->getNumVariables() == baseCount; }
    InnerEnv(const InnerEnv&) = delete;
    ~InnerEnv()
    {
        Lib l;
        for (auto& x : u) { A dead; x = std::move(dead); }
        tape.reset();
    }
};

template <class I>
struct Tr<xad::AReal<I>>
{
    typedef xad::AReal<I> R;
    typedef Dual<typename Tr<I>::F, 3> F;
    typedef typename Tr<I>::N N;
    static constexpr bool hasInnerTape = true;
    static constexpr bool isFloat = Tr<I>::isFloat;
    typedef InnerEnv<I> Env;
    static double eps() { return Tr<I>::eps() * 64; }
    static void make(R& r, Env& e, double v, int64_t code)
    {
        R x;
        Tr<I>::make(xad::value(x), e, v, codeMix(code, 3));
        // leave some unregistered with the inner tape
        if (code % 7 == 0)
        {
            r = x;
            return;
        }
        N t0 = N(codeTangent(codeMix(code, 4))), t1 = N(codeTangent(codeMix(code, 5))),
          t2 = N(codeTangent(codeMix(code, 6)));
        r = x + e.u[0] * t0 + e.u[1] * t1 + e.u[2] * t2;
    }
    static F makeF(double v, int64_t code)
    {
        F f;
        f.v = Tr<I>::makeF(v, codeMix(code, 3));
        if (code % 7 != 0)
            for (int i = 0; i < 3; ++i) f.d[i] = typename Tr<I>::F(codeTangent(codeMix(code, 4 + i)));
        return f;
    }
    static void sync(F& f, const R& r) { Tr<I>::sync(f.v, xad::value(r)); }
    static double primal(const R& r) { return Tr<I>::primal(xad::value(r)); }
    static bool same(Env& e, const R& r, const F& f, double tol, bool deep, Ctx* c)
    {
        bool ok = Tr<I>::same(e, xad::value(r), f.v, tol, deep, c);
        if (!deep)
            return ok;
        if (!r.shouldRecord())
        {
            for (int i = 0; i < 3; ++i) ok = ok && norm(f.d[i]) <= tol;
            return ok;
        }
        Lib l;
        R x(r);
        e.tape->clearDerivatives();
        xad::value(xad::derivative(x)) = 1.0;
        e.tape->computeAdjoints();
        for (int i = 0; i < 3; ++i)
        {
            I d = xad::derivative(e.u[i]);
            bool o = Tr<I>::same(e, d, f.d[i], tol, deep, c);
            ok = ok && o;
        }
        e.tape->clearDerivatives();
        return ok;
    }
    static void observe(Ctx* c, const R& r) { Tr<I>::observe(c, xad::value(r)); }
    static std::string str(const R& r) { return Tr<I>::str(xad::value(r)); }
    static std::string strF(const F& r)
    {
        return "(" + Tr<I>::strF(r.v) + "," + Tr<I>::strF(r.d[0]) + "," + Tr<I>::strF(r.d[1]) + "," + Tr<I>::strF(r.d[2]) + ")";
    }
};

}  // namespace sim
