// The reference model's number type: forward dual numbers with N partials, nestable. Independent of
// the library's own expression and derivative code.
#pragma once
#include <cmath>
#include <type_traits>

namespace sim
{
extern thread_local bool illConditioned;  // set when a function is evaluated too close to a kink

template <class I, int N>
struct Dual
{
    I v;
    I d[N];
    Dual(double x = 0.0) : v(x)
    {
        for (int i = 0; i < N; ++i) d[i] = I(0.0);
    }
    template <class U, class = typename std::enable_if<std::is_same<U, I>::value && !std::is_same<U, double>::value>::type>
    Dual(const U& x) : v(x)
    {
        for (int i = 0; i < N; ++i) d[i] = I(0.0);
    }
};

inline double prim(double x) { return x; }
template <class I, int N>
double prim(const Dual<I, N>& x)
{
    return prim(x.v);
}
inline double norm(double x) { return std::fabs(x); }
template <class I, int N>
double norm(const Dual<I, N>& x)
{
    double s = norm(x.v);
    for (int i = 0; i < N; ++i) s += norm(x.d[i]);
    return s;
}
inline bool isZero(double x) { return x == 0.0; }
template <class I, int N>
bool isZero(const Dual<I, N>& x)
{
    if (!isZero(x.v))
        return false;
    for (int i = 0; i < N; ++i)
        if (!isZero(x.d[i]))
            return false;
    return true;
}

#define SIM_BIN(op, VAL, DER)                                                                      \
    template <class I, int N>                                                                      \
    Dual<I, N> operator op(const Dual<I, N>& a, const Dual<I, N>& b)                               \
    {                                                                                              \
        Dual<I, N> r;                                                                              \
        r.v = VAL;                                                                                 \
        for (int i = 0; i < N; ++i) r.d[i] = DER;                                                  \
        return r;                                                                                  \
    }                                                                                              \
    template <class I, int N>                                                                      \
    Dual<I, N> operator op(const Dual<I, N>& a, double b)                                          \
    {                                                                                              \
        return a op Dual<I, N>(b);                                                                 \
    }                                                                                              \
    template <class I, int N>                                                                      \
    Dual<I, N> operator op(double a, const Dual<I, N>& b)                                          \
    {                                                                                              \
        return Dual<I, N>(a) op b;                                                                 \
    }
SIM_BIN(+, a.v + b.v, a.d[i] + b.d[i])
SIM_BIN(-, a.v - b.v, a.d[i] - b.d[i])
SIM_BIN(*, a.v* b.v, a.d[i] * b.v + a.v * b.d[i])
SIM_BIN(/, a.v / b.v, (a.d[i] * b.v - a.v * b.d[i]) / (b.v * b.v))
#undef SIM_BIN
template <class I, int N>
Dual<I, N> operator-(const Dual<I, N>& a)
{
    return 0.0 - a;
}
template <class I, int N>
Dual<I, N> operator+(const Dual<I, N>& a)
{
    return a;
}
template <class I, int N>
Dual<I, N>& operator+=(Dual<I, N>& a, const Dual<I, N>& b)
{
    return a = a + b;
}

using std::acos;
using std::acosh;
using std::asin;
using std::asinh;
using std::atan;
using std::atanh;
using std::cbrt;
using std::cos;
using std::cosh;
using std::erf;
using std::erfc;
using std::exp;
using std::exp2;
using std::expm1;
using std::log;
using std::log10;
using std::log1p;
using std::log2;
using std::sin;
using std::sinh;
using std::sqrt;
using std::tan;
using std::tanh;

#define SIM_FN(f, DERIV)                                                                           \
    template <class I, int N>                                                                      \
    Dual<I, N> f(const Dual<I, N>& a)                                                              \
    {                                                                                              \
        const I& x = a.v;                                                                          \
        Dual<I, N> r;                                                                              \
        r.v = f(x);                                                                                \
        const I g = DERIV;                                                                         \
        for (int i = 0; i < N; ++i) r.d[i] = g * a.d[i];                                           \
        return r;                                                                                  \
    }
SIM_FN(exp, exp(x))
SIM_FN(exp2, exp(x * 0.69314718055994530942) * 0.69314718055994530942)
SIM_FN(expm1, exp(x))
SIM_FN(log, 1.0 / x)
SIM_FN(log10, 1.0 / (x * 2.30258509299404568402))
SIM_FN(log2, 1.0 / (x * 0.69314718055994530942))
SIM_FN(log1p, 1.0 / (1.0 + x))
SIM_FN(sqrt, 0.5 / sqrt(x))
SIM_FN(cbrt, (1.0 / 3.0) / (cbrt(x) * cbrt(x)))
SIM_FN(cos, 0.0 - sin(x))
SIM_FN(sin, cos(x))
SIM_FN(tan, 1.0 / (cos(x) * cos(x)))
SIM_FN(asin, 1.0 / sqrt(1.0 - x * x))
SIM_FN(acos, -1.0 / sqrt(1.0 - x * x))
SIM_FN(atan, 1.0 / (1.0 + x * x))
SIM_FN(sinh, cosh(x))
SIM_FN(cosh, sinh(x))
SIM_FN(tanh, 1.0 / (cosh(x) * cosh(x)))
SIM_FN(asinh, 1.0 / sqrt(x * x + 1.0))
SIM_FN(acosh, 1.0 / sqrt(x * x - 1.0))
SIM_FN(atanh, 1.0 / (1.0 - x * x))
SIM_FN(erf, 1.12837916709551257390 * exp(0.0 - x * x))
SIM_FN(erfc, -1.12837916709551257390 * exp(0.0 - x * x))
#undef SIM_FN

template <class I, int N>
Dual<I, N> abs(const Dual<I, N>& a)
{
    if (std::fabs(prim(a)) < 1e-3)
        illConditioned = true;
    return prim(a) < 0 ? -a : a;
}
template <class I, int N>
Dual<I, N> fabs(const Dual<I, N>& a)
{
    return abs(a);
}
template <class I, int N>
Dual<I, N> max(const Dual<I, N>& a, const Dual<I, N>& b)
{
    if (std::fabs(prim(a) - prim(b)) < 1e-3)
        illConditioned = true;
    return prim(a) > prim(b) ? a : b;
}
template <class I, int N>
Dual<I, N> min(const Dual<I, N>& a, const Dual<I, N>& b)
{
    if (std::fabs(prim(a) - prim(b)) < 1e-3)
        illConditioned = true;
    return prim(a) < prim(b) ? a : b;
}
template <class I, int N>
Dual<I, N> max(const Dual<I, N>& a, double b)
{
    return max(a, Dual<I, N>(b));
}
template <class I, int N>
Dual<I, N> min(const Dual<I, N>& a, double b)
{
    return min(a, Dual<I, N>(b));
}
template <class I, int N>
Dual<I, N> fmax(const Dual<I, N>& a, const Dual<I, N>& b)
{
    return max(a, b);
}
template <class I, int N>
Dual<I, N> fmin(const Dual<I, N>& a, const Dual<I, N>& b)
{
    return min(a, b);
}
template <class I, int N>
Dual<I, N> pow(const Dual<I, N>& a, const Dual<I, N>& b)
{
    return exp(b * log(a));
}
template <class I, int N>
Dual<I, N> pow(const Dual<I, N>& a, double b)
{
    return exp(b * log(a));
}
template <class I, int N>
Dual<I, N> pow(double a, const Dual<I, N>& b)
{
    return exp(b * std::log(a));
}
template <class I, int N>
Dual<I, N> pown(const Dual<I, N>& a, int n)
{
    Dual<I, N> r = a;
    for (int i = 1; i < n; ++i) r = r * a;
    return r;
}
template <class I, int N>
Dual<I, N> ldexp(const Dual<I, N>& a, int n)
{
    return a * std::ldexp(1.0, n);
}
template <class I, int N>
Dual<I, N> hypot(const Dual<I, N>& a, const Dual<I, N>& b)
{
    return sqrt(a * a + b * b);
}
template <class I, int N>
Dual<I, N> fmod(const Dual<I, N>& a, double b)
{
    double q = prim(a) / b, t = std::trunc(q);
    if (std::fabs(q - std::round(q)) < 1e-3)
        illConditioned = true;
    return a - t * b;
}
template <class I, int N>
Dual<I, N> floor(const Dual<I, N>& a)
{
    if (std::fabs(prim(a) - std::round(prim(a))) < 1e-3)
        illConditioned = true;
    return Dual<I, N>(std::floor(prim(a)));
}
template <class I, int N>
Dual<I, N> radians(const Dual<I, N>& a)
{
    return a * (3.14159265358979323846 / 180.0);
}
template <class I, int N>
Dual<I, N> degrees(const Dual<I, N>& a)
{
    return a * (180.0 / 3.14159265358979323846);
}
template <class I, int N>
Dual<I, N> scalbn(const Dual<I, N>& a, int n)
{
    return a * std::ldexp(1.0, n);
}

// ---- functions with kinks, steps and further results
inline void kinkAt(double distance)
{
    if (!(std::fabs(distance) >= 2e-3))
        illConditioned = true;
}
template <class I, int N>
Dual<I, N> smoothAbs(const Dual<I, N>& x, const Dual<I, N>& c)
{
    const double px = prim(x), pc = prim(c);
    kinkAt(px);
    kinkAt(std::fabs(px) - pc);
    if (std::fabs(px) > pc)
        return px < 0 ? -x : x;
    if (px < 0)
        return x * x * (2.0 / c + x / (c * c));
    return x * x * (2.0 / c - x / (c * c));
}
#define SIM_MIXED(f, g)                                                                            \
    template <class I, int N>                                                                      \
    Dual<I, N> f(const Dual<I, N>& a, const Dual<I, N>& b)                                         \
    {                                                                                              \
        return g(a, b);                                                                            \
    }                                                                                              \
    template <class I, int N>                                                                      \
    Dual<I, N> f(const Dual<I, N>& a, double b)                                                    \
    {                                                                                              \
        return g(a, Dual<I, N>(b));                                                                \
    }                                                                                              \
    template <class I, int N>                                                                      \
    Dual<I, N> f(double a, const Dual<I, N>& b)                                                    \
    {                                                                                              \
        return g(Dual<I, N>(a), b);                                                                \
    }
SIM_MIXED(smooth_abs, smoothAbs)
template <class I, int N>
Dual<I, N> smooth_abs(const Dual<I, N>& x)
{
    return smoothAbs(x, Dual<I, N>(0.001));
}
template <class I, int N, class B>
Dual<I, N> smooth_max(const Dual<I, N>& x, const B& y)
{
    return 0.5 * (x + y + smooth_abs(x - y));
}
template <class I, int N, class B, class C>
Dual<I, N> smooth_max(const Dual<I, N>& x, const B& y, const C& c)
{
    return 0.5 * (x + y + smooth_abs(x - y, c));
}
template <class I, int N, class B>
Dual<I, N> smooth_min(const Dual<I, N>& x, const B& y)
{
    return 0.5 * (x + y - smooth_abs(x - y));
}
template <class I, int N, class B, class C>
Dual<I, N> smooth_min(const Dual<I, N>& x, const B& y, const C& c)
{
    return 0.5 * (x + y - smooth_abs(x - y, c));
}
template <class I, int N>
Dual<I, N> fmodAny(const Dual<I, N>& a, const Dual<I, N>& b)
{
    const double q = prim(a) / prim(b);
    kinkAt(q - std::round(q));
    return a - std::trunc(q) * b;
}
template <class I, int N>
Dual<I, N> fmod(const Dual<I, N>& a, const Dual<I, N>& b)
{
    return fmodAny(a, b);
}
template <class I, int N>
Dual<I, N> fmod(double a, const Dual<I, N>& b)
{
    return fmodAny(Dual<I, N>(a), b);
}
template <class I, int N>
Dual<I, N> remainderAny(const Dual<I, N>& a, const Dual<I, N>& b)
{
    const double q = prim(a) / prim(b);
    kinkAt(q - std::trunc(q) - (q < 0 ? -0.5 : 0.5));
    return a - std::nearbyint(q) * b;
}
SIM_MIXED(remainder, remainderAny)
template <class A, class B>
auto remquo(const A& a, const B& b, int*) -> decltype(remainder(a, b))
{
    return remainder(a, b);
}
#define SIM_STEP(f)                                                                                \
    template <class I, int N>                                                                      \
    Dual<I, N> f(const Dual<I, N>& a)                                                              \
    {                                                                                              \
        kinkAt(prim(a) * 2 - std::round(prim(a) * 2));                                             \
        return Dual<I, N>(std::f(prim(a)));                                                        \
    }
SIM_STEP(ceil)
SIM_STEP(trunc)
SIM_STEP(round)
template <class I, int N>
Dual<I, N> fromFirst(const Dual<I, N>& a, const Dual<I, N>&)
{
    return a;
}
SIM_MIXED(nextafter, fromFirst)
template <class I, int N>
Dual<I, N> fmax(const Dual<I, N>& a, double b)
{
    return max(a, Dual<I, N>(b));
}
template <class I, int N>
Dual<I, N> fmin(double a, const Dual<I, N>& b)
{
    return min(Dual<I, N>(a), b);
}
template <class I, int N>
Dual<I, N> max(double a, const Dual<I, N>& b)
{
    return max(Dual<I, N>(a), b);
}
template <class I, int N>
Dual<I, N> atan2Any(const Dual<I, N>& y, const Dual<I, N>& x)
{
    const double px = prim(x), py = prim(y), pi = 3.14159265358979323846;
    if (px * px + py * py < 0.05)
        illConditioned = true;
    if (px > std::fabs(py))
        return atan(y / x);
    if (py >= std::fabs(px))
        return 0.5 * pi - atan(x / y);
    if (py <= -std::fabs(px))
        return -0.5 * pi - atan(x / y);
    kinkAt(py);
    return (py > 0 ? pi : -pi) + atan(y / x);
}
template <class I, int N>
Dual<I, N> atan2(const Dual<I, N>& a, const Dual<I, N>& b)
{
    return atan2Any(a, b);
}
template <class I, int N>
Dual<I, N> atan2(const Dual<I, N>& a, double b)
{
    return atan2Any(a, Dual<I, N>(b));
}
template <class I, int N>
Dual<I, N> atan2(double a, const Dual<I, N>& b)
{
    return atan2Any(Dual<I, N>(a), b);
}
template <class I, int N>
Dual<I, N> hypot(const Dual<I, N>& a, double b)
{
    return hypot(a, Dual<I, N>(b));
}
template <class I, int N>
Dual<I, N> hypot(double a, const Dual<I, N>& b)
{
    return hypot(Dual<I, N>(a), b);
}
template <class I, int N>
Dual<I, N> pow(const Dual<I, N>& a, int n)
{
    if (n == 0)
        return Dual<I, N>(1.0);
    return n > 0 ? pown(a, n) : 1.0 / pown(a, -n);
}
template <class I, int N>
Dual<I, N> pow(const Dual<I, N>& a, unsigned n)
{
    return pow(a, int(n));
}
template <class I, int N>
Dual<I, N> frexp(const Dual<I, N>& a, int* e)
{
    const double m = std::frexp(prim(a), e);
    kinkAt(prim(a));
    kinkAt(std::fabs(m) - 0.5);
    kinkAt(std::fabs(m) - 1);
    return a * std::ldexp(1.0, -*e);
}
template <class I, int N, class T>
Dual<I, N> modf(const Dual<I, N>& a, T*)
{
    kinkAt(prim(a) - std::round(prim(a)));
    return a - std::trunc(prim(a));
}
template <class I, int N>
Dual<I, N> copysign(const Dual<I, N>& a, const Dual<I, N>& b)
{
    kinkAt(prim(a));
    kinkAt(prim(b));
    return (prim(a) < 0) == (prim(b) < 0) ? a : -a;
}
#define SIM_CMP(op)                                                                                \
    template <class I, int N>                                                                      \
    bool operator op(const Dual<I, N>& a, const Dual<I, N>& b)                                     \
    {                                                                                              \
        kinkAt(prim(a) - prim(b));                                                                 \
        return prim(a) op prim(b);                                                                 \
    }                                                                                              \
    template <class I, int N>                                                                      \
    bool operator op(const Dual<I, N>& a, double b)                                                \
    {                                                                                              \
        return a op Dual<I, N>(b);                                                                 \
    }                                                                                              \
    template <class I, int N>                                                                      \
    bool operator op(double a, const Dual<I, N>& b)                                                \
    {                                                                                              \
        return Dual<I, N>(a) op b;                                                                 \
    }
SIM_CMP(<)
SIM_CMP(>)
SIM_CMP(<=)
SIM_CMP(>=)
#undef SIM_CMP
#undef SIM_STEP
#undef SIM_MIXED
}  // namespace sim
