// Programs with complex numbers, written once and evaluated with std::complex of the library's active
// types and with the model's own complex numbers.
#pragma once
#include "core.hpp"
#include "dual.hpp"
#include <complex>
#include <vector>

namespace sim
{
// the model's complex numbers
template <class P>
struct Cx
{
    P re, im;
    Cx() {}
    Cx(const P& r, const P& i) : re(r), im(i) {}
    explicit Cx(const P& r) : re(r) {}
    const P& real() const { return re; }
    const P& imag() const { return im; }
    void real(const P& r) { re = r; }
    void imag(const P& i) { im = i; }
    Cx& operator=(const P& r)
    {
        re = r;
        im = P(0.0);
        return *this;
    }
    friend Cx operator+(const Cx& a, const Cx& b) { return Cx(a.re + b.re, a.im + b.im); }
    friend Cx operator-(const Cx& a, const Cx& b) { return Cx(a.re - b.re, a.im - b.im); }
    friend Cx operator*(const Cx& a, const Cx& b) { return Cx(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re); }
    friend Cx operator/(const Cx& a, const Cx& b)
    {
        P n = b.re * b.re + b.im * b.im;
        return Cx((a.re * b.re + a.im * b.im) / n, (a.im * b.re - a.re * b.im) / n);
    }
    friend Cx operator+(const Cx& a, const P& b) { return Cx(a.re + b, a.im); }
    friend Cx operator-(const Cx& a, const P& b) { return Cx(a.re - b, a.im); }
    friend Cx operator*(const Cx& a, const P& b) { return Cx(a.re * b, a.im * b); }
    friend Cx operator/(const Cx& a, const P& b) { return Cx(a.re / b, a.im / b); }
    friend Cx operator+(const P& a, const Cx& b) { return Cx(a + b.re, b.im); }
    friend Cx operator-(const P& a, const Cx& b) { return Cx(a - b.re, -b.im); }
    friend Cx operator*(const P& a, const Cx& b) { return Cx(a * b.re, a * b.im); }
    friend Cx operator/(const P& a, const Cx& b) { return Cx(a, P(0.0)) / b; }
    friend Cx operator-(const Cx& a) { return Cx(-a.re, -a.im); }
    template <class X>
    Cx& operator+=(const X& b) { return *this = *this + b; }
    template <class X>
    Cx& operator-=(const X& b) { return *this = *this - b; }
    template <class X>
    Cx& operator*=(const X& b) { return *this = *this * b; }
    template <class X>
    Cx& operator/=(const X& b) { return *this = *this / b; }
    friend Cx conj(const Cx& a) { return Cx(a.re, -a.im); }
    friend P norm(const Cx& a) { return a.re * a.re + a.im * a.im; }
    friend P abs(const Cx& a) { return sqrt(a.re * a.re + a.im * a.im); }
    friend Cx exp(const Cx& a)
    {
        P e = exp(a.re);
        return Cx(e * cos(a.im), e * sin(a.im));
    }
    friend Cx sin(const Cx& a) { return Cx(sin(a.re) * cosh(a.im), cos(a.re) * sinh(a.im)); }
    friend Cx cosh(const Cx& a) { return Cx(cosh(a.re) * cos(a.im), sinh(a.re) * sin(a.im)); }
};

template <class C, class R, class N, class Check>
void cplxProgram(R& out, int64_t code, const R& a, const R& b, const R& c, N kk, const C* extra, Check check)
{
    Rng r{uint64_t(code)};
    const R k(kk);
    std::vector<C> z;
    z.push_back(C(a, b));
    z.push_back(C(c, a));
    if (r.below(4) == 0)
        z.push_back(*extra);
    const int n = 1 + int(r.below(5));
    for (int s = 0; s < n; ++s)
    {
        const size_t i = size_t(r.below(z.size())), j = size_t(r.below(z.size()));
        switch (int(r.below(27)))
        {
            case 0: z.push_back(z[i] + z[j]); break;
            case 1: z.push_back(z[i] - z[j]); break;
            case 2: z.push_back(z[i] * z[j]); break;
            case 3:
            {
                C den(R(z[j].real() * z[j].real() + k), z[j].imag());
                z.push_back(z[i] / den);
                break;
            }
            case 4: z.push_back(conj(z[i])); break;
            case 5: z.push_back(z[i] + c); break;
            case 6: z.push_back(k - z[i]); break;
            case 7: z.push_back(a * z[i]); break;
            case 8: z[i] = z[i] / R(c * c + k); break;
            case 9: z[i] += z[j]; break;
            case 10: z[i] -= z[j]; break;
            case 11: z[i] *= z[j]; break;
            case 12:
            {
                C den(R(z[j].real() * z[j].real() + k), z[j].imag());
                z[i] /= den;
                break;
            }
            case 13: z[i] *= b; break;
            case 14: z[i] += k; break;
            case 15: z[i] = c; break;
            case 16: z[i] = z[j]; break;
            case 17: z.push_back(exp(z[i] * R(N(0.25)))); break;
            case 18: z.push_back(-z[i]); break;
            case 19:
                if (i != j)
                    std::swap(z[i], z[j]);
                break;
            case 20:
                if (z.size() > 1)
                    z.erase(z.begin() + long(i));
                break;
            case 21:
            {
                const C q = z[j];
                z.insert(z.begin() + long(i), q);
                break;
            }
            case 22:
            {
                const R q = z[j].imag();
                z[i].real(q);
                break;
            }
            case 23:
            {
                const R q = scalbn(z[j].real() * k, -1);
                z[i].real(q);
                break;
            }
            case 24: z.push_back(C(copysign(a, z[i].imag()), b)); break;
            case 25:
            {
                const R q = copysign(b + c * k, z[i].real());
                z[i].imag(q);
                break;
            }
            default:
            {
                C q(z[i]);
                C q2(std::move(q));
                q = z[j];
                z[i] = std::move(q2);
                z[j] = std::move(q);
                break;
            }
        }
        for (auto& q : z) check(q);
    }
    const C& q = z[size_t(r.below(z.size()))];
    switch (int(r.below(5)))
    {
        case 0: out = q.real() + q.imag() * k; break;
        case 1: out = norm(q) * N(0.125); break;
        case 2: out = q.imag() * N(1); break;
        case 3: out = abs(C(R(q.real() * q.real() + k), q.imag())) * N(1); break;
        default: out = q.real() * z[0].imag(); break;
    }
}
}  // namespace sim
