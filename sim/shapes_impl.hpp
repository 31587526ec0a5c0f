// the expressions, for one type
#pragma once
#include "shapes.hpp"
#include <cstdlib>
#include <new>

namespace sim
{
template <class T, class N>
void evalShape(T& out, int s, const T& a, const T& b, const T& c, N k)
{
    switch (s)
    {
#define X(i, n, ...) case i: out = __VA_ARGS__; break;
        SIM_SHAPES(X)
#undef X
        default: std::abort();
    }
    (void)b; (void)c; (void)k;
}
template <class A, class N>
A* newShape(void* mem, int s, const A& a, const A& b, const A& c, N k)
{
    switch (s)
    {
#define X(i, n, ...) case i: return ::new (mem) A(__VA_ARGS__);
        SIM_SHAPES(X)
#undef X
        default: std::abort();
    }
    (void)b; (void)c; (void)k;
}
template <class A, class N>
void assignShape(A& x, int s, const A& a, const A& b, const A& c, N k)
{
    switch (s)
    {
#define X(i, n, ...) case i: x = __VA_ARGS__; break;
        SIM_SHAPES(X)
#undef X
        default: std::abort();
    }
    (void)b; (void)c; (void)k;
}
}  // namespace sim
