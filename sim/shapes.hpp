// Expressions used by the workloads, written once and evaluated with the library's active types and
// with the model's dual numbers. a, b, c: variables; k: constant in [0.5, 2); N: the plain number
// type. All are smooth and bounded for arguments in [-6, 6] (kinks are detected by the model).
#pragma once
namespace sim
{
// for further results of functions
inline int* shapeInt()
{
    static thread_local int i;
    return &i;
}
template <class N>
N* shapeNum()
{
    static thread_local N n;
    return &n;
}
template <class T>
const T& pick(bool first, const T& a, const T& b)
{
    return first ? a : b;
}
}  // namespace sim
// clang-format off
#define SIM_SHAPES(X) \
 X(0, 1, sin(a)) \
 X(1, 1, cos(a)*k) \
 X(2, 1, tanh(a)) \
 X(3, 1, atan(a)) \
 X(4, 1, exp(N(-0.3)*a)*N(0.5)) \
 X(5, 1, log(a*a + N(1.2))) \
 X(6, 1, sqrt(a*a + N(0.7))) \
 X(7, 1, asinh(a)) \
 X(8, 1, erf(a)) \
 X(9, 1, erfc(a)) \
 X(10, 1, log1p(a*a)) \
 X(11, 1, expm1(-a*a)*k) \
 X(12, 1, N(1)/(a*a + N(1))) \
 X(13, 1, abs(a)) \
 X(14, 1, fabs(a) - k) \
 X(15, 1, pow(a*a + N(1), N(0.7))) \
 X(16, 1, pow(N(1.3), a)) \
 X(17, 1, a*a*N(0.2)) \
 X(18, 1, -a) \
 X(19, 1, a + k) \
 X(20, 1, k - a) \
 X(21, 1, a*k) \
 X(22, 1, k*a) \
 X(23, 1, a/(k + N(1))) \
 X(24, 1, k/(a*a + N(1))) \
 X(25, 1, asin(N(0.9)*sin(a))) \
 X(26, 1, acos(N(0.9)*sin(a))) \
 X(27, 1, tan(tanh(a))) \
 X(28, 1, atanh(N(0.8)*tanh(a))) \
 X(29, 1, acosh(a*a + N(1.5))) \
 X(30, 1, sinh(tanh(a))) \
 X(31, 1, cosh(sin(a))) \
 X(32, 1, cbrt(a*a + N(1))) \
 X(33, 1, exp2(sin(a))) \
 X(34, 1, log10(a*a + k)) \
 X(35, 1, log2(a*a + k)) \
 X(36, 1, radians(a)*k) \
 X(37, 1, degrees(a*N(0.01))) \
 X(38, 1, max(a, N(k))) \
 X(39, 1, min(a, N(k))) \
 X(40, 1, fmod(a + N(20), N(7.3))) \
 X(41, 1, ldexp(a, -1)) \
 X(42, 1, pown(a, 3)*N(0.05)) \
 X(43, 1, a - floor(a)) \
 X(44, 2, a + b) \
 X(45, 2, a - b) \
 X(46, 2, a*b*N(0.5)) \
 X(47, 2, a/(b*b + N(1))) \
 X(48, 2, atan2(a, b*b + N(1))) \
 X(49, 2, hypot(a, b*b + N(1))) \
 X(50, 2, max(a, b)) \
 X(51, 2, min(a, b)) \
 X(52, 2, fmax(a, b)) \
 X(53, 2, fmin(a, b)) \
 X(54, 2, pow(a*a + N(1), sin(b))) \
 X(55, 2, sin(a)*cos(b)) \
 X(56, 2, (a + b)*(a - b)*N(0.1)) \
 X(57, 2, a*k + b) \
 X(58, 2, a*b) \
 X(59, 2, a - b*k) \
 X(60, 2, tanh(a*b) + a) \
 X(61, 3, a*b + c) \
 X(62, 3, (a + b*c)/(c*c + N(1))) \
 X(63, 3, exp(-a*a)*b + c) \
 X(64, 3, a + b + c) \
 X(65, 3, a*b*c*N(0.1)) \
 X(66, 3, sqrt(a*a + b*b + c*c + N(1))) \
 X(67, 3, a - b/(c*c + k)) \
 X(68, 3, tanh(a*b) + c*k) \
 X(69, 3, sin(a*b + c)*cos(a - k) + b*N(0.5)) \
 X(70, 3, (a*b + b*c + c*a)*N(0.1) - a*k) \
 X(71, 1, smooth_abs(a, N(2))) \
 X(72, 1, smooth_abs(a)*k) \
 X(73, 1, smooth_abs(N(0.7), a*a + N(0.5))) \
 X(74, 1, smooth_max(a, k, N(1.5))) \
 X(75, 1, fmod(a, N(2.3))) \
 X(76, 1, fmod(N(-7.7), a*a + N(1))) \
 X(77, 1, remainder(a*N(3), N(2.3))) \
 X(78, 1, remainder(N(30), a*a + N(1))*N(0.2)) \
 X(79, 1, a*ceil(a)*N(0.3)) \
 X(80, 1, a - trunc(a)*k) \
 X(81, 1, round(a) + a) \
 X(82, 1, nextafter(a, N(100))) \
 X(83, 1, fmax(a, k)) \
 X(84, 1, fmin(k, a)) \
 X(85, 1, max(k, a)) \
 X(86, 1, atan2(k, a)) \
 X(87, 1, atan2(a*a + N(0.1), N(-1.5))) \
 X(88, 1, hypot(a, k)) \
 X(89, 1, hypot(k, a)) \
 X(90, 1, pow(a, 3)*N(0.05)) \
 X(91, 1, pow(a, 2u)*N(0.1)) \
 X(92, 1, pow(a, 0u) + a) \
 X(93, 1, pow(a*a + N(1), -2)*k) \
 X(94, 1, frexp(a, shapeInt())*k) \
 X(95, 1, modf(a, shapeNum<N>())) \
 X(96, 1, 2*a - 1) \
 X(97, 1, (1 + a)/2) \
 X(98, 1, 3/(a*a + 1)) \
 X(99, 1, frexp(a, shapeInt())*frexp(a*a + N(1), shapeInt())) \
 X(100, 1, (+a)*k) \
 X(101, 1, exp(sin(cos(a*k)))) \
 X(102, 1, abs(a*k - N(1))) \
 X(103, 1, ldexp(a*a, -3)) \
 X(104, 1, ldexp(a, 2)*k*N(0.2)) \
 X(105, 1, remquo(a, N(1.7), shapeInt())) \
 X(106, 1, remquo(N(20), a*a + N(1), shapeInt())*N(0.3)) \
 X(107, 1, pick(a > k, a*k, a*N(0.3))) \
 X(108, 1, a - 1u) \
 X(109, 2, pick(a > b, a, b)*k + a*b*N(0.1)) \
 X(110, 2, pick(a*k <= b, b, a) + a - b*N(0.3)) \
 X(111, 2, smooth_abs(a, b*b + N(1))) \
 X(112, 2, smooth_max(a, b)) \
 X(113, 2, smooth_min(a, b, N(2))) \
 X(114, 2, fmod(a, b*b + N(1))) \
 X(115, 2, remainder(a*N(5), b*b + N(0.4))) \
 X(116, 2, remquo(a*N(5), b*b + N(0.4), shapeInt())) \
 X(117, 2, nextafter(a, b)) \
 X(118, 2, atan2(a, b*k - N(1))) \
 X(119, 2, hypot(a, b)) \
 X(120, 2, pow(a*a + N(1), b*N(0.3))) \
 X(121, 2, max(a*k, b)) \
 X(122, 2, min(a + b, a*b)) \
 X(123, 2, fmax(a*b, a)*N(0.3)) \
 X(124, 2, fmin(a, b*k) + b*k) \
 X(125, 2, (a - b)*k - (b + a)/N(3)) \
 X(126, 3, max(a, b)*c*N(0.2)) \
 X(127, 3, (a - b)/(c*c + N(2)) - (b - c)*k) \
 X(128, 3, a*(b + c) - b*(c - a) + c*(a - k)) \
 X(129, 3, pick(a < b, c, a)*b*N(0.2) - (a + c)*N(0.4)) \
 X(130, 3, (a*k + b - sin(c) + a*c - b*k + c - sin(a) + b*a - c*k + a - sin(b) + c*b - a*k + b)*N(0.05)) \
 X(131, 3, (((((a*k - (b*b + sin(c))) - ((a + b*k) + (c*c + sin(a)))) + ((b - (c*k + a*b)) - ((sin(b) + c) + (a*k + b*c)))) + (((sin(c) - (a + b*k)) - ((c*a + sin(a)) + (b + c*k))) + ((a*c - (sin(b) + c)) - ((a*k + b*a) + (sin(c) + a))))) + ((((b*k - (c*b + sin(a))) - ((b + c*k) + (a*a + sin(b)))) + ((c - (a*k + b*b)) - ((sin(c) + a) + (b*k + c*c)))) + (((sin(a) - (b + c*k)) - ((a*b + sin(b)) + (c + a*k))) + ((b*c - (sin(c) + a)) - ((b*k + c*a) + (sin(a) + b))))))*N(0.01)) \
 X(132, 1, smooth_abs(N(-0.7), a*a + N(0.5))*k)
#define SIM_NUM_SHAPES 133
// clang-format on
