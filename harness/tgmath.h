/* stands in for <tgmath.h>, whose compiler builtin CBMC does not know: the same selection by argument type */
#ifndef VP_TGMATH_H
#define VP_TGMATH_H
#include <math.h>
#include <complex.h>
#ifdef VP_REAL_MATH
#define VP_T(n) n
#define VP_TF(n) n##f
#else
#define VP_T(n) vp_##n
#define VP_TF(n) vp_##n##f
#endif
#define VP_G1(f, d, x) _Generic((x), float: f, default: d)(x)
#define VP_G2(f, d, x, y) _Generic((x) , float: _Generic((y), float: f, default: d), default: d)(x, y)
#undef sin
#undef cos
#undef tan
#undef exp
#undef log
#undef sqrt
#undef pow
#undef atan
#undef atan2
#undef asin
#undef acos
#define sin(x) VP_G1(VP_TF(sin), VP_T(sin), x)
#define cos(x) VP_G1(VP_TF(cos), VP_T(cos), x)
#define tan(x) VP_G1(VP_TF(tan), VP_T(tan), x)
#define exp(x) VP_G1(VP_TF(exp), VP_T(exp), x)
#define log(x) VP_G1(VP_TF(log), VP_T(log), x)
#define sqrt(x) VP_G1(VP_TF(sqrt), VP_T(sqrt), x)
#define pow(x, y) VP_G2(VP_TF(pow), VP_T(pow), x, y)
#define atan(x) VP_G1(VP_TF(atan), VP_T(atan), x)
#define atan2(x, y) VP_G2(VP_TF(atan2), VP_T(atan2), x, y)
#define asin(x) VP_G1(VP_TF(asin), VP_T(asin), x)
#define acos(x) VP_G1(VP_TF(acos), VP_T(acos), x)
#define fmax(x, y) VP_G2(fmaxf, fmax, x, y)
#define fmin(x, y) VP_G2(fminf, fmin, x, y)
#define fabs(x) VP_G1(fabsf, fabs, x)
#define ceil(x) VP_G1(ceilf, ceil, x)
#define floor(x) VP_G1(floorf, floor, x)
#define round(x) VP_G1(roundf, round, x)
#define rint(x) VP_G1(rintf, rint, x)
#define lround(x) VP_G1(lroundf, lround, x)
#define lrint(x) VP_G1(lrintf, lrint, x)
#define trunc(x) VP_G1(truncf, trunc, x)
#define fmod(x, y) VP_G2(fmodf, fmod, x, y)
#define hypot(x, y) VP_G2(hypotf, hypot, x, y)
#endif
