/* Filter design.  Trigonometric functions are solver variables with few values, constrained only to be functions: sin odd, cos even and periodic, exp even in the square.
 * -DREFUSE: every impossible setting; -DSIZE: every possible setting with at most SIZE taps; otherwise -DFS -DCUT -DTW: the design for one setting; -DGAUSS n */
#define VP_CUSTOM_sincos
#define VP_CUSTOM_explog
#include "vp_env.h"
#include "dsp/lpf_taps.h"
#include "dsp/gaussian_taps.h"
#define NF 40
static double sx[NF], sv[NF], cx[NF], cv[NF], ex[NF], ev[NF]; static int ns, nc, ne;
#define TWO_PI 6.283185307179586
#ifdef SYMV
static double sval(void) { if (nd_bool()) return 0.25; return 0.75; }
#else
static double sval(void) { return 0.5; }
#endif
#if defined(REFUSE) || defined(SIZE)
double vp_sin(double x) { (void) x; return 0.5; }
double vp_cos(double x) { (void) x; return 0.5; }
#else
double vp_sin(double x) {
    double a = x < 0 ? -x : x, s = x < 0 ? -1 : 1;
    for (int i = 0; i < ns; i++) if (a - sx[i] < 1e-9 && sx[i] - a < 1e-9) return s * sv[i];
    VP_ASSERT(ns < NF, "model: number of different arguments");
    sx[ns] = a; sv[ns] = sval();
    return s * sv[ns++];
}
double vp_cos(double x) {
    VP_ASSERT(x > -1e-9 && x < TWO_PI + 1e-9, "model: one turn");
    double a = x > TWO_PI / 2 ? TWO_PI - x : x;
    for (int i = 0; i < nc; i++) if (a - cx[i] < 1e-6 && cx[i] - a < 1e-6) return cv[i];
    VP_ASSERT(nc < NF, "model: number of different arguments");
    cx[nc] = a; cv[nc] = sval();
    return cv[nc++];
}
#endif
float vp_sinf(float x) { return (float) vp_sin(x); }
float vp_cosf(float x) { return (float) vp_cos(x); }
void vp_sincos(double x, double *s, double *c) { *s = vp_sin(x); *c = vp_cos(x); }
void vp_sincosf(float x, float *s, float *c) { *s = vp_sinf(x); *c = vp_cosf(x); }
double vp_exp(double x) {
    VP_ASSERT(x <= 0, "the bell curve never grows");
    for (int i = 0; i < ne; i++) if (x - ex[i] < 1e-9 && ex[i] - x < 1e-9) return ev[i];
    VP_ASSERT(ne < NF, "model: number of different arguments");
    ex[ne] = x; ev[ne] = sval();
    return ev[ne++];
}
double vp_log(double x) { VP_ASSERT(x == 2.0, "model: log of two"); return 0.6931471805599453; }
double vp_sqrt(double x) { VP_ASSERT(x > 0.693 && x < 0.694, "model: root of log of two"); return 0.8325546111576977; }
double vp_pow(double x, double y) { (void) y; return x * x; }
double vp_tan(double x) { return x; }
float vp_expf(float x) { return (float) vp_exp(x); }

VP_MAIN {
    float *t = NULL; size_t n = 12345;
    vp_fail_alloc = FAILN;
#if defined(GAUSS)
    int code = gaussian_taps_create(GAIN, SPS, BT, GAUSS, &t);
#if FAILN
    VP_ASSERT(code != 0 && t == NULL && vp_live == 0, "a failed design hands out nothing"); VP_COVER("end"); return;
#endif
    VP_ASSERT(code == 0 && t != NULL && vp_live == 1, "a design is made when memory is available");
    float sum = 0;
    for (int i = 0; i < GAUSS; i++) { VP_ASSERT(t[i] > 0, "the bell curve is positive"); sum += t[i]; }
    VP_ASSERT(sum > (float) GAIN * 0.999f && sum < (float) GAIN * 1.001f, "the taps add up to the gain");
    /* the curve is centred on the sample before the middle */
    for (int i = 0; i + 1 < GAUSS; i++) VP_ASSERT(t[i] == t[GAUSS - 2 - i], "the bell curve is symmetric");
    free(t);
    VP_ASSERT(vp_live == 0, "the taps are one block");
#if !FAILN
    VP_COVER("end");
#endif
#elif defined(REFUSE)
    uint64_t fs = nd_u64(), cut = nd_u64(); uint32_t w = nd_u32();
    VP_ASSUME(fs == 0 || cut == 0 || cut > fs / 2 + fs % 2 || w == 0);
    VP_ASSUME(fs < ((uint64_t) 1 << BITS) && cut < ((uint64_t) 1 << BITS));
    int code = create_low_pass_filter(1.0f, fs, cut, w, &t, &n);
    VP_ASSERT(code != 0 && t == NULL && vp_live == 0, "impossible settings are refused and leave nothing");
    VP_COVER("end");
#elif defined(SIZE)
    uint64_t fs = nd_u32() & ((1u << BITS) - 1), cut = nd_u32() & ((1u << BITS) - 1); uint32_t w = WID;
    VP_ASSUME(fs > 0 && cut > 0 && cut <= fs / 2 && w > 0);
    VP_ASSUME(53 * fs < (uint64_t) (SIZE + 1) * 22 * w);
    int code = create_low_pass_filter(1.0f, fs, cut, w, &t, &n);
#if FAILN
    VP_ASSERT(code != 0 && t == NULL && vp_live == 0, "a failed design hands out nothing"); VP_COVER("end"); return;
#endif
    VP_ASSERT(code == 0 && t != NULL, "possible settings are accepted");
    VP_ASSERT(n % 2 == 1 && n <= SIZE, "the number of taps is odd");
    VP_ASSERT((n - 1) * 22 * w <= 53 * fs && 53 * fs < (n + 1) * 22 * w, "the number of taps follows rate over transition width");
    VP_ASSERT(vp_live == 1, "only the taps stay allocated");
    VP_COVER("end");
#else
    int code = create_low_pass_filter(GAIN, FS, CUT, TW, &t, &n);
#if FAILN
    VP_ASSERT(code != 0 && t == NULL && vp_live == 0, "a failed design hands out nothing"); VP_COVER("end"); return;
#endif
    VP_ASSERT(code == 0 && t != NULL && vp_live == 1, "possible settings are accepted");
    VP_ASSERT(n == NT, "the number of taps follows rate over transition width");
    float sum = 0;
    for (int i = 0; i < NT; i++) {
        float d = t[i] - t[NT - 1 - i];
        VP_ASSERT(d < 1e-6f && d > -1e-6f, "the taps are symmetric");
        sum += t[i];
    }
    VP_ASSERT(sum > GAIN * 0.999f && sum < GAIN * 1.001f, "the taps add up to the gain");
    free(t);
    VP_ASSERT(vp_live == 0, "the taps are one block");
#if !FAILN
    VP_COVER("end");
#endif
#endif
}
