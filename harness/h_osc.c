/* Oscillator phase of the mixer (sig_source) and of the frequency modulator.
 * sin/cos are stand-ins that remember the angle they were asked for; fmodf is its contract (remainder with the sign of the
 * dividend, smaller than the divisor, congruent to the dividend).
 * -DFM modulator instead of mixer, -DRATE sampling rate, -DMAXB configured maximum,
 * -DCUTS block lengths ('+': longer than the maximum); every block has its own symbolic frequency */
#define VP_CUSTOM_sincos
#include "vp_env.h"
static float fm_in[32], fm_out[32], fm_by[32]; static int fm_n;
static double rem_(double x, double y, double r) {
#ifdef VP_CBMC
    VP_ASSUME(fabs(r) < fabs(y) && (x < 0 ? r <= 0 : r >= 0));
#else
    r = remainder(x, y);
    if (x < 0 && r > 0) r -= fabs(y);
    if (x >= 0 && r < 0) r += fabs(y);
#endif
    fm_in[fm_n] = (float) x; fm_out[fm_n] = (float) r; fm_by[fm_n] = (float) y; fm_n++;
    return r;
}
float fmodf(float x, float y) { return !(fabsf(x) >= fabsf(y)) ? x : (float) rem_(x, y, nd_f32()); }
double fmod(double x, double y) { return !(fabs(x) >= fabs(y)) ? x : rem_(x, y, nd_f64()); }
#include "dsp/sig_source.h"
#include "dsp/frequency_modulator.h"
#define VP_VOLK_INT
#include "vp_volk.h"
#define TWO_PI 6.2831855f
#define MAXN 16
#ifndef FREQ
#define FREQ nd_i64()
#endif
#ifdef WIDE
#define FINPUT fin[i] = nd_f32(); VP_ASSUME(fin[i] >= -1.0e12f && fin[i] <= 1.0e12f);
#else
#define FINPUT { int16_t v = (int16_t) nd_u16(); fin[i] = (float) v * 0.0625f; }
#endif
static float ang_c[MAXN + 1], ang_s[MAXN + 1], val_c[MAXN + 1], val_s[MAXN + 1];
static int nc, ns;
static float one(int *n, float *ang, float *val, float x) {
    VP_ASSERT(*n < MAXN, "one angle per output");
    VP_ASSUME(*n < MAXN);
    int8_t v = nd_i8();
    VP_ASSUME(v >= -4 && v <= 3);
    ang[*n] = x; val[*n] = (float) v; (*n)++;
    return (float) v;
}
float vp_cosf(float x) { return one(&nc, ang_c, val_c, x); }
float vp_sinf(float x) { return one(&ns, ang_s, val_s, x); }
double vp_cos(double x) { return vp_cosf((float) x); }
double vp_sin(double x) { return vp_sinf((float) x); }
void vp_sincos(double x, double *s, double *c) { *c = vp_cos(x); *s = vp_sin(x); }
void vp_sincosf(float x, float *s, float *c) { *c = vp_cosf(x); *s = vp_sinf(x); }
static float fin[MAXB + 2];
static vp_cf cin_[MAXB + 2];
static float px[MAXB + 2][2];
/* a equals b up to whole turns */
static bool congruent(float a, float b) {
    if (a == b) return true;
    float d = fabsf(a) - fabsf(b) - TWO_PI;
    if (fabsf(a) <= 2 * TWO_PI && (a < 0 ? b <= 0 : b >= 0) && d > -0.00001f && d < 0.00001f) return true;
#ifdef VP_CBMC
    for (int i = 0; i < fm_n; i++) if (fm_in[i] == a && fm_out[i] == b && fm_by[i] == TWO_PI) return true;
    return false;
#else
    return fabs(remainder((double) a - (double) b, (double) TWO_PI)) < 0.0001;
#endif
}
static void check_step(float prev, float step, float next) {
    VP_ASSERT(next >= -TWO_PI && next <= TWO_PI, "the phase stays within one turn");
    VP_ASSERT(congruent(prev + step, next), "the phase advances by exactly the requested step");
}
VP_MAIN {
#ifdef FM
    frequency_modulator *o = NULL;
    int code = frequency_modulator_create(SENS, MAXB, &o);
#else
    sig_source *o = NULL;
    int code = sig_source_create(AMP, RATE, MAXB, &o);
#endif
    VP_ASSERT(code == 0 && o != NULL, "an oscillator is created when memory is available");
    VP_ASSUME(code == 0);
    const char *cuts = CUTS;
    int n = 0;
    float phase = 0, step = 0;
    for (int b = 0; cuts[b] != 0; b++) {
        vp_cf *out = NULL; size_t out_len = 77;
        int len = cuts[b] == '+' ? MAXB + 1 : cuts[b] - '0';
#ifdef FM
        for (int i = 0; i < len && i < MAXB + 1; i++) { FINPUT }
        frequency_modulator_process(fin, (size_t) len, &out, &out_len, o);
#else
        int64_t freq = FREQ;
        for (int i = 0; i < len && i < MAXB + 1; i++)
            for (int w = 0; w < 2; w++) { int8_t v = nd_i8(); VP_ASSUME(v >= -2 && v <= 1); px[i][w] = (float) v; ((float *) &cin_[i])[w] = (float) v; }
        sig_source_multiply(freq, cin_, (size_t) len, &out, &out_len, o);
#endif
        if (len > MAXB) { VP_ASSERT(out_len == 0, "a block longer than configured is refused"); continue; }
        VP_ASSERT(out_len == (size_t) len, "one output per input");
        VP_ASSERT(nc == n + len && ns == n + len, "one angle per output");
        VP_ASSUME(nc == n + len && ns == n + len);
        for (int k = 0; k < len; k++) {
            int p = n + k;
            VP_ASSERT(ang_c[p] == ang_s[p], "both parts of an output use the same angle");
#ifdef FM
            check_step(phase, SENS * fin[k], ang_c[p]);
            VP_ASSERT(vp_re(out[k]) == val_c[p] && vp_im(out[k]) == val_s[p], "each output is the unit vector at the phase");
#else
            if (p == 0) VP_ASSERT(ang_c[0] == 0.0f, "the oscillator starts at phase zero");
            else check_step(phase, step, ang_c[p]);
            step = TWO_PI * (float) freq / RATE;
            VP_ASSERT(vp_re(out[k]) == AMP * (val_c[p] * px[k][0] - val_s[p] * px[k][1]) && vp_im(out[k]) == AMP * (val_c[p] * px[k][1] + val_s[p] * px[k][0]), "each output is the input turned by the phase");
#endif
            phase = ang_c[p];
        }
        n += len;
    }
    VP_COVER("end");
#ifdef FM
    frequency_modulator_destroy(o);
#else
    sig_source_destroy(o);
#endif
    VP_ASSERT(vp_live == 0, "destroying the oscillator releases everything");
}
