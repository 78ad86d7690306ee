/* Demodulation chain: the real fsk_demod.c over model stages that check what they are given.
 * -DFS -DBAUD -DDEV -DDEC signal settings (transition width and block limit are solver variables), -DDC mean removal,
 * -DBLOCKS "abc;abc": per block the number of samples, of filtered samples and of recovered symbols. -DCREATE: any one stage fails, or allocation FAILN */
#include "vp_env.h"
#include "vp_volk.h"
#include "dsp/fsk_demod.h"
#include "dsp/lpf.h"
#include "dsp/quadrature_demod.h"
#include "dsp/dc_blocker.h"
#include "dsp/clock_recovery_mm.h"
#ifndef FAILN
#define FAILN 0
#endif
#define CAP 8
static uint32_t tw, max;
static char s1, s2, sq, sd, sc; static int live[5], made[5];
static int n_step, stepat; static bool hit;
static bool step_fails(void) {
#ifdef CREATE
    if (hit || ++n_step != stepat) return false;
    hit = true; return true;
#else
    return false;
#endif
}
static bool near(double a, double b) { double d = a - b, e = b < 0 ? -b : b; if (d < 0) d = -d; return d <= e * 1e-4 + 1e-9; }
static float in[2 * CAP], f1[2 * CAP], q[CAP], f2[CAP], m[CAP], sym[CAP];
static size_t n_in, n_f2, n_sym; static int at;    /* at: stages passed by the current block */
static float pick(void) { uint8_t v = nd_u8(); return (float) (int8_t) v / 32.0f; }

int lpf_create(uint8_t dec, uint64_t fs, uint64_t cut, uint32_t w, size_t n, size_t bytes, lpf **r) {
    VP_ASSERT(fs == FS && n >= max, "filters are made for the rate and the largest block");
    double want = (DEV < 0 ? -(double) (DEV) : (double) (DEV)) + BAUD / 2.0;
    if (bytes == 2 * sizeof(float)) {
        VP_ASSERT(dec == 1 && made[0] == 0, "the input filter keeps the rate");
        VP_ASSERT((double) cut >= want - 1 && (double) cut <= want + 1 && (double) w >= 0.1 * want - 1.5 && (double) w <= 0.1 * want + 1.5, "the input filter passes the bandwidth of the signal");
        if (step_fails()) return -1;
        made[0]++; live[0]++; *r = (lpf *) &s1;
    } else {
        VP_ASSERT(bytes == sizeof(float) && dec == DEC && (double) cut >= BAUD / 2.0 - 1 && (double) cut <= BAUD / 2.0 + 1 && w == tw && made[2] == 0, "the second filter passes the symbol rate and decimates");
        if (step_fails()) return -1;
        made[2]++; live[2]++; *r = (lpf *) &s2;
    }
    return 0;
}
void lpf_process(const void *i, size_t n, void **o, size_t *on, lpf *f) {
    if (f == (lpf *) &s1) {
        VP_ASSERT(live[0] == 1 && at == 0 && i == (const void *) in && n == n_in, "the input filter gets the block");
        *o = f1; *on = n_in; at = 1;
    } else {
        VP_ASSERT(f == (lpf *) &s2 && live[2] == 1 && at == 2 && i == (const void *) q && n == n_in, "the second filter gets the frequency");
        *o = f2; *on = n_f2; at = 3;
    }
}
void lpf_destroy(lpf *f) { int k = f == (lpf *) &s1 ? 0 : 2; VP_ASSERT((k == 0 || f == (lpf *) &s2) && live[k] == 1, "a filter is released once"); live[k]--; }
int quadrature_demod_create(float g, uint32_t n, quadrature_demod **r) {
    VP_ASSERT(near(g, (double) FS / (2 * 3.14159265358979 * (double) (DEV))) || (DEV < 0 && near(-g, (double) FS / (2 * 3.14159265358979 * -(double) (DEV)))), "one deviation of frequency is one unit");
    VP_ASSERT(n >= max && made[1] == 0, "the frequency detector is made for the largest block");
    if (step_fails()) return -1;
    made[1]++; live[1]++; *r = (quadrature_demod *) &sq;
    return 0;
}
void quadrature_demod_process(float complex *i, size_t n, float **o, size_t *on, quadrature_demod *d) {
    VP_ASSERT(d == (quadrature_demod *) &sq && live[1] == 1 && at == 1 && (float *) i == f1 && n == n_in, "the frequency detector gets the filtered block");
    *o = q; *on = n_in; at = 2;
}
void quadrature_demod_destroy(quadrature_demod *d) { VP_ASSERT(d == (quadrature_demod *) &sq && live[1] == 1, "the frequency detector is released once"); live[1]--; }
int dc_blocker_create(int len, dc_blocker **r) {
    double sps = (double) FS / BAUD / DEC;
    VP_ASSERT(DC && made[3] == 0, "the mean is removed only on request");
    VP_ASSERT((double) len >= 32 * sps - 1 && (double) len <= 32 * sps + 1.01, "the mean is taken over 32 symbols");
    if (step_fails()) return -1;
    made[3]++; live[3]++; *r = (dc_blocker *) &sd;
    return 0;
}
void dc_blocker_process(float *i, size_t n, float **o, size_t *on, dc_blocker *d) {
    VP_ASSERT(d == (dc_blocker *) &sd && live[3] == 1 && at == 3 && i == f2 && n == n_f2, "the mean is removed from the decimated signal");
    *o = m; *on = n_f2; at = 4;
}
void dc_blocker_destroy(dc_blocker *d) { VP_ASSERT(d == (dc_blocker *) &sd && live[3] == 1, "the mean filter is released once"); live[3]--; }
int clock_mm_create(float om, float gom, float mu, float gmu, float lim, size_t n, clock_mm **r) {
    double sps = (double) FS / BAUD / DEC;
    VP_ASSERT(near(om, sps) && near(gom, sps * 3.14159265358979 / 100) && mu == 0.5f && near(gmu, 0.0625) && near(lim, 0.01), "symbols are recovered at the decimated symbol length");
    VP_ASSERT(n >= (size_t) (max) && made[4] == 0, "symbol recovery is made for the largest block");
    if (step_fails()) return -1;
    made[4]++; live[4]++; *r = (clock_mm *) &sc;
    return 0;
}
void clock_mm_process(const float *i, size_t n, float **o, size_t *on, clock_mm *c) {
    VP_ASSERT(c == (clock_mm *) &sc && live[4] == 1 && n == n_f2, "symbols are recovered from the whole block");
    VP_ASSERT(DC ? at == 4 && i == m : at == 3 && i == f2, "symbols are recovered from the decimated signal");
    *o = sym; *on = n_sym; at = 5;
}
void clock_mm_destroy(clock_mm *c) { VP_ASSERT(c == (clock_mm *) &sc && live[4] == 1, "symbol recovery is released once"); live[4]--; }

VP_MAIN {
    tw = nd_u32();
    max = nd_u32();
    VP_ASSUME((max >= CAP) & (max <= 4096));
#ifdef CREATE
    stepat = (int) nd_u8();
    max = CAP;
#endif
    vp_fail_alloc = FAILN;
    fsk_demod *d = NULL;
    int code = fsk_demod_create(FS, BAUD, DEV, DEC, tw, DC, max, &d);
    vp_fail_alloc = 0;
#ifdef CREATE
    if (hit || FAILN != 0) {
        VP_ASSERT(code != 0 && d == NULL, "a demodulator that cannot be made is refused");
        for (int i = 0; i < 5; i++) VP_ASSERT(live[i] == 0, "a refused demodulator leaves no stage behind");
        VP_ASSERT(vp_live == 0, "a refused demodulator leaves nothing allocated");
        VP_COVER("refused");
        return;
    }
#endif
#if FAILN == 0
    VP_ASSERT(code == 0 && d != NULL, "a demodulator is made for valid settings");
    VP_ASSUME(code == 0);
    for (int i = 0; i < 5; i++) VP_ASSERT(made[i] == (i == 3 ? DC : 1), "every stage is made once");
    const char *s = BLOCKS;
    for (int b = 0; s[b] != 0; b += 3) {
        n_in = (size_t) (s[b] - '0'); n_f2 = (size_t) (s[b + 1] - '0'); n_sym = (size_t) (s[b + 2] - '0');
        for (int i = 0; i < CAP; i++) { in[2 * i] = in[2 * i + 1] = 1; sym[i] = pick(); }
        int8_t *o = NULL; size_t on = 99;
        at = 0;
        fsk_demod_process((const float complex *) in, n_in, &o, &on, d);
        VP_ASSERT(at == 5, "every block passes every stage");
        VP_ASSERT(on == n_sym && (n_sym == 0 || o != NULL), "one soft bit per recovered symbol");
        VP_ASSUME(on == n_sym);
        for (size_t i = 0; i < n_sym; i++) {
            float v = sym[i] * 127.0f, w = v > 127.0f ? 127.0f : v < -128.0f ? -128.0f : v, e = (float) o[i] - w;
            VP_ASSERT(e >= -1.0f && e <= 1.0f, "soft bits are the clamped symbols, in order");
        }
    }
    VP_COVER("end");
    fsk_demod_destroy(d);
    for (int i = 0; i < 5; i++) VP_ASSERT(live[i] == 0, "every stage is released once");
    VP_ASSERT(vp_live == 0, "nothing stays allocated");
#endif
}
