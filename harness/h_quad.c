/* Quadrature demodulator against the phase steps of the whole stream.  The arctangent is an injective stand-in (C22 decides
 * the real one), samples are small integers so the products are exact.
 * -DMAXB configured maximum, -DGAIN gain, -DCUTS block lengths ('+': longer than the maximum) */
#include "vp_env.h"
#include "dsp/quadrature_demod.h"
#define VP_VOLK_INT
#include "vp_volk.h"
#define MAXN 16
float fast_atan2f(float y, float x) { return y * 256.0f + x; }
static int x[MAXN + 1][2];          /* x[0] is the empty history */
static vp_cf in[MAXB + 2];
VP_MAIN {
    quadrature_demod *d = NULL;
    int code = quadrature_demod_create(GAIN, MAXB, &d);
    VP_ASSERT(code == 0 && d != NULL, "a demodulator is created when memory is available");
    VP_ASSUME(code == 0);
    const char *cuts = CUTS;
    int n = 0;
    for (int b = 0; cuts[b] != 0; b++) {
        float *out = NULL; size_t out_len = 77;
        if (cuts[b] == '+') {
            quadrature_demod_process(in, MAXB + 1, &out, &out_len, d);
            VP_ASSERT(out_len == 0, "a block longer than configured is refused");
            continue;
        }
        int len = cuts[b] - '0';
        for (int i = 0; i < len; i++)
            for (int w = 0; w < 2; w++) { int8_t v = nd_i8(); VP_ASSUME(v >= -2 && v <= 1); x[n + i + 1][w] = v; ((float *) &in[i])[w] = (float) v; }
        quadrature_demod_process(in, (size_t) len, &out, &out_len, d);
        VP_ASSERT(out_len == (size_t) len, "one output per input");
        for (int k = 0; k < len; k++) {
            int *c = x[n + k + 1], *p = x[n + k];
            int re = c[0] * p[0] + c[1] * p[1], im = c[1] * p[0] - c[0] * p[1];
            VP_ASSERT(out[k] == GAIN * (float) (im * 256 + re), "each output is the gain times the angle between consecutive samples of the stream");
        }
        n += len;
    }
    VP_COVER("end");
    quadrature_demod_destroy(d);
    VP_ASSERT(vp_live == 0, "destroying the demodulator releases everything");
}
