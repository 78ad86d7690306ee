/* Interpolating FIR against zero stuffing followed by the prototype filter.  Tap j is 4^j and samples are 0..3, so the exact
 * sum spells out which sample met which tap.
 * -DTAPS prototype length, -DINTERP factor, -DMAXB configured maximum, -DCUTS block lengths ('+': longer than the maximum) */
#include "vp_env.h"
#include "dsp/interp_fir_filter.h"
#define VP_VOLK_INT
#include "vp_volk.h"
#define MAXN 16
static int x[MAXN], tap[TAPS];
static float in[MAXB + 2];
VP_MAIN {
    float *taps = vp_malloc_ok(sizeof(float) * TAPS);
    for (int i = 0; i < TAPS; i++) { tap[i] = 1 << (2 * i); taps[i] = (float) tap[i]; }
    interp_fir_filter *f = NULL;
    int code = interp_fir_filter_create(taps, TAPS, INTERP, MAXB, &f);
#if INTERP == 0
        VP_ASSERT(code != 0, "an impossible interpolation factor is refused");
        VP_ASSERT(f == NULL && vp_live == 1, "a refused filter leaves nothing behind");
        VP_COVER("end");
#else
    VP_ASSERT(code == 0 && f != NULL, "a filter is created when memory is available");
    VP_ASSUME(code == 0);
    const char *cuts = CUTS;
    int n = 0;
    for (int b = 0; cuts[b] != 0; b++) {
        float *out = NULL; size_t out_len = 77;
        if (cuts[b] == '+') {
            interp_fir_filter_process(in, MAXB + 1, &out, &out_len, f);
            VP_ASSERT(out_len == 0, "a block longer than configured is refused");
            continue;
        }
        int len = cuts[b] - '0';
        for (int i = 0; i < len; i++) { uint8_t v = nd_u8(); VP_ASSUME(v <= 3); x[n + i] = v; in[i] = (float) v; }
        interp_fir_filter_process(in, (size_t) len, &out, &out_len, f);
        VP_ASSERT(out_len == (size_t) len * INTERP, "one group of outputs per input sample");
        for (int k = 0; k < len * INTERP; k++) {
            int m = n * INTERP + k, s = 0;
            for (int j = 0; j < TAPS; j++) { int p = m - j; if (p >= 0 && p % INTERP == 0) s += tap[j] * x[p / INTERP]; }
            VP_ASSERT(out[k] == (float) s, "each output equals filtering the zero-stuffed stream");
        }
        n += len;
    }
    VP_COVER("end");
    interp_fir_filter_destroy(f);
    VP_ASSERT(vp_live == 0, "destroying the filter releases everything");
#endif
}
