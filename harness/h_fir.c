/* FIR filter against the defining sum over the whole stream.  Tap j is 4^j and samples are 0..3, so the exact sum spells out
 * which sample met which tap.
 * -DTAPS number of taps, -DDEC decimation, -DMAXB configured maximum, -DCPLX complex samples?,
 * -DCUTS="..." block lengths (0: empty block, '+': one block longer than the maximum) */
#include "vp_env.h"
#include "dsp/fir_filter.h"
#define VP_VOLK_INT
#include "vp_volk.h"
#ifdef LPF
#include "dsp/lpf.h"
#include "dsp/lpf_taps.h"
static float *lpf_taps;
int create_low_pass_filter(float gain, uint64_t sampling_freq, uint64_t cutoff_freq, uint32_t transition_width, float **taps, size_t *len) {
    VP_ASSERT(gain == 1.0f && sampling_freq == 48000 && cutoff_freq == 5000000000u && transition_width == 321, "the filter is designed for the requested rate, cutoff and width");
    *taps = lpf_taps; *len = TAPS;
    return 0;
}
#define fir_filter_process lpf_process
#define fir_filter_destroy lpf_destroy
#endif
#define W (CPLX ? 2 : 1)
#define MAXN 24
static int x[MAXN * 2], tap[TAPS];
static float in[MAXB * 2 + 2];
VP_MAIN {
    float *taps = vp_malloc_ok(sizeof(float) * TAPS);
    for (int i = 0; i < TAPS; i++) { tap[i] = 1 << (2 * i); taps[i] = (float) tap[i]; }
#ifdef LPF
    lpf_taps = taps;
    lpf *f = NULL;
    int code = lpf_create(DEC, 48000, 5000000000u, 321, MAXB, W * sizeof(float), &f);
#else
    fir_filter *f = NULL;
    int code = fir_filter_create(DEC, taps, TAPS, MAXB, W * sizeof(float), &f);
#endif
    VP_ASSERT(code == 0 && f != NULL, "a filter is created when memory is available");
    VP_ASSUME(code == 0);
    const char *cuts = CUTS;
    int n = 0, outs = 0;
    for (int b = 0; cuts[b] != 0; b++) {
        void *out = NULL; size_t out_len = 77;
        if (cuts[b] == '+') {
            fir_filter_process(in, MAXB + 1, &out, &out_len, f);
            VP_ASSERT(out_len == 0, "a block longer than configured is refused");
            continue;
        }
        int len = cuts[b] - '0';
        for (int i = 0; i < len * W; i++) { uint8_t v = nd_u8(); VP_ASSUME(v <= 3); x[n * W + i] = v; in[i] = (float) v; }
        fir_filter_process(in, (size_t) len, &out, &out_len, f);
        n += len;
        /* output k needs samples up to k*DEC */
        int want = (n + DEC - 1) / DEC - outs;
        VP_ASSERT(out_len == (size_t) want, "exactly the outputs whose window is complete are produced");
        for (int k = 0; k < want; k++) {
            for (int w = 0; w < W; w++) {
                int s = 0;
                for (int j = 0; j < TAPS; j++) { int p = outs * DEC + k * DEC - j; if (p >= 0) s += tap[j] * x[p * W + w]; }
                VP_ASSERT(((float *) out)[k * W + w] == (float) s, "each output is the dot product of the taps with its window of the stream");
            }
        }
        outs += want;
    }
    VP_COVER("end");
    fir_filter_destroy(f);
    VP_ASSERT(vp_live == 0, "destroying the filter releases everything");
}
