/* Fractional interpolator: choice of the filter and the filters themselves.
 * MODE 0: filter choice for every position mu in [0,1] (filters are stand-ins);
 * MODE 1: one real filter applied to a window at offset OFF of an aligned buffer */
#include "vp_env.h"
#include "dsp/mmse_fir_interpolator.h"
#include "dsp/fir_filter.h"
#if MODE == 0
static struct fir_filter_t filters[129];
static float taps_of[129][8];
static int made, used, freed;
static const float *window;
int fir_filter_create(uint8_t decimation, float *taps, size_t taps_len, size_t max, size_t num_bytes, fir_filter **f) {
    VP_ASSERT(decimation == 1 && taps_len == 8 && num_bytes == sizeof(float), "interpolation filters are plain filters of 8 taps");
    VP_ASSERT(made < 129, "one filter per step");
    VP_ASSUME(made < 129);
    for (int i = 0; i < 8; i++) taps_of[made][i] = taps[i];
    filters[made].original_taps = taps;
    *f = &filters[made++];
    return 0;
}
float fir_filter_process_float_single(const float *input, fir_filter *f) {
    VP_ASSERT(input == window, "the window is the given one");
    used = (int) (f - filters);
    return 5.0f;
}
void fir_filter_destroy(fir_filter *f) { if (f != NULL) { vp_free(f->original_taps); freed++; } }
#else
#define VP_VOLK_INT
#include "vp_volk.h"
#endif
VP_MAIN {
#if MODE == 0
    mmse_fir_interpolator *m = NULL;
    int code = mmse_fir_interpolator_create(&m);
    VP_ASSERT(code == 0 && m != NULL, "an interpolator is created when memory is available");
    VP_ASSUME(code == 0);
    VP_ASSERT(made == 129 && mmse_fir_interpolator_taps(m) == 8, "there is a filter for every step");
    for (int i = 0; i < 129; i++) {
        float sum = 0;
        for (int k = 0; k < 8; k++) {
            float d = taps_of[i][k] - taps_of[128 - i][7 - k];
            VP_ASSERT(d < 0.00001f && d > -0.00001f, "the filter for mu mirrors the filter for 1-mu");
            sum += taps_of[i][k];
        }
        VP_ASSERT(sum > 0.99f && sum < 1.01f, "an interpolation filter keeps a constant signal");
    }
    VP_ASSERT(taps_of[0][4] > 0.99f && taps_of[128][3] > 0.99f, "the first and the last filter are the neighbouring samples");
    static float w[8];
    window = w;
    float mu = nd_f32();
    VP_ASSUME(mu >= 0.0f && mu <= 1.0f);
    VP_ASSERT(mmse_fir_interpolator_process(w, mu, m) == 5.0f, "the result is the one of the filter");
    float err = mu * 128.0f - (float) used;
    VP_ASSERT(err <= 0.5f && err >= -0.5f, "the filter of the nearest step is used");
    VP_COVER("end");
    mmse_fir_interpolator_destroy(m);
    VP_ASSERT(freed == 129 && vp_live == 0, "destroying the interpolator releases everything");
#else
    float *taps = vp_malloc_ok(sizeof(float) * 8);
    for (int i = 0; i < 8; i++) taps[i] = (float) (1 << (2 * i));
    fir_filter *f = NULL;
    int code = fir_filter_create(1, taps, 8, 8, sizeof(float), &f);
    VP_ASSERT(code == 0 && f != NULL, "a filter is created when memory is available");
    VP_ASSUME(code == 0);
    float *buf = volk_malloc(sizeof(float) * (OFF + 8), VP_ALIGN);
    int want = 0;
    for (int i = 0; i < OFF + 8; i++) {
        uint8_t v = nd_u8();
        VP_ASSUME(v <= 3);
        buf[i] = (float) v;
        if (i >= OFF) want += v << (2 * (7 - (i - OFF)));
    }
    VP_ASSERT(fir_filter_process_float_single(buf + OFF, f) == (float) want, "the result is the dot product with exactly the given window");
    VP_COVER("end");
    volk_free(buf);
    fir_filter_destroy(f);
    VP_ASSERT(vp_live == 0, "destroying the filter releases everything");
#endif
}
