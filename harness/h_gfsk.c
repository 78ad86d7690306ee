/* GFSK modulator: bits to symbols to samples.  The pulse filter and the frequency modulator are stand-ins (C15 and C21 decide
 * the real ones) that check how they are created and used and carry the symbols through.
 * -DSPS samples per symbol, -DMAXB configured maximum, -DCUTS payload lengths ('+': longer than the maximum);
 * -DREFUSE: every symbol length outside 1..255 and every buffer that does not fit is refused */
#include "vp_env.h"
#include "dsp/gfsk_mod.h"
#include "dsp/interp_fir_filter.h"
#include "dsp/frequency_modulator.h"
#include "dsp/gaussian_taps.h"
#ifndef SPS
#define SPS 1.0f
#define MAXB 1
#endif
#define ISPS ((int) SPS)
#define NG ((int) (4 * SPS))
struct interp_fir_filter_t { float *taps; };
struct frequency_modulator_t { int dummy; };
static struct interp_fir_filter_t the_filter;
static struct frequency_modulator_t the_mod;
static int filters, mods;
static float fout[MAXB * 8 * ISPS + 1];
static float mout[(MAXB * 8 * ISPS + 1) * 2];
static size_t mod_max, filter_max;
static int g[NG + 1];
int gaussian_taps_create(double gain, double sps, double bt, size_t taps_len, float **taps) {
#ifdef REFUSE
    VP_ASSERT(false, "settings that do not fit are refused");
    VP_STOP();
#endif
    VP_ASSERT(gain == 1.0 && sps == (double) (float) SPS && bt == 0.5, "the pulse is designed for the configured symbol length");
    VP_ASSERT(taps_len == (size_t) NG, "the pulse spans four symbols");
    VP_ASSUME(taps_len == (size_t) NG);
    float *t = vp_malloc_ok(sizeof(float) * NG);
    for (int i = 0; i < NG; i++) { g[i] = (NG < 24 ? (i % 5) - 2 + (i == 1) : i); t[i] = (float) g[i]; }
    *taps = t;
    return 0;
}
int interp_fir_filter_create(float *taps, size_t taps_len, uint8_t interpolation, uint32_t max_input_buffer_length, interp_fir_filter **f) {
    VP_ASSERT(interpolation == ISPS, "every symbol is stretched to the whole number of samples per symbol");
    VP_ASSERT(max_input_buffer_length >= MAXB * 8, "the pulse filter has room for every bit of the longest payload");
    VP_ASSERT(taps_len == (size_t) (NG + ISPS - 1), "the pulse is the gaussian convolved with one symbol");
    VP_ASSUME(taps_len == (size_t) (NG + ISPS - 1));
    for (int i = 0; i < NG + ISPS - 1; i++) {
        int s = 0;
        for (int j = 0; j < ISPS; j++) if (i - j >= 0 && i - j < NG) s += g[i - j];
        VP_ASSERT(taps[i] == (float) s, "the pulse is the gaussian convolved with one symbol");
    }
    filter_max = max_input_buffer_length;
    the_filter.taps = taps;     /* owned from here on */
    filters++;
    *f = &the_filter;
    return 0;
}
void interp_fir_filter_process(float *input, size_t len, float **output, size_t *output_len, interp_fir_filter *f) {
    VP_ASSERT(f == &the_filter && len <= MAXB * 8, "the pulse filter gets at most what it was created for");
    VP_ASSUME(len <= MAXB * 8);
    for (size_t i = 0; i < len; i++)
        for (int j = 0; j < ISPS; j++) fout[i * ISPS + j] = input[i] > 0 ? (float) (i + 1) : -(float) (i + 1);
    for (size_t i = 0; i < len; i++) VP_ASSERT(input[i] == 1.0f || input[i] == -1.0f, "a symbol is plus or minus one");
    *output = fout; *output_len = len * ISPS;
}
void interp_fir_filter_destroy(interp_fir_filter *f) { if (f == NULL) return; filters--; vp_free(f->taps); }
int frequency_modulator_create(float sensitivity, uint32_t max_input_buffer_length, frequency_modulator **m) {
    VP_ASSERT(sensitivity == 0.25f, "the modulator gets the configured sensitivity");
    VP_ASSERT(max_input_buffer_length >= MAXB * 8 * ISPS, "the modulator has room for every sample of the longest payload");
    mods++;
    *m = &the_mod;
    return 0;
}
void frequency_modulator_process(float *input, size_t len, float complex **output, size_t *output_len, frequency_modulator *m) {
    VP_ASSERT(m == &the_mod && len <= MAXB * 8 * ISPS, "the modulator gets at most what it was created for");
    VP_ASSUME(len <= MAXB * 8 * ISPS);
    for (size_t i = 0; i < len; i++) { mout[2 * i] = input[i]; mout[2 * i + 1] = -1.0f; }
    *output = (void *) mout; *output_len = len;
}
void frequency_modulator_destroy(frequency_modulator *m) { if (m != NULL) mods--; }
static uint8_t in[MAXB + 2];
VP_MAIN {
    gfsk_mod *m = NULL;
#ifdef REFUSE
    float sps = nd_f32();
    uint32_t max = nd_u32();
#if REFUSE == 1
    VP_ASSUME(!(sps >= 1.0f && sps < 256.0f));
#else
    VP_ASSUME(sps >= 1.0f && sps < 256.0f && (uint64_t) max * 8 * (uint64_t) sps > 0xFFFFFFFFull);
#endif
    int code = gfsk_mod_create(sps, nd_f32(), nd_f32(), max, &m);
    VP_ASSERT(code != 0, "settings that do not fit are refused");
    VP_ASSERT(m == NULL && vp_live == 0 && filters == 0 && mods == 0, "a refused modulator leaves nothing behind");
    VP_COVER("end");
#else
    int code = gfsk_mod_create(SPS, 0.25f, 0.5f, MAXB, &m);
    VP_ASSERT(code == 0 && m != NULL, "a modulator is created when memory is available");
    VP_ASSUME(code == 0);
    VP_ASSERT(filters == 1 && mods == 1, "one pulse filter and one modulator are created");
    const char *cuts = CUTS;
    for (int b = 0; cuts[b] != 0; b++) {
        vp_cf *out = NULL; size_t out_len = 77;
        int len = cuts[b] == '+' ? MAXB + 1 : cuts[b] - '0';
        for (int i = 0; i < len; i++) in[i] = nd_u8();
        gfsk_mod_process(in, (size_t) len, &out, &out_len, m);
        if (len > MAXB) { VP_ASSERT(out_len == 0, "a payload longer than configured produces no output"); continue; }
        VP_ASSERT(out_len == (size_t) (len * 8 * ISPS), "every bit becomes exactly one symbol of the configured length");
        VP_ASSUME(out_len == (size_t) (len * 8 * ISPS));
        for (int i = 0; i < len * 8; i++) {
            bool bit = (in[i / 8] >> (7 - i % 8)) & 1;
            float want = bit ? (float) (i + 1) : -(float) (i + 1);
            for (int j = 0; j < ISPS; j++) VP_ASSERT(vp_re(out[i * ISPS + j]) == want && vp_im(out[i * ISPS + j]) == -1.0f, "symbols follow the bits of the payload, most significant first, ones positive");
        }
    }
    VP_COVER("end");
    gfsk_mod_destroy(m);
    VP_ASSERT(vp_live == 0 && filters == 0 && mods == 0, "destroying the modulator releases everything");
#endif
}
