/* Clock recovery: the interpolator is a stand-in that checks the window it is given and returns any float at all, which covers
 * every sample value.  The stream consists of the numbers 1, 2, 3, ... so that a window says where it lies.
 * -DOMEGA samples per symbol, -DLIMIT relative limit, -DMAXB configured maximum, -DCUTS block lengths ('+': too long);
 * -DREFUSE: every impossible setting is refused */
#include "vp_env.h"
#include "dsp/clock_recovery_mm.h"
#include "dsp/mmse_fir_interpolator.h"
#include "vp_volk.h"
#ifndef NTAPS
#define NTAPS 8
#endif
#ifdef REFUSE
#define OMEGA 2.0f
#define LIMIT 0.01f
#define MAXB 2
#define CUTS ""
#endif
struct mmse_fir_interpolator_t { int dummy; };
static struct mmse_fir_interpolator_t the_interp;
static int interps, calls, total;
static int last_pos;
static float given[MAXB + 2];
int mmse_fir_interpolator_create(mmse_fir_interpolator **i) { interps++; *i = &the_interp; return 0; }
int mmse_fir_interpolator_taps(mmse_fir_interpolator *i) { (void) i; return NTAPS; }
void mmse_fir_interpolator_destroy(mmse_fir_interpolator *i) { if (i != NULL) interps--; }
float mmse_fir_interpolator_process(const float *input, float mu, mmse_fir_interpolator *i) {
    VP_ASSERT(i == &the_interp, "the interpolator is the created one");
    VP_ASSERT(mu >= 0.0f && mu <= 1.0f, "a symbol lies between two samples");
    float first = input[0];
    for (int k = 1; k < NTAPS; k++) VP_ASSERT(input[k] == first + (float) k, "a symbol is interpolated from consecutive samples of the stream");
    VP_ASSERT(first >= 1.0f && first + (float) (NTAPS - 1) <= (float) total, "only samples of the current stream are used");
    int pos = (int) first;
    VP_ASSERT(calls == 0 ? pos == 1 : pos > last_pos, "the position of the symbols never moves backwards");
    VP_ASSERT(calls == 0 || (float) (pos - last_pos) <= 2 * OMEGA * (1 + LIMIT) + 2, "the next symbol is never farther than the limits allow");
    last_pos = pos; calls++;
    float r = nd_f32();
    if (calls - 1 < MAXB + 2) given[calls - 1] = r;
    return r;
}
static float in[MAXB + 2];
VP_MAIN {
    clock_mm *c = NULL;
    float gain_omega = nd_f32(), gain_mu = nd_f32();
#ifdef REFUSE
    float omega = nd_f32(), mu = nd_f32(), limit = nd_f32();
    VP_ASSUME(!(omega >= 1.0f && omega <= 4194304.0f) || !(mu >= 0.0f && mu < 1.0f) || !(limit >= 0.0f && limit < 1.0f));
    int code = clock_mm_create(omega, gain_omega, mu, gain_mu, limit, MAXB, &c);
    VP_ASSERT(code != 0, "impossible settings are refused");
    VP_ASSERT(c == NULL && vp_live == 0 && interps == 0, "a refused clock leaves nothing behind");
    VP_COVER("end");
#else
    int code = clock_mm_create(OMEGA, gain_omega, 0.5f, gain_mu, LIMIT, MAXB, &c);
    VP_ASSERT(code == 0 && c != NULL, "a clock is created when memory is available");
    VP_ASSUME(code == 0);
    const char *cuts = CUTS;
    for (int b = 0; cuts[b] != 0; b++) {
        float *out = NULL; size_t out_len = 0;
        int len = cuts[b] == '+' ? MAXB + 1 : cuts[b] - '0';
        int before = calls;
        if (len <= MAXB) for (int i = 0; i < len; i++) in[i] = (float) (++total);
        clock_mm_process(in, (size_t) len, &out, &out_len, c);
        if (len > MAXB) { VP_ASSERT(out_len == 0 && calls == before, "a block longer than configured is refused"); continue; }
        VP_ASSERT(out_len <= MAXB, "never more symbols than samples");
        VP_ASSERT(out_len == (size_t) (calls - before), "every interpolated symbol is delivered");
        for (int i = 0; i < MAXB; i++)
            if (i < (int) out_len) VP_ASSERT(out[i] - out[i] == 0.0f, "a delivered symbol is finite");
        VP_ASSERT((int) out_len == MAXB || total < NTAPS || (calls > 0 && (float) (total - last_pos) < 2 * OMEGA * (1 + LIMIT) + 2 + NTAPS), "recovery never stops for good");
    }
    VP_COVER("end");
    clock_mm_destroy(c);
    VP_ASSERT(vp_live == 0 && interps == 0, "destroying the clock releases everything");
#endif
}
