/* DC blocker against its definition over the whole stream: delayed input minus four cascaded moving averages.  Samples are
 * multiples of length^4, so every division is exact.
 * -DLEN averaging length, -DCUTS block lengths, -DMAXN total number of samples, -DHIGH largest sample */
#include "vp_env.h"
#include "dsp/dc_blocker.h"
#define L4 (LEN * LEN * LEN * LEN)
#define Z (2 * LEN + 2)
static int x[MAXN], m0[MAXN], m1[MAXN], m2[MAXN], m3[MAXN];
static float in[MAXN];
static void average(const int *a, int *o, int n) {   /* o[n] from a[..n] */
    int s = 0;
    for (int j = 0; j < LEN; j++) if (n - j >= 0) s += a[n - j];
    o[n] = s;
}
VP_MAIN {
    dc_blocker *d = NULL;
    int code = dc_blocker_create(LEN, &d);
#if LEN < 2
        VP_ASSERT(code != 0 && d == NULL && vp_live == 0, "a length that cannot be supported is refused and nothing is left");
        VP_COVER("end");
#else
    VP_ASSERT(code == 0 && d != NULL, "a blocker is created when memory is available");
    VP_ASSUME(code == 0);
    const char *cuts = CUTS;
    int n = 0;
    for (int b = 0; cuts[b] != 0; b++) {
        float *out = NULL; size_t out_len = 77;
        int len = cuts[b] - '0';
        for (int i = 0; i < len; i++) { uint8_t v = nd_u8(); VP_ASSUME(v <= HIGH); x[n + i] = v; in[i] = (float) (v * L4); }
        dc_blocker_process(in, (size_t) len, &out, &out_len, d);
        VP_ASSERT(out_len == (size_t) len, "one output per input");
        for (int k = 0; k < len; k++) {
            int p = n + k;
            /* sums scaled by LEN^j instead of divided */
            average(x, m0, p); average(m0, m1, p); average(m1, m2, p); average(m2, m3, p);
            int delayed = p - 2 * LEN + 2 >= 0 ? x[p - 2 * LEN + 2] * L4 : 0;
            VP_ASSERT(out[k] == (float) (delayed - m3[p]), "each output is the delayed input minus the cascaded moving average of the stream");
        }
        n += len;
    }
    VP_COVER("end");
    dc_blocker_destroy(d);
    VP_ASSERT(vp_live == 0, "destroying the blocker releases everything");
#endif
}
