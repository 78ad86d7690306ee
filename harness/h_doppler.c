/* Doppler correction: the orbit model is a stand-in that reports a symbolic range rate for every whole second it is asked
 * about; the mixer is a stand-in that records the shift requested for every batch of samples (C21 decides the real one).
 * -DRATE samples per second, -DMAXB configured maximum, -DDIR 1 receive, -1 transmit, -DOFFSET constant offset,
 * -DSTART start time (0: now), -DDEEP deep space element set, -DCUTS block lengths ('+': longer than the maximum) */
#define VP_CUSTOM_time
#include "vp_env.h"
#include "dsp/doppler.h"
#include "dsp/sig_source.h"
#include "sgpsdp/sgp4sdp4.h"
#define CENTER 299792458u
#define EPOCH 2459000.5
#define JUL_START 2459100.25
#define JUL_NOW 2459200.75
#define MAXSEC 8
#define MAXN 40
static int rate4[MAXSEC + 1];       /* range rate at whole second k, quarters of km/s: one unit shifts by 250 Hz */
static int seconds;                 /* predictions made so far */
static double asked;
static int nows;
/* ---- mixer ---- */
struct sig_source_t { int dummy; };
static struct sig_source_t the_source;
static int sources, mixed;
static int64_t shift[MAXN]; static int batch_first[MAXN];
static vp_cf mix_out[MAXB + 1];
int sig_source_create(float amplitude, uint64_t rate, uint32_t max, sig_source **s) {
    VP_ASSERT(amplitude == 1.0f, "the correction does not change the amplitude");
    VP_ASSERT(rate == RATE && max >= MAXB, "the mixer runs at the sampling rate and has room for the longest block");
    sources++; *s = &the_source;
    return 0;
}
void sig_source_multiply(int64_t freq, const vp_cf *input, size_t len, vp_cf **output, size_t *output_len, sig_source *s) {
    VP_ASSERT(s == &the_source && len <= MAXB && mixed + len <= MAXN, "the mixer gets at most what it was created for");
    VP_ASSUME(len <= MAXB && mixed + len <= MAXN);
    for (size_t i = 0; i < len; i++) {
        shift[mixed + i] = freq; batch_first[mixed + i] = mixed;
        ((float *) &mix_out[i])[0] = ((const float *) &input[i])[0] + 1.0f;
        ((float *) &mix_out[i])[1] = ((const float *) &input[i])[1];
    }
    mixed += (int) len;
    *output = mix_out; *output_len = len;
}
void sig_source_destroy(sig_source *s) { if (s != NULL) sources--; }
/* ---- orbit ---- */
double Radians(double a) { return a / 64; }
double Julian_Date_of_Epoch(double e) { VP_ASSERT(e == 20001.5, "the epoch is the one of the element set"); return EPOCH; }
double Julian_Date(struct tm *t) { return t->tm_year == 1 ? JUL_NOW : JUL_START; }
struct tm *vp_gmtime_r(const time_t *t, struct tm *r) {
    VP_ASSERT(*t == START, "the start time is the requested one");
    memset(r, 0, sizeof(*r)); r->tm_year = 120; r->tm_mon = 5;
    return r;
}
void UTC_Calendar_Now(struct tm *t) { nows++; memset(t, 0, sizeof(*t)); t->tm_year = 1; }
time_t vp_time(time_t *t) { (void) t; return 0; }
int Get_Next_Tle_Set(char lines[3][80], tle_t *t) {
    VP_ASSERT(lines[1][0] == '1' && lines[2][0] == '2', "the element set is the given one");
    t->epoch = 20001.5;
    return 1;
}
void select_ephemeris(sat_t *s) { s->flags = DEEP ? DEEP_SPACE_EPHEM_FLAG : 0; }
static double due(void) { return (START == 0 ? JUL_NOW : JUL_START) + (double) seconds / 86400.0; }
static void predict(sat_t *s, double tsince, bool deep) {
    VP_ASSERT(deep == DEEP, "the orbit model is the one for the orbit");
    double d = tsince - (due() - EPOCH) * 1440.0;
    VP_ASSERT(d > -0.00001 && d < 0.00001, "the orbit is predicted once per whole second of stream time");
    s->pos.x = 7; s->vel.x = 8;
}
void SGP4(sat_t *s, double tsince) { predict(s, tsince, false); }
void SDP4(sat_t *s, double tsince) { predict(s, tsince, true); }
void Convert_Sat_State(vector_t *p, vector_t *v) { p->x = 70; v->x = 80; }
void Calculate_Obs(double t, vector_t *p, vector_t *v, geodetic_t *g, obs_set_t *o) {
    VP_ASSERT(p->x == 70 && v->x == 80, "the observer sees the predicted position");
    VP_ASSERT(g->lat == 0.5 && g->lon == -0.25 && g->alt == 0.125 && g->theta == 0.0, "the observer is the ground station");
    double d = t - due();
    VP_ASSERT(d > -0.00000001 && d < 0.00000001, "the orbit is predicted once per whole second of stream time");
    VP_ASSERT(seconds <= MAXSEC, "model: seconds");
    VP_ASSUME(seconds <= MAXSEC);
    int8_t r = nd_i8();
    VP_ASSUME(r >= -2 && r <= 1);
    rate4[seconds++] = r;
    o->range_rate = (double) r / 4;
}
static vp_cf in[MAXB + 2];
static float tok[MAXN][2];
VP_MAIN {
    static char tle[3][80] = {"sat", "1 ", "2 "};
    doppler *d = NULL;
    int code = doppler_create(32, -16, 0.125, RATE, CENTER, OFFSET, START, MAXB, tle, &d);
    VP_ASSERT(code == 0 && d != NULL, "a corrector is created when memory is available");
    VP_ASSUME(code == 0);
    VP_ASSERT(nows == 0, "the current time is taken when the first sample arrives");
    const char *cuts = CUTS;
    int n = 0;
    for (int b = 0; cuts[b] != 0; b++) {
        vp_cf *out = NULL; size_t out_len = 77;
        int len = cuts[b] == '+' ? MAXB + 1 : cuts[b] - '0';
        for (int i = 0; i < len && i < MAXB; i++)
            for (int w = 0; w < 2; w++) { tok[n + i][w] = nd_fint(-100, 100); ((float *) &in[i])[w] = tok[n + i][w]; }
        if (DIR > 0) doppler_process_rx(in, (size_t) len, &out, &out_len, d);
        else doppler_process_tx(in, (size_t) len, &out, &out_len, d);
        if (len > MAXB) { VP_ASSERT(out_len == 0 && mixed == n, "a block longer than configured is refused"); continue; }
        VP_ASSERT(out_len == (size_t) len && mixed == n + len, "every sample is corrected exactly once");
        VP_ASSUME(out_len == (size_t) len && mixed == n + len);
        for (int i = 0; i < len; i++) VP_ASSERT(vp_re(out[i]) == tok[n + i][0] + 1.0f && vp_im(out[i]) == tok[n + i][1], "corrected samples come out whole and in order");
        n += len;
    }
    if (n > 0) {
        VP_ASSERT(seconds == (n - 1) / RATE + 2, "each second is predicted exactly once");
        VP_ASSERT(nows == (START == 0 ? 1 : 0), "the start time is taken once");
    }
    for (int i = 0; i < n; i++) {
        int k = i / RATE, a = batch_first[i] % RATE;
        VP_ASSERT(batch_first[i] / RATE == k, "a batch does not cross a second");
        /* RATE * shift at the first sample of the batch, in Hz: linear between the surrounding seconds */
        int64_t want = (int64_t) DIR * 250 * (rate4[k] * (RATE - a) + rate4[k + 1] * a) + (int64_t) OFFSET * RATE;
        int64_t diff = shift[i] * RATE - want;
        VP_ASSERT(diff >= -RATE && diff <= RATE, "the shift is interpolated between the shifts predicted for the surrounding seconds");
    }
    VP_COVER("end");
    doppler_destroy(d);
    VP_ASSERT(vp_live == 0 && sources == 0, "destroying the corrector releases everything");
}
