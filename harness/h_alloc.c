/* Creation and destruction of one block: any one of its allocations (or sub-blocks that cannot be made) fails.
 * -DBLOCK which block, -DMAXFAIL: the failing allocation is 0 (none) .. MAXFAIL, every value explored; -DDEEPEST: allocations a complete creation makes must be covered
 * -DBAD: settings that must be refused.  Every block of memory is tracked: a block left behind or released twice is noticed. */
#if BLOCK != 7
#define VP_TRACK_FREE
#endif
#ifndef FAILLO
#define FAILLO 0
#endif
#define VP_CUSTOM_sincos
#define VP_CUSTOM_explog
#define VP_CUSTOM_getenv
#define VP_CUSTOM_strtol
#define VP_CUSTOM_time
#include "vp_env.h"
#include "vp_volk.h"
#ifndef BAD
#define BAD 0
#endif
double vp_sin(double x) { (void) x; return 0.5; }
double vp_cos(double x) { (void) x; return 0.5; }
float vp_sinf(float x) { (void) x; return 0.5f; }
float vp_cosf(float x) { (void) x; return 0.5f; }
void vp_sincos(double x, double *s, double *c) { (void) x; *s = 0.5; *c = 0.5; }
void vp_sincosf(float x, float *s, float *c) { (void) x; *s = 0.5f; *c = 0.5f; }
double vp_exp(double x) { (void) x; return 0.5; }
float vp_expf(float x) { (void) x; return 0.5f; }
double vp_log(double x) { (void) x; return 0.5; }
double vp_sqrt(double x) { (void) x; return 0.5; }
double vp_pow(double x, double y) { (void) x; (void) y; return 0.5; }
double vp_tan(double x) { (void) x; return 0.5; }
time_t vp_time(time_t *t) { if (t) *t = 1583840449; return 1583840449; }
int vp_gettimeofday(struct timeval *t, void *z) { (void) z; t->tv_sec = 1583840449; t->tv_usec = 5; return 0; }
static int align;       /* 0: not set, 1: a number, 2: not a number, 3: too large */
char *vp_getenv(const char *n) { (void) n; return align == 0 ? NULL : (char *) "8"; }
long vp_strtol(const char *s, char **e, int b) { (void) s; (void) e; (void) b; if (align == 3) { vp_errno = ERANGE; return 8; } return align == 2 ? 0 : 8; }
static int pick(int n) { for (int i = 0; i < n - 1; i++) if (nd_bool()) return i; return n - 1; }

#if BLOCK == 1 || BLOCK == 2
#include "dsp/fir_filter.h"
#define TYPE fir_filter
#define DESTROY fir_filter_destroy
static float *taps;
static int make(fir_filter **r) { return fir_filter_create(2, taps, 3, 4, BLOCK == 1 ? sizeof(float) : 2 * sizeof(float), r); }
#define OWN_TAPS
#elif BLOCK == 3
#include "dsp/lpf.h"
#define TYPE lpf
#define DESTROY lpf_destroy
static int make(lpf **r) { return BAD ? lpf_create(1, 48000, 24001, 40000, 4, sizeof(float), r) : lpf_create(1, 48000, 4800, 40000, 4, sizeof(float), r); }
#elif BLOCK == 4
#include "dsp/interp_fir_filter.h"
#define TYPE interp_fir_filter
#define DESTROY interp_fir_filter_destroy
static float *taps;
static int make(interp_fir_filter **r) { return interp_fir_filter_create(taps, 3, BAD ? 0 : 2, 4, r); }
#define OWN_TAPS
#elif BLOCK == 5
#include "dsp/gfsk_mod.h"
#define TYPE gfsk_mod
#define DESTROY gfsk_mod_destroy
static int make(gfsk_mod **r) { return gfsk_mod_create(BAD == 1 ? 0.5f : BAD == 2 ? 256.0f : 2.0f, 1.0f, 0.5f, BAD == 3 ? UINT32_MAX : 2, r); }
#elif BLOCK == 6
#include "dsp/clock_recovery_mm.h"
#include "dsp/mmse_fir_interpolator.h"
#define TYPE clock_mm
#define DESTROY clock_mm_destroy
/* the interpolator has its own check: here it is one more step that may fail */
int mmse_fir_interpolator_create(mmse_fir_interpolator **r) { void *p = vp_malloc(4); if (p == NULL) return -ENOMEM; *r = p; return 0; }
float mmse_fir_interpolator_process(const float *i, float mu, mmse_fir_interpolator *p) { (void) i; (void) mu; (void) p; return 0; }
int mmse_fir_interpolator_taps(mmse_fir_interpolator *p) { (void) p; return 8; }
void mmse_fir_interpolator_destroy(mmse_fir_interpolator *p) { vp_free(p); }
static int make(clock_mm **r) { return clock_mm_create(BAD ? 0.5f : 2.0f, 0.1f, 0.5f, 0.1f, 0.01f, 4, r); }
#elif BLOCK == 7
#include "dsp/mmse_fir_interpolator.h"
#include "dsp/fir_filter.h"
#define TYPE mmse_fir_interpolator
#define DESTROY mmse_fir_interpolator_destroy
/* the filter has its own check: here it is one step that may fail, takes the taps over only when it succeeds and releases them with itself */
static fir_filter dummies[130]; static float *dummy_taps[130]; static int n_filters, live_filters, fail_filter = -1;
int fir_filter_create(uint8_t d, float *t, size_t n, size_t len, size_t bytes, fir_filter **r) {
    (void) d; (void) n; (void) len; (void) bytes;
    if (n_filters == fail_filter) { n_filters++; return -ENOMEM; }
    VP_ASSERT(n_filters < 130, "model: number of filters");
    dummy_taps[n_filters] = t; *r = &dummies[n_filters]; n_filters++; live_filters++;
    return 0;
}
void fir_filter_process(const void *i, size_t n, void **o, size_t *on, fir_filter *f) { (void) i; (void) n; (void) f; *o = NULL; *on = 0; }
void fir_filter_destroy(fir_filter *f) {
    if (f == NULL) return;
    int k = (int) (f - dummies);
    VP_ASSERT(dummy_taps[k] != NULL, "a filter is released once");
    vp_live--; dummy_taps[k] = NULL; live_filters--;
}
static int make(mmse_fir_interpolator **r) { return mmse_fir_interpolator_create(r); }
#elif BLOCK == 8
#include "dsp/dc_blocker.h"
#define TYPE dc_blocker
#define DESTROY dc_blocker_destroy
static int make(dc_blocker **r) { return dc_blocker_create(BAD ? 0 : 3, r); }
#elif BLOCK == 9
#include "dsp/quadrature_demod.h"
#define TYPE quadrature_demod
#define DESTROY quadrature_demod_destroy
static int make(quadrature_demod **r) { return quadrature_demod_create(1.0f, 4, r); }
#elif BLOCK == 10
#include "dsp/sig_source.h"
#define TYPE sig_source
#define DESTROY sig_source_destroy
static int make(sig_source **r) { return sig_source_create(1.0f, 48000, 4, r); }
#elif BLOCK == 11
#include "dsp/frequency_modulator.h"
#define TYPE frequency_modulator
#define DESTROY frequency_modulator_destroy
static int make(frequency_modulator **r) { return frequency_modulator_create(1.0f, 4, r); }
#elif BLOCK == 12
#include "dsp/doppler.h"
#include "sgpsdp/sgp4sdp4.h"
#define TYPE doppler
#define DESTROY doppler_destroy
double Radians(double a) { return a / 64; }
double Julian_Date_of_Epoch(double e) { (void) e; return 2459000.5; }
double Julian_Date(struct tm *t) { (void) t; return 2459100.25; }
static int bad_time, bad_tle;
struct tm *vp_gmtime_r(const time_t *t, struct tm *r) { (void) t; if (bad_time) return NULL; memset(r, 0, sizeof(*r)); return r; }
void UTC_Calendar_Now(struct tm *t) { memset(t, 0, sizeof(*t)); }
int Get_Next_Tle_Set(char lines[3][80], tle_t *t) { (void) lines; t->epoch = 20001.5; return bad_tle ? -1 : 1; }
void select_ephemeris(sat_t *s) { s->flags = 0; }
void SGP4(sat_t *s, double t) { (void) s; (void) t; }
void SDP4(sat_t *s, double t) { (void) s; (void) t; }
void Convert_Sat_State(vector_t *p, vector_t *v) { (void) p; (void) v; }
void Calculate_Obs(double t, vector_t *p, vector_t *v, geodetic_t *g, obs_set_t *o) { (void) t; (void) p; (void) v; (void) g; (void) o; }
static char lines[3][80];
static int make(doppler **r) { bad_time = BAD == 1; bad_tle = BAD == 2; return doppler_create(1, 2, 3, 48000, 437000000, 5, 1583840449, 4, lines, r); }
#elif BLOCK == 13
#include "queue.h"
#define TYPE queue
#define DESTROY destroy_queue
static int make(queue **r) { return create_queue(BAD == 1 ? 0 : 4, BAD == 2 ? 0 : 3, true, r); }
#endif

VP_MAIN {
    TYPE *b = NULL;
    int held = 0;
#ifdef OWN_TAPS
    taps = vp_malloc_ok(3 * sizeof(float));
    VP_ASSUME(taps != NULL);
    for (int i = 0; i < 3; i++) taps[i] = 1;
    held = 1;
#endif
    int fail = FAILLO + pick(MAXFAIL + 1 - FAILLO);
#if BLOCK == 1
    align = BAD;
#endif
#if BLOCK == 7
    if (fail > 130) { fail_filter = fail - 131; fail = 0; }
    bool refused = fail != 0 || fail_filter >= 0;
#else
    bool refused = BAD != 0 || fail != 0;
#if BLOCK == 1
    if (BAD == 1) refused = fail != 0;
#endif
#endif
    vp_alloc_no = 0; vp_fail_alloc = fail;
    int code = make(&b);
    bool happened = fail == 0 || vp_alloc_no >= vp_fail_alloc;
#if BAD == 0
    if (fail == 0 && !refused) VP_ASSERT(code == 0 && b != NULL, "a block is made for valid settings");
#endif
    vp_fail_alloc = 0;
#if BLOCK != 7
    if (!happened) refused = false;     /* fewer allocations than that are made */
#endif
#if BAD > 1 || (BAD == 1 && BLOCK != 1)
    refused = true;
#endif
    if (code != 0) {
        VP_ASSERT(refused, "a block is made for valid settings");
        VP_ASSERT(b == NULL, "nothing is handed out by a failed creation");
        VP_ASSERT(vp_live == held, "a failed creation leaves nothing behind");
#ifdef OWN_TAPS
        vp_free(taps);
#endif
#if BLOCK == 7
        VP_ASSERT(live_filters == 0, "a failed creation leaves no filter behind");
#endif
        VP_COVER("failed");
        return;
    }
    VP_ASSERT(!refused, "a creation that ran out of memory is reported");
    VP_ASSERT(b != NULL, "a created block is handed out");
    if (b == NULL) return;
#if (BAD == 0 || (BAD == 1 && BLOCK == 1)) && FAILLO == 0
    VP_COVER("created");
#endif
    DESTROY(b);
    VP_ASSERT(vp_live == 0, "a destroyed block leaves nothing behind");
#if BLOCK == 7
    VP_ASSERT(live_filters == 0, "a destroyed block leaves no filter behind");
#endif
}
