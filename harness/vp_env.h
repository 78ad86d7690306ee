/* Default environment: every operating-system call under its documented contract, nondeterministic.
 * A harness overrides one by defining VP_CUSTOM_<name> before including this file. */
#ifndef VP_ENV_H
#define VP_ENV_H
#include "vp.h"

int vp_errno;
long vp_live;
bool vp_oom;

#define VP_MALLOC_MAX ((size_t) 1 << 31)

#ifndef VP_CUSTOM_malloc
#undef malloc
#undef free
#undef calloc
#undef realloc
long vp_alloc_no, vp_fail_alloc;        /* the vp_fail_alloc-th allocation fails (0: none) */
#ifdef VP_TRACK_FREE                    /* every live block, so that a second release is noticed */
#define VP_TRACK_MAX 60
static void *vp_track[VP_TRACK_MAX]; static int vp_ntrack;
static void vp_track_add(void *p) {
    VP_ASSERT(vp_ntrack < VP_TRACK_MAX, "model: number of blocks");
    VP_ASSUME(vp_ntrack < VP_TRACK_MAX);
    vp_track[vp_ntrack++] = p;
}
static void vp_track_del(void *p) {
    for (int i = 0; i < vp_ntrack; i++)
        if (vp_track[i] == p) { vp_track[i] = NULL; return; }
    VP_ASSERT(0, "only a block that is still held is released");
    VP_STOP();
}
#else
#define vp_track_add(p)
#define vp_track_del(p)
#endif
void *vp_malloc_ok(size_t n) {          /* for stubs: never fails, not counted */
    void *p = malloc(n);
    VP_ASSUME(p != NULL);
#ifdef VP_REPLAY
    { extern int vp_fill; memset(p, vp_fill, n); }
#endif
    vp_live++;
    vp_track_add(p);
    return p;
}
void *vp_malloc(size_t n) {
    if (n > VP_MALLOC_MAX) { vp_errno = ENOMEM; return NULL; }
    if (vp_oom && nd_bool()) { vp_errno = ENOMEM; return NULL; }
    if (vp_fail_alloc != 0 && ++vp_alloc_no == vp_fail_alloc) { vp_errno = ENOMEM; return NULL; }
    void *p = malloc(n);
    VP_ASSUME(p != NULL);
#ifdef VP_REPLAY
    { extern int vp_fill; memset(p, vp_fill, n); }
#endif
    vp_live++;
    vp_track_add(p);
    return p;
}
void vp_free(void *p) {
    if (p != NULL) { vp_live--; vp_track_del(p); }
#ifndef VP_COUNT_FREE /* path-by-path exploration: free() only counts, the solver's own model of it would split every path */
    free(p);
#endif
}
void *vp_calloc(size_t a, size_t b) {
    if (b != 0 && a > VP_MALLOC_MAX / b) { vp_errno = ENOMEM; return NULL; }
    void *p = vp_malloc(a * b);
    if (p != NULL) memset(p, 0, a * b);
    return p;
}
void *vp_realloc(void *o, size_t n) {
    if (o == NULL) return vp_malloc(n);
    if (n > VP_MALLOC_MAX) return NULL;
    if (vp_oom && nd_bool()) return NULL;
    void *p = realloc(o, n);
    VP_ASSUME(p != NULL);
    return p;
}
#define malloc vp_malloc
#define calloc vp_calloc
#define realloc vp_realloc
#define free vp_free
#endif
#ifdef VP_OWN_MEMCPY
/* word-wise model of memcpy/memmove: keeps sample arrays typed for the solver */
void *vp_memcpy(void *d, const void *s, size_t n) {
    size_t w = n / 4;
    for (size_t i = 0; i < w; i++) ((float *) d)[i] = ((const float *) s)[i];
    for (size_t i = w * 4; i < n; i++) ((uint8_t *) d)[i] = ((const uint8_t *) s)[i];
    return d;
}
void *vp_memmove(void *d, const void *s, size_t n) {
#ifdef VP_REPLAY
    return __builtin_memmove(d, s, n);
#else
    if (n == 0) return d;
    if (__CPROVER_POINTER_OBJECT(d) == __CPROVER_POINTER_OBJECT(s) && __CPROVER_POINTER_OFFSET(d) > __CPROVER_POINTER_OFFSET(s)) {
        for (size_t i = n / 4; i > 0; i--) ((float *) d)[i - 1] = ((const float *) s)[i - 1];
        VP_ASSERT(n % 4 == 0, "model: overlapping byte moves are not modelled");
        return d;
    }
    return vp_memcpy(d, s, n);
#endif
}
#endif
char *vp_strdup(const char *s) {
    size_t n = strlen(s) + 1;
    char *p = vp_malloc(n);
    if (p != NULL) memcpy(p, s, n);
    return p;
}
char *vp_strndup(const char *s, size_t m) {
    size_t n = 0;
    while (n < m && s[n] != '\0') n++;
    char *p = vp_malloc(n + 1);
    if (p != NULL) { memcpy(p, s, n); p[n] = '\0'; }
    return p;
}
void *vp_aligned_alloc(size_t a, size_t n) { (void) a; return vp_malloc(n); }
int vp_posix_memalign(void **p, size_t a, size_t n) { (void) a; *p = vp_malloc(n); return *p == NULL ? ENOMEM : 0; }

/* logging: empty bodies */
int vp_printf(const char *f, ...) { (void) f; return 0; }
int vp_fprintf(FILE *s, const char *f, ...) { (void) s; (void) f; return 0; }
int vp_vfprintf(FILE *s, const char *f, va_list ap) { (void) s; (void) f; return 0; }
int vp_puts(const char *f) { (void) f; return 0; }
int vp_fputs(const char *f, FILE *s) { (void) s; (void) f; return 0; }
int vp_putchar(int c) { return c; }
void vp_perror(const char *f) { (void) f; }
char *vp_strerror(int e) { (void) e; return (char *) "error"; }
#ifndef VP_CUSTOM_fflush
int vp_fflush(FILE *s) { (void) s; return 0; }
#endif
#ifndef VP_CUSTOM_snprintf
int vp_snprintf(char *b, size_t n, const char *f, ...) { (void) f; if (n > 0) b[0] = '\0'; return 0; }
int vp_sprintf(char *b, const char *f, ...) { (void) f; b[0] = '\0'; return 0; }
#endif

/* libm: the result is any value in the mathematical range */
#ifndef VP_REAL_MATH
#ifndef VP_CUSTOM_sincos
static double vp_trig(void) { double v = nd_f64(); VP_ASSUME(v >= -1.0 && v <= 1.0); return v; }
double vp_sin(double x) { (void) x; return vp_trig(); }
double vp_cos(double x) { (void) x; return vp_trig(); }
float vp_sinf(float x) { (void) x; return (float) vp_trig(); }
float vp_cosf(float x) { (void) x; return (float) vp_trig(); }
void vp_sincos(double x, double *s, double *c) { *s = vp_sin(x); *c = vp_cos(x); }
void vp_sincosf(float x, float *s, float *c) { *s = vp_sinf(x); *c = vp_cosf(x); }
#endif
#ifndef VP_CUSTOM_explog
double vp_exp(double x) { (void) x; double v = nd_f64(); VP_ASSUME(v >= 0.0); return v; }
double vp_log(double x) { (void) x; return nd_f64(); }
double vp_sqrt(double x) { (void) x; double v = nd_f64(); VP_ASSUME(!(v < 0.0)); return v; }
double vp_tan(double x) { (void) x; return nd_f64(); }
double vp_pow(double x, double y) { (void) x; (void) y; return nd_f64(); }
double vp_atan(double x) { (void) x; double v = nd_f64(); VP_ASSUME(v >= -1.6 && v <= 1.6); return v; }
double vp_atan2(double y, double x) { (void) x; (void) y; double v = nd_f64(); VP_ASSUME(v >= -3.2 && v <= 3.2); return v; }
double vp_asin(double x) { (void) x; double v = nd_f64(); VP_ASSUME(v >= -1.6 && v <= 1.6); return v; }
double vp_acos(double x) { (void) x; double v = nd_f64(); VP_ASSUME(v >= 0 && v <= 3.2); return v; }
float vp_tanf(float x) { return (float) vp_tan(x); }
float vp_expf(float x) { return (float) vp_exp(x); }
float vp_logf(float x) { return (float) vp_log(x); }
float vp_sqrtf(float x) { return (float) vp_sqrt(x); }
float vp_powf(float x, float y) { return (float) vp_pow(x, y); }
float vp_atanf(float x) { return (float) vp_atan(x); }
float vp_atan2f(float x, float y) { return (float) vp_atan2(x, y); }
float vp_asinf(float x) { return (float) vp_asin(x); }
float vp_acosf(float x) { return (float) vp_acos(x); }
#endif
#endif

/* threads: creation is recorded; the harness decides when a body runs */
#ifndef VP_CUSTOM_pthread
#ifndef VP_MAX_THREADS
#define VP_MAX_THREADS 8
#endif
struct vp_thread { void *(*fn)(void *); void *arg; bool ran; bool joined; bool detached; };
struct vp_thread vp_threads[VP_MAX_THREADS + 1];
int vp_nthreads;
bool vp_thread_fail;
/* hook: called on join of a not-yet-run thread so that the harness can run its body to completion */
#ifdef VP_CUSTOM_on_join
static void vp_on_join(int i);
#else
static void vp_on_join(int i) { if (!vp_threads[i].ran) { vp_threads[i].ran = true; vp_threads[i].fn(vp_threads[i].arg); } }
#endif
#ifdef VP_CUSTOM_on_create
static void vp_on_create(int i);
#else
static void vp_on_create(int i) { (void) i; }
#endif
int vp_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    (void) a;
    *t = (pthread_t) 4096;      /* the handle is undefined when creation fails */
    if (vp_thread_fail && nd_bool()) return EAGAIN;
#ifdef VP_THREAD_HOOK
    if (VP_THREAD_HOOK) return EAGAIN;
#endif
#ifdef VP_FAIL_THREAD
    if (vp_nthreads == VP_FAIL_THREAD) return EAGAIN;
#endif
    VP_ASSERT(vp_nthreads < VP_MAX_THREADS, "model: number of threads");
    VP_ASSUME(vp_nthreads < VP_MAX_THREADS);
    int i = vp_nthreads++;
    vp_threads[i].fn = fn; vp_threads[i].arg = arg;
    *t = (pthread_t) (i + 1);
    vp_on_create(i);
    return 0;
}
int vp_bad_joins;
int vp_pthread_join(pthread_t t, void **r) {
    if (r) *r = NULL;
    /* a handle that was never returned by pthread_create is not joinable */
    VP_ASSERT(t != 4096, "only threads that were started are waited for");
    if (t < 1 || t > (pthread_t) vp_nthreads) { vp_bad_joins++; return ESRCH; }
    int i = (int) t - 1;
    VP_ASSERT(!vp_threads[i].joined, "a thread is joined at most once");
    vp_threads[i].joined = true;
    vp_on_join(i);
    return 0;
}
int vp_pthread_detach(pthread_t t) { if (t >= 1 && t <= (pthread_t) vp_nthreads) vp_threads[t - 1].detached = true; return 0; }
pthread_t vp_pthread_self(void) { return (pthread_t) 1; }
#endif
#ifndef VP_CUSTOM_mutex
int vp_locks_held;
int vp_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { (void) m; (void) a; return 0; }
int vp_pthread_mutex_destroy(pthread_mutex_t *m) { (void) m; return 0; }
int vp_pthread_mutex_lock(pthread_mutex_t *m) { (void) m; vp_locks_held++; return 0; }
int vp_pthread_mutex_trylock(pthread_mutex_t *m) { (void) m; vp_locks_held++; return 0; }
int vp_pthread_mutex_unlock(pthread_mutex_t *m) { (void) m; vp_locks_held--; return 0; }
#endif
#ifndef VP_CUSTOM_cond
int vp_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { (void) c; (void) a; return 0; }
int vp_pthread_cond_destroy(pthread_cond_t *c) { (void) c; return 0; }
int vp_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { (void) c; (void) m; return 0; }
int vp_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { (void) t; return vp_pthread_cond_wait(c, m); }
int vp_pthread_cond_signal(pthread_cond_t *c) { (void) c; return 0; }
int vp_pthread_cond_broadcast(pthread_cond_t *c) { (void) c; return 0; }
#endif

#ifndef VP_CUSTOM_getenv
char *vp_getenv(const char *n) { (void) n; return NULL; }
#endif
#ifndef VP_CUSTOM_strtol
long vp_strtol(const char *s, char **e, int b) { (void) s; (void) e; (void) b; return (long) nd_u64(); }
#endif
#ifndef VP_CUSTOM_sleep
unsigned vp_sleep(unsigned s) { (void) s; return 0; }
int vp_usleep(useconds_t s) { (void) s; return 0; }
int vp_nanosleep(const struct timespec *a, struct timespec *b) { (void) a; (void) b; return 0; }
#endif
#ifndef VP_CUSTOM_time
time_t vp_time(time_t *t) { time_t v = (time_t) nd_range(0, 4102444800u); if (t) *t = v; return v; }
int vp_gettimeofday(struct timeval *t, void *z) { (void) z; t->tv_sec = (time_t) nd_range(0, 4102444800u); t->tv_usec = (suseconds_t) nd_range(0, 999999); return 0; }
#endif
typedef void (*vp_sighandler)(int);
vp_sighandler vp_signal(int s, vp_sighandler h) { (void) s; (void) h; return (vp_sighandler) 0; }

/* CBMC has no body for these, or one it cannot fold for constant arguments; semantics fixed by the C standard */
#ifdef VP_CBMC
#ifndef VP_CUSTOM_fmax
double fmax(double a, double b) { return a != a ? b : b != b ? a : a > b ? a : b; }
double fmin(double a, double b) { return a != a ? b : b != b ? a : a < b ? a : b; }
float fmaxf(float a, float b) { return a != a ? b : b != b ? a : a > b ? a : b; }
float fminf(float a, float b) { return a != a ? b : b != b ? a : a < b ? a : b; }
#endif
#ifndef VP_CUSTOM_byteorder
#undef ntohl
#undef htonl
#undef htons
#undef ntohs
uint32_t htonl(uint32_t v) { return (v >> 24) | ((v >> 8) & 0xff00u) | ((v << 8) & 0xff0000u) | (v << 24); }
uint32_t ntohl(uint32_t v) { return htonl(v); }
uint16_t htons(uint16_t v) { return (uint16_t) ((v >> 8) | (v << 8)); }
uint16_t ntohs(uint16_t v) { return htons(v); }
#endif
#endif

#ifdef VP_REPLAY
#include "vp_replay.h"
#endif
#endif
