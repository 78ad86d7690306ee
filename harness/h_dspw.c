/* One receive client: real dsp_worker.c and real queue.c over model demodulator, frequency correction, files and socket.
 * SCRIPT: p put a block, s the device ends, > the client's thread runs (letters after it happen whenever the thread waits for data, or after it ended), D the client is destroyed.
 * Solver-chosen, path by path: dump or not, frequency correction or not, demodulator or not, destination, what every block demodulates to, which output operation fails.
 * -DCREATEFAIL: which step of the creation fails.  -DRXTYPE, -DQS queue size */
#define VP_CUSTOM_cond
#define VP_CUSTOM_mutex
#define VP_CUSTOM_snprintf
#define VP_CUSTOM_on_join
#ifdef CREATEFAIL
static _Bool step_fails(void);
#define VP_THREAD_HOOK step_fails()
#endif
#include "vp_env.h"
#include "dsp_worker.h"
#include "queue.h"
#include "api.h"
#include "dsp/fsk_demod.h"
#include "dsp/doppler.h"
#ifndef QS
#define QS 8
#endif
#ifndef FAILN
#define FAILN 0
#endif
#define BUFSZ 3
#define ID 42
static const char script[] = SCRIPT;
static size_t pos;
static dsp_worker *W;
static bool o_dump, o_dopp, o_demod, o_file, o_sock;
static int held, wakes; static int waiting; /* 1 consumer, 2 producer */
static bool running, over, poisoned, failed, destroyed;
static int puts_done, taken;

/* ---- what must come out ---- */
#define MAXBL 6
#define CAP (MAXBL * BUFSZ)
static int blk_len[MAXBL], n_blk;
static float raw[2 * CAP]; static int n_raw;          /* samples accepted by the client, in order */
static float corr[2 * BUFSZ];
static int n_dump, n_corr, n_demod;                   /* samples seen by each stage */
static int8_t soft[CAP]; static int n_soft, n_file, n_sockd; static bool soft_null;
static int8_t outb[4];
static int opens_dump, opens_file, closes_dump, closes_file, demod_live, dopp_live, demod_made, dopp_made;
static int dump_f, demod_f;
static int n_op, failat, n_step, stepat;
static bool op_fails(void) { if (failed || ++n_op != failat) return false; failed = true; return true; }
#ifdef CREATEFAIL
static bool step_hit;
static bool step_fails(void) { if (step_hit || ++n_step != stepat) return false; step_hit = true; return true; }
#else
static bool step_fails(void) { return false; }
#endif

/* a copy of the last formatted text: large buffers of the code are slow to read symbolically */
static char text[48]; static const char *text_at;
int vp_snprintf(char *dst, size_t n, const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); size_t k = 0; char *b = text;
    for (int i = 0; fmt[i] != 0; i++) {
        if (fmt[i] != '%') { b[k++] = fmt[i]; continue; }
        i++;
        if (fmt[i] == 's') { const char *s = va_arg(ap, const char *); for (int j = 0; s[j] != 0; j++) b[k++] = s[j]; }
        else { VP_ASSERT(fmt[i] == 'd' || fmt[i] == 'u', "model: format"); int v = va_arg(ap, int); VP_ASSERT(v == ID, "files carry the number of their client"); b[k++] = '4'; b[k++] = '2'; }
    }
    VP_ASSERT(k < n, "file names fit");
    b[k] = 0; va_end(ap);
    text_at = dst;
    for (size_t i = 0; i <= k; i++) dst[i] = b[i];
    return (int) k;
}
int vp_sprintf(char *b, const char *f, ...) { (void) f; b[0] = 0; return 0; }
static bool eq(const char *a, const char *b) { int i = 0; for (; a[i] != 0 && a[i] == b[i]; i++); return a[i] == b[i]; }
FILE *vp_fopen(const char *name, const char *mode) {
    VP_ASSERT(mode[0] == 'w', "outputs are opened for writing");
    if (step_fails()) return NULL;
    if (name == text_at) name = text;
    if (eq(name, "/base/rx.sdr2demod.42.cf32")) { VP_ASSERT(o_dump, "samples are dumped only on request"); opens_dump++; return (FILE *) &dump_f; }
    VP_ASSERT(eq(name, "/base/rx.demod2client.42.s8") && o_file, "the file of demodulated bytes has its name and is made only on request");
    opens_file++;
    return (FILE *) &demod_f;
}
int vp_fclose(FILE *f) { if (f == (FILE *) &dump_f) closes_dump++; else { VP_ASSERT(f == (FILE *) &demod_f, "only opened files are closed"); closes_file++; } VP_ASSERT(!running || over, "files are closed after the thread finished"); return 0; }
static size_t put_soft(const int8_t *p, size_t n, int *at, const char *dummy) {
    (void) dummy;
    for (size_t i = 0; i < n; i++) { VP_ASSERT(*at < n_soft && p[i] == soft[*at], "demodulated bytes are delivered complete and in order"); (*at)++; }
    return n;
}
size_t vp_fwrite(const void *p, size_t sz, size_t n, FILE *f) {
    VP_ASSERT(f == (FILE *) &dump_f ? opens_dump == 1 && closes_dump == 0 : f == (FILE *) &demod_f && opens_file == 1 && closes_file == 0, "open files are written");
    VP_ASSERT(held == 0, "outputs are written without blocking the sample source");
    bool fail = n > 0 && op_fails();
    size_t done = fail ? n / 2 : n;
    if (f == (FILE *) &dump_f) {
        VP_ASSERT(fail || !failed, "a client whose output failed stops");
        size_t s = done * sz / sizeof(vp_cf);
        for (size_t i = 0; i < s; i++) {
            VP_ASSERT(n_dump < n_raw && ((const float *) p)[2 * i] == raw[2 * n_dump] && ((const float *) p)[2 * i + 1] == raw[2 * n_dump + 1], "raw samples are dumped complete and in order");
            n_dump++;
        }
    } else put_soft(p, done * sz, &n_file, "file");
    return done;
}
int tcp_utils_write_data(uint8_t *b, size_t n, int socket) {
    VP_ASSERT(socket == 7 && o_sock, "bytes are sent to the client only on request");
    VP_ASSERT(held == 0, "outputs are written without blocking the sample source");
    if (n > 0 && op_fails()) return -1;
    put_soft((const int8_t *) b, n, &n_sockd, "socket");
    return 0;
}
static char the_dopp, the_demod;
int doppler_create(double la, double lo, double al, uint64_t fs, uint64_t fc, int64_t off, time_t start, uint32_t max, char tle[3][80], doppler **r) {
    VP_ASSERT(o_dopp && fs == 48000 && fc == 437000000 && off == 0 && max >= BUFSZ && tle[0][0] == 'x' && start == (time_t) 1234, "frequency correction is made for the requested settings");
    VP_ASSERT((float) (la * 10E6) == 5e6f && (float) (lo * 10E6) == 7e6f && (float) (al * 10E3) == 9e3f, "frequency correction is made for the requested place");
    if (step_fails()) return -1;
    dopp_made++; dopp_live++; *r = (doppler *) &the_dopp;
    return 0;
}
void doppler_destroy(doppler *d) { VP_ASSERT(d == (doppler *) &the_dopp && dopp_live == 1 && (!running || over), "frequency correction is released once, after the thread finished"); dopp_live--; }
void doppler_process_tx(vp_cf *i, size_t n, vp_cf **o, size_t *on, doppler *d) { (void) i; (void) n; (void) o; (void) on; (void) d; VP_ASSERT(false, "received samples are corrected as received"); }
void doppler_process_rx(vp_cf *in, size_t n, vp_cf **o, size_t *on, doppler *d) {
    VP_ASSERT(d == (doppler *) &the_dopp && dopp_live == 1 && o_dopp && !failed, "live correction is used");
    VP_ASSERT(n <= BUFSZ, "blocks fit the stages");
    for (size_t i = 0; i < n; i++) {
        VP_ASSERT(n_corr < n_raw && ((float *) in)[2 * i] == raw[2 * n_corr] && ((float *) in)[2 * i + 1] == raw[2 * n_corr + 1], "every sample is corrected once, in order");
        corr[2 * i] = raw[2 * n_corr] + 100; corr[2 * i + 1] = raw[2 * n_corr + 1];
        n_corr++;
    }
    *o = (vp_cf *) corr; *on = n;
}
int fsk_demod_create(uint64_t fs, uint32_t baud, int64_t dev, uint8_t dec, uint32_t tw, bool dc, uint32_t max, fsk_demod **r) {
    VP_ASSERT(o_demod && fs == 48000 && baud == 4800 && dev == -600 && dec == 2 && tw == 2000 && dc && max >= BUFSZ, "the demodulator is made for the requested settings");
    if (step_fails()) return -1;
    demod_made++; demod_live++; *r = (fsk_demod *) &the_demod;
    return 0;
}
void fsk_demod_destroy(fsk_demod *d) { VP_ASSERT(d == (fsk_demod *) &the_demod && demod_live == 1 && (!running || over), "the demodulator is released once, after the thread finished"); demod_live--; }
void fsk_demod_process(const vp_cf *in, size_t n, int8_t **o, size_t *on, fsk_demod *d) {
    VP_ASSERT(d == (fsk_demod *) &the_demod && demod_live == 1 && !failed, "a live demodulator is used");
    VP_ASSERT(n <= BUFSZ, "blocks fit the stages");
    for (size_t i = 0; i < n; i++) {
        VP_ASSERT(n_demod < n_raw && ((const float *) in)[2 * i] == raw[2 * n_demod] + (o_dopp ? 100 : 0) && ((const float *) in)[2 * i + 1] == raw[2 * n_demod + 1], "every (corrected) sample is demodulated once, in order");
        n_demod++;
    }
    uint8_t kind = nd_u8();
    *o = NULL; *on = 0;
    if (kind == 0) return;
    *o = outb;
    if (kind == 1) return;
    *on = 2;
    for (int i = 0; i < 2; i++) { outb[i] = nd_i8(); soft[n_soft++] = outb[i]; }
}
void api_utils_convert_tle(char **tle, char (*out)[80]) { VP_ASSERT(tle[0][0] == 't', "the requested element set is used"); out[0][0] = 'x'; out[0][1] = 0; out[1][0] = out[2][0] = 0; }

/* ---- threads ---- */
int vp_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { (void) m; (void) a; return 0; }
int vp_pthread_mutex_destroy(pthread_mutex_t *m) { (void) m; return 0; }
int vp_pthread_mutex_lock(pthread_mutex_t *m) { (void) m; VP_ASSERT(held == 0, "queue lock is never taken twice by one thread"); held++; return 0; }
int vp_pthread_mutex_trylock(pthread_mutex_t *m) { return vp_pthread_mutex_lock(m); }
int vp_pthread_mutex_unlock(pthread_mutex_t *m) { (void) m; VP_ASSERT(held == 1, "queue lock released only while held"); held--; return 0; }
int vp_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { (void) c; (void) a; return 0; }
int vp_pthread_cond_destroy(pthread_cond_t *c) { (void) c; return 0; }
int vp_pthread_cond_signal(pthread_cond_t *c) { (void) c; wakes++; return 0; }
int vp_pthread_cond_broadcast(pthread_cond_t *c) { (void) c; wakes++; return 0; }

static void all_delivered(void) {
    if (failed) return;
    if (o_dump) VP_ASSERT(n_dump == n_raw, "every sample reaches the dump");
    if (o_dopp) VP_ASSERT(n_corr == n_raw, "every sample is corrected");
    if (o_demod) VP_ASSERT(n_demod == n_raw, "every sample is demodulated");
    if (o_file) VP_ASSERT(n_file == n_soft, "every byte reaches the file");
    if (o_sock) VP_ASSERT(n_sockd == n_soft, "every byte reaches the client");
}
static void no_more(void) {
#ifdef VP_REPLAY
    exit(0);
#else
    VP_ASSUME(0);
#endif
}
static void run(void) {
    running = true;
    vp_threads[0].ran = true;
    vp_threads[0].fn(vp_threads[0].arg);
    over = true; waiting = 0;
    VP_ASSERT(held == 0, "the lock is free");
    VP_ASSERT(failed || poisoned, "the client stops only on failure or at the end");
    all_delivered();
}
static void put(void) {
    vp_cf in[BUFSZ];
    size_t n = (size_t) (puts_done % BUFSZ) + 1;
    for (size_t i = 0; i < n; i++) { ((float *) in)[2 * i] = (float) (10 * puts_done + (int) i); ((float *) in)[2 * i + 1] = (float) (puts_done + 1); }
    puts_done++;
    int w = waiting; if (w == 0) waiting = 2;
    dsp_worker_put(in, n, W);
    waiting = w;
    if (!poisoned && !over) for (size_t i = 0; i < n; i++) { raw[2 * n_raw] = ((float *) in)[2 * i]; raw[2 * n_raw + 1] = ((float *) in)[2 * i + 1]; n_raw++; }
    VP_ASSERT(held == 0, "the lock is free");
}
#if FAILN == 0
#define END VP_COVER("end")
#else
#define END
#endif
static void finish(void) {
    VP_ASSERT(opens_dump == o_dump && closes_dump == opens_dump && opens_file == o_file && closes_file == opens_file, "files are opened as requested and closed exactly once");
    VP_ASSERT(demod_made == o_demod && demod_live == 0 && dopp_made == o_dopp && dopp_live == 0, "stages are made as requested and released exactly once");
    VP_ASSERT(vp_live == 0, "nothing stays allocated");
    END;
}
static void destroy(void) {
    destroyed = true; poisoned = true;
    VP_ASSERT(dsp_worker_find_by_id(&(uint32_t){ID}, W) && !dsp_worker_find_by_id(&(uint32_t){ID + 1}, W), "a client is found by its number");
    dsp_worker_destroy(W);
    VP_ASSERT(over, "the thread is waited for");
    VP_ASSERT(held == 0, "the lock is free");
    finish();
    no_more();
}
static bool act(void) {
    char c = script[pos];
    if (c == 0) return false;
    pos++;
    if (c == 'p') put();
    else if (c == 's') { poisoned = true; dsp_worker_shutdown(NULL, W); VP_ASSERT(held == 0, "the lock is free"); }
    else if (c == 'D') destroy();
    else run();
    return true;
}
/* a thread that waits for data (or has not started) goes on until it ends */
static void vp_on_join(int i) { (void) i; VP_ASSERT(held == 0, "the thread can always finish while it is waited for"); if (!over) run(); }
int vp_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    (void) c; (void) m;
    VP_ASSERT(held == 1, "waiting happens with the lock held");
    held = 0;
    if (waiting == 2 || (running && !over && waiting == 1)) {
        /* the producer waits for room */
        VP_ASSERT(!over && !poisoned, "the sample source never waits for a client that has stopped");
        if (running) { VP_ASSERT(wakes > 0, "the client was woken"); no_more(); return 0; }
        waiting = 0;
        run();      /* ends only by a failure: otherwise the thread waits for data below */
        waiting = 2; held = 1;
        return 0;
    }
    /* the client waits for data */
    VP_ASSERT(!poisoned, "a finished client does not wait for data");
    all_delivered();
    waiting = 1;
    int before = n_raw;
    while (!poisoned && n_raw == before) if (!act()) { destroy(); return 0; }
    waiting = 0; held = 1;
    return 0;
}
int vp_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { (void) t; return vp_pthread_cond_wait(c, m); }

static char t0[] = "t", base[] = "/base";
VP_MAIN {
    o_dump = false; o_dopp = false; o_demod = false; o_file = false; o_sock = false;
#ifdef DEST
    if (DUMP) o_dump = true; if (DOPP) o_dopp = true; if (DEMOD) o_demod = true; uint8_t dest = DEST;
#else
    if (nd_bool()) o_dump = true; if (nd_bool()) o_dopp = true; if (nd_bool()) o_demod = true;
    uint8_t dest = nd_u8();
#endif
    RxRequest r = RX_REQUEST__INIT; FskDemodulationSettings f = FSK_DEMODULATION_SETTINGS__INIT; DopplerSettings d = DOPPLER_SETTINGS__INIT; FileSettings fs = FILE_SETTINGS__INIT;
    char *tle[3] = {t0, t0, t0};
    d.tle = tle; d.n_tle = 3; d.latitude = 5000000; d.longitude = 7000000; d.altitude = 9000;
    f.demod_fsk_deviation = -600; f.demod_fsk_transition_width = 2000; f.demod_fsk_use_dc_block = true;
    fs.start_time_seconds = 1234;
    r.rx_sampling_freq = 48000; r.rx_center_freq = 437000000; r.demod_baud_rate = 4800; r.demod_decimation = 2; r.fsk_settings = &f; r.file_settings = &fs;
    r.rx_dump_file = o_dump;
    if (o_dopp) r.doppler = &d;
    r.demod_type = o_demod ? MODEM_TYPE__GMSK : MODEM_TYPE__GMSK + 1;
    if (dest == 0) { r.demod_destination = DEMOD_DESTINATION__FILE; o_file = true; }
    else if (dest == 1) { r.demod_destination = DEMOD_DESTINATION__SOCKET; o_sock = true; }
    else { r.demod_destination = DEMOD_DESTINATION__BOTH; o_file = o_sock = true; }
    struct server_config conf = {0};
    conf.buffer_size = BUFSZ; conf.queue_size = QS; conf.rx_sdr_type = RXTYPE; conf.base_path = base;
    failat = FAILAT < 0 ? (int) nd_u8() : FAILAT;
    vp_fail_alloc = FAILN;
#ifdef CREATEFAIL
    stepat = (int) nd_u8();
#endif
    W = NULL;
    int code = dsp_worker_create(ID, 7, &conf, &r, &W);
    vp_fail_alloc = 0;
#ifdef CREATEFAIL
    if (step_hit || FAILN != 0) {
        VP_ASSERT(code != 0 && W == NULL, "a client that cannot be set up is refused");
        VP_ASSERT(closes_dump == opens_dump && closes_file == opens_file && demod_live == 0 && dopp_live == 0 && vp_live == 0, "a refused client leaves nothing behind");
        VP_ASSERT(vp_nthreads == 0 && held == 0, "a refused client has no thread");
        VP_COVER("refused");
        return;
    }
#endif
#if FAILN == 0
    VP_ASSERT(code == 0 && W != NULL && vp_nthreads == 1, "a client is set up");
    while (act()) {}
    destroy();
#endif
}
