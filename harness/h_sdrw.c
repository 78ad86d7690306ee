/* One shared receiver with its reading thread, over model clients and a model device.
 * SCRIPT (main thread until R, then inside the device's read call, i.e. between any two steps of the reading thread):
 *   A B C attach client 1..3, a b c detach it, x attach client 4 while memory is exhausted, y the reading thread of the first client cannot start,
 *   R the reading thread runs, d a block, z an empty block, t read timeout, p a short block with an error code, e the device ends, k compare settings,
 *   ? any of: block, timeout, short block with error, end, attach or detach of client 1, 2 or 3.
 * The last detach stops the device; letters after it are what the reading thread still sees before it notices. */
#define VP_CUSTOM_mutex
#define VP_CUSTOM_on_join
static _Bool vp_thread_refused;
#define VP_THREAD_HOOK vp_thread_refused
#include "vp_env.h"
#include "sdr_worker.h"
static const char script[] = SCRIPT;
static size_t pos;
struct dsp_worker_t { uint32_t id; };
#define MAXC 4
static struct dsp_worker_t C[MAXC];
static bool attached[MAXC], gone[MAXC]; static int told[MAXC], got[MAXC], expect[MAXC];
static int held;
static sdr_worker *W; static struct sdr_rx settings;
static bool reading, ended, stopped, dev_destroyed, started; static int stops, reads;
static int device_plugin;
static vp_cf *block; static size_t block_len; static bool have_block;
static vp_cf buf[2];

int vp_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { (void) m; (void) a; return 0; }
int vp_pthread_mutex_destroy(pthread_mutex_t *m) { (void) m; return 0; }
int vp_pthread_mutex_lock(pthread_mutex_t *m) { (void) m; VP_ASSERT(held == 0, "the lock is not taken twice by one thread, nor by the reader while it reads"); held++; return 0; }
int vp_pthread_mutex_trylock(pthread_mutex_t *m) { return vp_pthread_mutex_lock(m); }
int vp_pthread_mutex_unlock(pthread_mutex_t *m) { (void) m; VP_ASSERT(held == 1, "the lock is released once"); held--; return 0; }

static int idx(void *p) {
    int i = p == &C[0] ? 0 : p == &C[1] ? 1 : p == &C[2] ? 2 : p == &C[3] ? 3 : -1;
    VP_ASSERT(i >= 0 && !gone[i], "only live clients are used");
    VP_ASSUME(i >= 0);
    return i;
}
bool dsp_worker_find_by_id(void *id, void *d) { return C[idx(d)].id == *(uint32_t *) id; }
void dsp_worker_destroy(void *d) {
    int i = idx(d);
    VP_ASSERT(held == 1 || !reading || stopped, "a client is not destroyed while the reader may deliver to it");
    gone[i] = true; attached[i] = false;
}
void dsp_worker_shutdown(void *a, void *d) { (void) a; told[idx(d)]++; }
void dsp_worker_put(vp_cf *o, size_t n, dsp_worker *w) {
    int i = idx(w);
    VP_ASSERT(held == 1, "blocks are handed out while nobody attaches or detaches");
    VP_ASSERT(have_block && o == block && n == block_len, "clients get the block that was read, unchanged");
    got[i]++;
}
static void settle(void) {
    for (int i = 0; i < MAXC; i++) VP_ASSERT(got[i] == expect[i], "every block reaches every attached client exactly once, and nobody else");
    have_block = false;
}
static void finish(void) {
    VP_ASSERT(stopped && stops == 1 && dev_destroyed, "the device is stopped and released exactly once");
    VP_ASSERT(held == 0, "the lock is free");
    VP_ASSERT(vp_live == 0, "nothing stays allocated");
    VP_COVER("end");
#ifdef VP_REPLAY
    exit(0);
#else
    VP_ASSUME(0);
#endif
}
static int count(void) { int n = 0; for (int i = 0; i < MAXC; i++) n += attached[i]; return n; }
static void attach(int i, bool fail) {
    int before = told[i];
    if (fail) { vp_fail_alloc = 1; vp_alloc_no = 0; }
    attached[i] = true;
    int code = sdr_worker_add_dsp_worker(&C[i], W);
    vp_fail_alloc = 0;
    if (fail || vp_thread_refused) {
        VP_ASSERT(code != 0, "a client that cannot be attached is refused");
        VP_ASSERT(!gone[i], "a refused client is left to its owner");
        attached[i] = false;
        vp_thread_refused = false;
        return;
    }
    VP_ASSERT(code == 0, "a client can be attached at any time");
    VP_ASSERT(vp_nthreads == 1, "one reading thread serves all clients");
    if (ended) VP_ASSERT(told[i] > before, "a client of an ended device is told to finish");
    else VP_ASSERT(told[i] == before, "nobody is told to finish before the device ends");
    started = true;
}
static void compare(void) {
    struct sdr_rx o; o.rx_center_freq = nd_u64(); o.rx_sampling_freq = nd_u64(); o.rx_offset = nd_i64();
    bool same = (o.rx_center_freq == settings.rx_center_freq) & (o.rx_sampling_freq == settings.rx_sampling_freq) & (o.rx_offset == settings.rx_offset);
    VP_ASSERT(sdr_worker_find_closest(&o, W) == (same && !ended), "receivers are shared exactly by equal settings while the device runs");
    VP_ASSERT(!sdr_worker_find_closest(&o, NULL), "no receiver, no sharing");
}
static bool step(char c) {
    if (c >= 'A' && c <= 'C') attach(c - 'A', false);
    else if (c == 'x') attach(3, true);
    else if (c == 'y') { vp_thread_refused = true; attach(3, false); VP_ASSERT(reads == 0, "nothing is read without a client"); }
    else if (c == 'k') compare();
    else if (c >= 'a' && c <= 'c') {
        bool others[MAXC]; int last = count() == 1;
        for (int i = 0; i < MAXC; i++) others[i] = attached[i];
        sdr_worker_destroy_by_dsp_worker_id(C[c - 'a'].id, W);
        VP_ASSERT(gone[c - 'a'], "a detached client is destroyed");
        for (int i = 0; i < MAXC; i++) if (i != c - 'a') VP_ASSERT(attached[i] == others[i] && gone[i] == (i != 3 && !others[i] && gone[i]), "the other clients stay");
        if (last) finish();
        VP_ASSERT(stops == 0 && !dev_destroyed, "the device runs while a client is attached");
    } else return false;
    return true;
}
/* every next event, by case split */
static char any(void) {
    uint8_t e = nd_u8();
    if (e == 0) return 'd';
    if (e == 1) return 't';
    if (e == 2) return 'p';
    if (e == 3) return 'e';
    if (e == 4) if (!stopped && !gone[0]) return attached[0] ? 'a' : 'A';
    if (e == 5) if (!stopped && !gone[1]) return attached[1] ? 'b' : 'B';
    if (e == 6) if (!stopped && !gone[2]) return attached[2] ? 'c' : 'C';
    VP_ASSUME(0);
    return 'e';
}
static char any_main(void) { char c = any(); if (c == 'd' || c == 't' || c == 'p' || c == 'e') return 'k'; return c; }
static int dev_read(vp_cf **o, size_t *n, void *plugin) {
    VP_ASSERT(plugin == &device_plugin && !dev_destroyed && started + vp_nthreads > 0, "the device is read while it exists");
    VP_ASSERT(held == 0, "clients can attach and detach while the device is read");
    VP_ASSERT(!ended, "an ended device is not read");
    reads++;
    settle();
    char c;
    for (;;) {
        c = script[pos];
        if (c == 0) break;
        pos++;
        if (c == '?') c = any();
        if (!step(c)) break;
    }
    int code = 0; size_t len = 0;
    if (c == 0 || c == 'e') { code = -1; ended = true; }
    else if (c == 't') code = reads % 2 ? -11 : -2;
    else {
        len = c == 'z' ? 0 : 1 + (size_t) reads * 37 % 4096;
        if (c == 'p') code = reads % 2 ? -1 : -104;
        block = &buf[reads % 2]; block_len = len; have_block = true;
        for (int i = 0; i < MAXC; i++) expect[i] += attached[i];
        *o = block;
    }
    *n = len;
    return code;
}
static int dev_tx(vp_cf *i, size_t n, void *p) { (void) i; (void) n; (void) p; return -1; }
static void dev_stop(void *p) { VP_ASSERT(p == &device_plugin && !dev_destroyed, "an existing device is stopped"); VP_ASSERT(count() == 0 && held == 0, "the device is stopped after its last client left"); stopped = true; stops++; }
static void dev_destroy(void *p) { VP_ASSERT(p == &device_plugin && !dev_destroyed, "the device is released once"); VP_ASSERT(!reading || vp_threads[0].joined, "the device is released after its reader finished"); dev_destroyed = true; }
static void run_reader(void) {
    reading = true;
    vp_threads[0].ran = true;
    vp_threads[0].fn(vp_threads[0].arg);
    settle();
    reading = false;
    VP_ASSERT(ended, "the reader finishes only when the device ends");
    VP_ASSERT(held == 0, "the lock is free");
    for (int i = 0; i < MAXC; i++) if (attached[i]) VP_ASSERT(told[i] > 0, "every attached client is told to finish when the device ends");
}
/* a reader that is inside its read call (or has not run yet) goes on until it ends */
static void vp_on_join(int i) {
    (void) i;
    VP_ASSERT(held == 0, "the reader can always finish while it is waited for");
    if (ended) return;
    vp_threads[i].ran = true;
    VP_ASSERT(stopped, "a running reader is stopped before it is waited for");
    run_reader();
}
VP_MAIN {
    for (int i = 0; i < MAXC; i++) C[i].id = (uint32_t) i + 10;
    sdr_device *dev = vp_malloc_ok(sizeof(sdr_device));
    *dev = (sdr_device) {.plugin = &device_plugin, .sdr_process_rx = dev_read, .sdr_process_tx = dev_tx, .destroy = dev_destroy, .stop_rx = dev_stop};
    struct sdr_rx *rx = vp_malloc_ok(sizeof(struct sdr_rx));
    rx->rx_center_freq = nd_u64(); rx->rx_sampling_freq = nd_u64(); rx->rx_offset = nd_i64();
    settings = *rx;
#ifdef SIMPLE /* path-by-path exploration of events only */
    rx->rx_center_freq = settings.rx_center_freq = 1; rx->rx_sampling_freq = settings.rx_sampling_freq = 2; rx->rx_offset = settings.rx_offset = 3;
#endif
    int code = sdr_worker_create(7, rx, dev, &W);
    VP_ASSERT(code == 0 && vp_nthreads == 0 && reads == 0, "a receiver waits for its first client");
    while (script[pos] != 0) {
        char c = script[pos++];
        if (c == '?') c = any_main();
        if (c == 'R') run_reader();
        else if (!step(c)) VP_ASSERT(false, "model: script");
    }
    /* nobody (left): the server destroys the receiver */
    if (count() == 0) { sdr_worker_destroy(W); finish(); }
    for (int i = 0; i < 3; i++) if (attached[i]) step((char) ('a' + i));
}
