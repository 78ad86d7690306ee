/* File source: recordings of FLEN samples read and written in blocks of at most MAXB samples.
 * -DRX / -DTX which files are given, -DOFFSET frequency offset, -DOPS script: r read a block, digits write that many samples,
 * + write one more than the maximum, s stop; -DERRAT n: reading fails after n samples;
 * -DFAILK creation step that fails: 1 rx file, 2 tx file, 3 mixer; -DFAILN n-th allocation */
#define VP_CUSTOM_cond
#define VP_CUSTOM_mutex
#include "vp_env.h"
#include <complex.h>
#include "sdr/file_source.h"
#include "dsp/sig_source.h"
#ifndef FAILK
#define FAILK 0
#endif
#ifndef FAILN
#define FAILN 0
#endif
#ifndef ERRAT
#define ERRAT -1
#endif
#define RATE 48000u
static int rx_file, tx_file;       /* their addresses stand for the open files */
static int rx_opens, tx_opens, rx_closes, tx_closes;
static vp_cf rec[FLEN + 1]; static int rec_pos; static bool rec_err;
#define OUTS 16
static vp_cf wrote[OUTS], want[OUTS]; static int n_wrote, n_want;
static bool stopped; static int held;
static sdr_device *dev;

FILE *vp_fopen(const char *name, const char *mode) {
    if (name[0] == 'r') {
        VP_ASSERT(mode[0] == 'r', "the recording is opened for reading");
        if (FAILK == 1) return NULL;
        rx_opens++; return (FILE *) &rx_file;
    }
    VP_ASSERT(name[0] == 't' && mode[0] == 'w', "the output is opened for writing");
    if (FAILK == 2) return NULL;
    tx_opens++; return (FILE *) &tx_file;
}
int vp_fclose(FILE *f) { if (f == (FILE *) &rx_file) rx_closes++; else if (f == (FILE *) &tx_file) tx_closes++; else VP_ASSERT(false, "only opened files are closed"); return 0; }
size_t vp_fread(void *p, size_t sz, size_t n, FILE *f) {
    VP_ASSERT(f == (FILE *) &rx_file && rx_opens == 1 && rx_closes == 0, "reading uses the open recording");
    VP_ASSERT(sz * n <= sizeof(vp_cf) * MAXB, "a read never exceeds the configured block");
    size_t k = 0, samples = sz * n / sizeof(vp_cf);
    for (; k < samples; k++) {
        if (rec_pos == ERRAT) { rec_err = true; break; }
        if (rec_pos == FLEN) break;
        ((vp_cf *) p)[k] = rec[rec_pos++];
    }
    return k * sizeof(vp_cf) / sz;
}
int vp_ferror(FILE *f) { (void) f; return rec_err; }
int vp_feof(FILE *f) { (void) f; return rec_pos == FLEN; }
size_t vp_fwrite(const void *p, size_t sz, size_t n, FILE *f) {
    VP_ASSERT(f == (FILE *) &tx_file && tx_opens == 1 && tx_closes == 0, "writing uses the open output");
    size_t samples = sz * n / sizeof(vp_cf);
    VP_ASSERT(samples * sizeof(vp_cf) == sz * n && n_wrote + samples <= OUTS, "whole samples are written, no more than were given");
    for (size_t i = 0; i < samples; i++) wrote[n_wrote++] = ((const vp_cf *) p)[i];
    return n;
}
/* mixer stand-in: its result is the sample with its parts exchanged */
struct sig_source_t { int made, freed; };
static struct sig_source_t mixer;
static vp_cf mixed[MAXB];
static vp_cf swap(vp_cf c) { vp_cf r = c; ((float *) &r)[0] = ((float *) &c)[1]; ((float *) &r)[1] = ((float *) &c)[0]; return r; }
int sig_source_create(float amp, uint64_t rate, uint32_t max, sig_source **s) {
    VP_ASSERT(amp == 1.0f && rate == RATE && max == MAXB, "the mixer is made for the device's rate and block size");
    if (FAILK == 3) return -ENOMEM;
    mixer.made++; *s = &mixer;
    return 0;
}
void sig_source_multiply(int64_t freq, const vp_cf *in, size_t n, vp_cf **out, size_t *out_len, sig_source *s) {
    VP_ASSERT(s == &mixer && mixer.made == 1 && mixer.freed == 0, "the created mixer is used");
    VP_ASSERT(freq == OFFSET, "samples are shifted by exactly the requested offset");
    VP_ASSERT(n <= MAXB, "the mixer is given no more than its block size");
    for (size_t i = 0; i < n; i++) mixed[i] = swap(in[i]);
    *out = mixed; *out_len = n;
}
void sig_source_destroy(sig_source *s) { if (s != NULL) s->freed++; }

int vp_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { (void) m; (void) a; return 0; }
int vp_pthread_mutex_destroy(pthread_mutex_t *m) { (void) m; return 0; }
int vp_pthread_mutex_lock(pthread_mutex_t *m) { (void) m; VP_ASSERT(held == 0, "the lock is not taken twice"); held++; return 0; }
int vp_pthread_mutex_trylock(pthread_mutex_t *m) { return vp_pthread_mutex_lock(m); }
int vp_pthread_mutex_unlock(pthread_mutex_t *m) { (void) m; VP_ASSERT(held == 1, "the lock is released once"); held--; return 0; }
int vp_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { (void) c; (void) a; return 0; }
int vp_pthread_cond_destroy(pthread_cond_t *c) { (void) c; return 0; }
static int wakes, waits;
int vp_pthread_cond_signal(pthread_cond_t *c) { (void) c; wakes++; return 0; }
int vp_pthread_cond_broadcast(pthread_cond_t *c) { (void) c; wakes++; return 0; }
int vp_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    (void) c; (void) m;
    VP_ASSERT(held == 1, "waiting happens with the lock held");
    VP_ASSERT(!stopped, "nobody waits after the stop");
    held = 0;
    if (waits++ >= 2 || nd_bool()) { int w = wakes; dev->stop_rx(dev->plugin); stopped = true; VP_ASSERT(wakes > w, "stopping wakes the reader"); }
    held = 1;
    return 0;
}
int vp_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { (void) t; return vp_pthread_cond_wait(c, m); }

static bool same_bits(const vp_cf *a, const vp_cf *b) { const float *x = (const float *) a, *y = (const float *) b; return x[0] == y[0] && x[1] == y[1]; }
static void fresh(vp_cf *c) { int16_t a = (int16_t) nd_u16(), b = (int16_t) nd_u16(); ((float *) c)[0] = (float) a; ((float *) c)[1] = (float) b; }
static vp_cf block[MAXB + 1];
VP_MAIN {

    for (int i = 0; i < FLEN; i++) fresh(&rec[i]);
    vp_fail_alloc = FAILN;
    uint32_t id = nd_u32();
    int code = file_source_create(id, RX ? "rx" : NULL, TX ? "tx" : NULL, RATE, OFFSET, MAXB, &dev);
    vp_fail_alloc = 0;
#if FAILK != 0 || FAILN != 0
        VP_ASSERT(code != 0 && dev == NULL, "a failed creation is reported and hands out nothing");
        VP_ASSERT(vp_live == 0 && rx_opens == rx_closes && tx_opens == tx_closes && mixer.made == mixer.freed, "a failed creation releases everything once");
        VP_COVER("end");
#else
    VP_ASSERT(code == 0 && dev != NULL, "the source is created");
    VP_ASSUME(code == 0 && dev != NULL);
    VP_ASSERT(rx_opens == (RX ? 1 : 0) && tx_opens == (TX ? 1 : 0), "exactly the given files are opened");
    int delivered = 0;
    const char *ops = OPS;
    for (int k = 0; ops[k] != 0; k++) {
        char op = ops[k];
        if (op == 'r') {
            vp_cf *o = NULL; size_t n = 77;
            int left = (ERRAT >= 0 ? ERRAT : FLEN) - delivered;
            code = dev->sdr_process_rx(&o, &n, dev->plugin);
            VP_ASSERT(held == 0, "the lock is free afterwards");
            if (!RX || left == 0) {
                VP_ASSERT(code == -1 && n == 0, "after the last sample, or without a recording, nothing is delivered");
                VP_ASSERT(!RX || ERRAT >= 0 || stopped, "at the end the source waits until it is stopped");
                continue;
            }
            VP_ASSERT(code == 0 && o != NULL, "a recording with samples left is delivered");
            VP_ASSUME(code == 0 && o != NULL);
            VP_ASSERT(n >= 1 && n <= MAXB && n <= (size_t) left, "a block is not larger than configured");
            VP_ASSUME(n >= 1 && n <= MAXB && n <= (size_t) left);
            for (size_t i = 0; i < MAXB; i++)
                if (i < n) {
                    vp_cf w = rec[delivered + i];
                    if (OFFSET != 0) w = swap(w);
                    VP_ASSERT(same_bits(&o[i], &w), "samples are delivered in order, shifted by the offset");
                }
            delivered += (int) n;
        } else if (op == 's') {
            dev->stop_rx(dev->plugin); stopped = true;
        } else {
            size_t n = op == '+' ? MAXB + 1 : (size_t) (op - '0');
            for (size_t i = 0; i < n; i++) fresh(&block[i]);
            code = dev->sdr_process_tx(block, n, dev->plugin);
            if (!TX || n > MAXB) { VP_ASSERT(code != 0, "too long blocks and a missing output are refused"); continue; }
            VP_ASSERT(code == 0, "a block is written");
            for (size_t i = 0; i < n; i++) want[n_want++] = OFFSET != 0 ? swap(block[i]) : block[i];
        }
        VP_ASSERT(n_wrote == n_want, "every given sample is written once");
    }
    for (int i = 0; i < OUTS; i++) if (i < n_want) VP_ASSERT(same_bits(&wrote[i], &want[i]), "samples are written in order, shifted by the offset");
    VP_COVER("end");
    dev->destroy(dev->plugin);
    free(dev);
    VP_ASSERT(vp_live == 0 && rx_opens == rx_closes && tx_opens == tx_closes && mixer.made == mixer.freed, "destroying releases everything once");
    VP_ASSERT(mixer.made == (OFFSET != 0), "a mixer exists exactly when there is an offset");
#endif
}
