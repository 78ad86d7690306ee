/* PlutoSDR device over a model of the radio library.
 * -DSETUP: creation and destruction. SCRIPT letters: T/R/B create a transmit / receive / combined device, F the same as KIND but the FAILAT-th
 *          library call (-1: every one in turn, and none) or the FAILN-th allocation fails, 1..3 destroy the n-th device.  Rates lie in [RLO,RHI] (receive) and [TLO,THI] (transmit).
 * -DTXS "..": block lengths to transmit (digits), FAILPUSH n-th push fails;  -DRXS "..": digits = points in a transfer, h = one and a half, + = too many, f = refill fails, s = stop */
#define VP_CUSTOM_snprintf
#define VP_CUSTOM_mutex
#include "vp_env.h"
#include "vp_volk.h"
#include <complex.h>
#include "sdr/plutosdr.h"
#ifndef FAILAT
#define FAILAT 0
#endif
#ifndef FAILN
#define FAILN 0
#endif
#ifndef FAILPUSH
#define FAILPUSH 0
#endif
#ifndef KIND
#define KIND 'B'
#endif
#ifndef RLO
#define RLO 2400000
#define RHI 2400000
#endif
#ifndef TLO
#define TLO 600000
#define THI 600000
#endif
#ifndef GMODE
#define GMODE IIO_GAIN_MODE_MANUAL
#endif
#ifndef RXONLY
#define RXONLY 0
#endif
#ifndef MAXB
#define MAXB 4
#endif
static int held;
int vp_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { (void) m; (void) a; return 0; }
int vp_pthread_mutex_destroy(pthread_mutex_t *m) { (void) m; return 0; }
int vp_pthread_mutex_lock(pthread_mutex_t *m) { (void) m; VP_ASSERT(held == 0, "the lock is not taken twice"); held++; return 0; }
int vp_pthread_mutex_trylock(pthread_mutex_t *m) { return vp_pthread_mutex_lock(m); }
int vp_pthread_mutex_unlock(pthread_mutex_t *m) { (void) m; VP_ASSERT(held == 1, "the lock is released once"); held--; return 0; }

/* ---- the radio library ---- */
struct iio_device { int dummy; };
struct iio_channel { int dev; bool out; const char *name; int on; long long freq, rate, bw; int power; bool dds_off; int mode; double gain; bool has_gain; };
struct iio_context { int alive; };
struct iio_scan_context { int alive; };
struct iio_context_info { int dummy; };
struct iio_buffer { int alive, dev; size_t n; };
static struct iio_device phy, txd, rxd;
static struct iio_channel lo_rx = {0, true, "altvoltage0"}, lo_tx = {0, true, "altvoltage1"}, p_rx = {0, false, "voltage0"}, p_tx = {0, true, "voltage0"}, p_out = {0, false, "out"},
    d1 = {1, true, "TX1_I_F1"}, d2 = {1, true, "TX1_Q_F1"}, d3 = {1, true, "TX1_Q_F2"}, d4 = {1, true, "TX1_I_F2"}, tx_i = {1, true, "voltage0"}, tx_q = {1, true, "voltage1"}, rx_i = {2, false, "voltage0"}, rx_q = {2, false, "voltage1"};
static struct iio_channel *all_ch[13] = {&lo_rx, &lo_tx, &p_rx, &p_tx, &p_out, &d1, &d2, &d3, &d4, &tx_i, &tx_q, &rx_i, &rx_q};
static struct iio_context the_ctx; static struct iio_scan_context the_scan; static struct iio_context_info the_info, *infos[1] = {&the_info};
static struct iio_buffer tx_buf = {0, 1, 0}, rx_buf = {0, 2, 0};
static int n_call, ctx_made, ctx_freed, info_live, failat; static bool failing, hit;
static unsigned int ctx_timeout; static int fir_on;
static bool fails(void) { if (!failing || hit || ++n_call != failat) return false; hit = true; return true; }
static bool eq(const char *a, const char *b) { int i = 0; for (; a[i] != 0 && a[i] == b[i]; i++); return a[i] == b[i]; }

/* ---- filter text: read back number by number ---- */
static int f_kind, f_n, f_num[3], f_rows, f_sign; static bool f_lit, f_end; static int f_lit_v;
static int f_dec, f_int, f_lines; static int f_t[128], f_r[128]; static size_t f_len; static const char *f_buf;
static void f_value(int v) { if (f_n < 3) f_num[f_n++] = v; if (f_kind == 0) f_kind = 'n'; }
static void f_flush(void) { if (f_lit) { f_value(f_sign ? -f_lit_v : f_lit_v); f_lit = false; f_sign = 0; f_lit_v = 0; } }
static void f_char(char c) {
    if (c >= '0' && c <= '9') { f_lit = true; f_lit_v = f_lit_v * 10 + (c - '0'); return; }
    f_flush();
    if (c == '-') { f_sign = 1; return; }
    if (c == '\n') {
        if (f_kind == 'R') { f_dec = f_num[2]; f_lines++; }
        else if (f_kind == 'T') { f_int = f_num[2]; f_lines++; }
        else if (f_kind == 'n') { VP_ASSERT(f_n == 2 && f_rows < 128 && !f_end, "a filter has 128 rows of two taps"); if (f_rows < 128) { f_t[f_rows] = f_num[0]; f_r[f_rows] = f_num[1]; f_rows++; } }
        else f_end = true;
        f_kind = 0; f_n = 0;
        return;
    }
    if (f_kind == 0) f_kind = c;
}
static void f_begin(const char *b) { if (f_buf == NULL) { f_buf = b; f_kind = f_n = f_rows = f_lines = 0; f_len = 0; f_dec = f_int = 0; f_end = false; } }
int vp_snprintf(char *b, size_t n, const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    int k = 0; bool text = n > 256;
    if (text) { f_begin(b); VP_ASSERT(b == f_buf + f_len, "the filter text is contiguous"); VP_ASSERT(n >= 64, "the filter text fits its buffer"); }
    for (int i = 0; fmt[i] != 0; i++) {
        if (fmt[i] == '%' && fmt[i + 1] == 'd') {
            int v = va_arg(ap, int); i++;
            if (text) { f_value(v); k += 6; }
            else { VP_ASSERT(v >= 0 && v <= 9, "model: channel numbers have one digit"); b[k++] = (char) ('0' + v); }
        } else if (fmt[i] == '%' && fmt[i + 1] == 's') {
            const char *s = va_arg(ap, const char *); i++;
            for (int j = 0; s[j] != 0; j++) if (!text) b[k++] = s[j];
        } else if (text) { f_char(fmt[i]); k++; }
        else b[k++] = fmt[i];
    }
    if (!text) b[k] = 0; else f_len += (size_t) k;
    va_end(ap);
    return k;
}
int vp_sprintf(char *b, const char *f, ...) { (void) f; b[0] = 0; return 0; }

static void alive(const struct iio_context *c) { VP_ASSERT(c == &the_ctx && ctx_made == ctx_freed + 1, "the radio is used only while its context exists"); }
static struct iio_device *l_find_device(const struct iio_context *c, const char *n) {
    alive(c); if (fails()) return NULL;
    if (eq(n, "ad9361-phy")) return &phy;
    if (eq(n, "cf-ad9361-dds-core-lpc")) return &txd;
    if (eq(n, "cf-ad9361-lpc")) return &rxd;
    return NULL;
}
static struct iio_channel *l_find_channel(const struct iio_device *d, const char *n, bool out) {
    alive(&the_ctx); if (fails()) return NULL;
    int dev = d == &phy ? 0 : d == &txd ? 1 : 2;
    VP_ASSERT(dev != 2 || d == &rxd, "channels are looked up on a found device");
    for (int i = 0; i < 13; i++) if (all_ch[i]->dev == dev && all_ch[i]->out == out && eq(all_ch[i]->name, n)) return all_ch[i];
    return NULL;
}
static void l_strerror(int e, char *d, size_t n) { (void) e; if (n > 0) d[0] = 0; }
static struct iio_channel *ch(const struct iio_channel *c) { VP_ASSERT(c != NULL, "attributes are written to found channels"); VP_ASSUME(c != NULL); alive(&the_ctx); return (struct iio_channel *) c; }
static ssize_t l_write(const struct iio_channel *c, const char *a, const char *s) {
    if (fails()) return -5;
    if (eq(a, "gain_control_mode")) ch(c)->mode = eq(s, "manual") ? 0 : eq(s, "fast_attack") ? 1 : eq(s, "slow_attack") ? 2 : eq(s, "hybrid") ? 3 : -1;
    return 1;
}
static int l_write_ll(const struct iio_channel *c, const char *a, long long v) {
    if (fails()) return -5;
    if (eq(a, "frequency")) ch(c)->freq = v;
    else if (eq(a, "sampling_frequency")) ch(c)->rate = v;
    else if (eq(a, "rf_bandwidth")) ch(c)->bw = v;
    else if (eq(a, "powerdown")) ch(c)->power = (int) v;
    return 0;
}
static int l_write_bool(const struct iio_channel *c, const char *a, bool v) {
    if (fails()) return -5;
    if (eq(a, "raw")) ch(c)->dds_off = !v;
    else if (eq(a, "voltage_filter_fir_en") && c == &p_out) fir_on = v;
    return 0;
}
static int l_write_double(const struct iio_channel *c, const char *a, double v) {
    if (fails()) return -5;
    if (eq(a, "hardwaregain")) { ch(c)->gain = v; ch(c)->has_gain = true; }
    return 0;
}
static int l_dev_bool(const struct iio_device *d, const char *a, bool v) {
    if (fails()) return -5;
    alive(&the_ctx);
    if (d == &phy && eq(a, "in_out_voltage_filter_fir_en")) fir_on = v;
    return 0;
}
static ssize_t l_dev_raw(const struct iio_device *d, const char *a, const void *s, size_t n) {
    if (fails()) { f_buf = NULL; return -5; }
    alive(&the_ctx);
    VP_ASSERT(d == &phy && eq(a, "filter_fir_config") && s == f_buf && n == f_len && f_rows == 128 && f_end, "the whole filter is written");
    f_buf = NULL;
    return (ssize_t) n;
}
static struct iio_scan_context *l_scan(const char *b, unsigned int f) { (void) b; (void) f; if (fails()) return NULL; the_scan.alive++; return &the_scan; }
static ssize_t l_infos(struct iio_scan_context *c, struct iio_context_info ***i) { VP_ASSERT(c == &the_scan && c->alive == 1, "an open scan is used"); if (fails()) return FAILZERO ? 0 : -5; info_live++; *i = infos; return 1; }
static void l_scan_free(struct iio_scan_context *c) { c->alive--; }
static const char *l_uri(const struct iio_context_info *i) { VP_ASSERT(i == &the_info && info_live == 1, "an existing description is used"); return "usb:"; }
static struct iio_context *l_ctx(const char *u) { VP_ASSERT(u[0] == 'u', "the found radio is opened"); if (fails()) return NULL; VP_ASSERT(ctx_made == ctx_freed, "the radio is opened once"); ctx_made++; return &the_ctx; }
static void l_info_free(struct iio_context_info **i) { VP_ASSERT(i == infos, "the list is released"); info_live--; }
static int l_timeout(struct iio_context *c, unsigned int t) { alive(c); if (fails()) return -5; ctx_timeout = t; return 0; }
static void l_enable(struct iio_channel *c) { ch(c)->on = 1; }
static void l_disable(struct iio_channel *c) { ch(c)->on = 0; }
static struct iio_buffer *l_buffer(const struct iio_device *d, size_t n, bool cyc) {
    alive(&the_ctx); if (fails()) return NULL;
    VP_ASSERT(n == MAXB && !cyc, "the radio's buffer has the configured size");
    struct iio_buffer *b = d == &txd ? &tx_buf : &rx_buf;
    b->alive++; b->n = n;
    VP_ASSERT(b->alive == 1, "one buffer per direction");
    return b;
}
static void l_buffer_free(struct iio_buffer *b) { alive(&the_ctx); b->alive--; }
static void l_ctx_free(struct iio_context *c) { alive(c); ctx_freed++; VP_ASSERT(tx_buf.alive == 0 && rx_buf.alive == 0, "buffers are released before the radio"); }

/* ---- data ---- */
static int16_t txmem[2 * MAXB], rxmem[2 * (MAXB + 2)];
static size_t rx_bytes; static bool refill_fails;
#define SENT 32
static int16_t sent[2 * SENT]; static int n_sent, pushes;
static void *l_first(const struct iio_buffer *b, const struct iio_channel *c) {
    VP_ASSERT(b->alive == 1 && (b == &tx_buf ? c == &tx_i : c == &rx_i), "the I channel comes first");
    return b == &tx_buf ? (void *) txmem : (void *) rxmem;
}
static void *l_end(const struct iio_buffer *b) { return b == &rx_buf ? (char *) rxmem + rx_bytes : (char *) txmem + sizeof(txmem); }
static ssize_t l_push(struct iio_buffer *b, size_t n) {
    VP_ASSERT(b == &tx_buf && b->alive == 1 && n <= MAXB && n > 0, "a push covers filled samples of the open buffer");
    VP_ASSUME(n <= MAXB);
    if (++pushes == FAILPUSH) return -5;
    VP_ASSERT(n_sent + n <= SENT, "nothing is sent twice");
    for (size_t i = 0; i < 2 * n; i++) sent[2 * n_sent + i] = txmem[i];
    n_sent += (int) n;
    for (int i = 0; i < 2 * MAXB; i++) txmem[i] = 0x5555;
    return (ssize_t) (4 * n);
}
static ssize_t l_refill(struct iio_buffer *b) { VP_ASSERT(b == &rx_buf && b->alive == 1, "the open buffer is refilled"); return refill_fails ? -110 : (ssize_t) rx_bytes; }
static int16_t to16(float v) { return v > 32767.0f ? 32767 : v < -32768.0f ? -32768 : (int16_t) rintf(v); }
static void k_f16(int16_t *o, const float *i, const float s, unsigned int n) { for (unsigned int k = 0; k < n; k++) o[k] = to16(i[k] * s); }
static void k_16f(float *o, const int16_t *i, const float s, unsigned int n) { for (unsigned int k = 0; k < n; k++) o[k] = (float) i[k] / s; }
VP_K(volk_32f_s32f_convert_16i, k_f16); VP_K(volk_32f_s32f_convert_16i_a, k_f16); VP_K(volk_32f_s32f_convert_16i_u, k_f16);
VP_K(volk_16i_s32f_convert_32f, k_16f); VP_K(volk_16i_s32f_convert_32f_a, k_16f); VP_K(volk_16i_s32f_convert_32f_u, k_16f);

static iio_lib lib = {
    .iio_buffer_end = l_end, .iio_buffer_first = l_first, .iio_buffer_push_partial = l_push, .iio_buffer_refill = l_refill, .iio_context_find_device = l_find_device,
    .iio_device_find_channel = l_find_channel, .iio_strerror = l_strerror, .iio_channel_attr_write = l_write, .iio_channel_attr_write_longlong = l_write_ll,
    .iio_device_attr_write_bool = l_dev_bool, .iio_channel_attr_write_bool = l_write_bool, .iio_channel_attr_write_double = l_write_double, .iio_device_attr_write_raw = l_dev_raw,
    .iio_create_scan_context = l_scan, .iio_scan_context_get_info_list = l_infos, .iio_scan_context_destroy = l_scan_free, .iio_context_info_get_uri = l_uri,
    .iio_create_context_from_uri = l_ctx, .iio_context_info_list_free = l_info_free, .iio_context_set_timeout = l_timeout, .iio_channel_enable = l_enable,
    .iio_device_create_buffer = l_buffer, .iio_buffer_destroy = l_buffer_free, .iio_channel_disable = l_disable, .iio_context_destroy = l_ctx_free};

static const int16_t ref4[64] = {-15, -27, -23, -6, 17, 33, 31, 9, -23, -47, -45, -13, 34, 69, 67, 21, -49, -102, -99, -32, 69, 146, 143, 48, -96, -204, -200, -69, 129, 278, 275, 97, -170, -372, -371, -135, 222, 494, 497, 187, -288, -654, -665, -258, 376, 875, 902, 363, -500, -1201, -1265, -530, 699, 1748, 1906, 845, -1089, -2922, -3424, -1697, 2326, 7714, 12821, 15921};
static const int16_t ref2[64] = {0, 0, 1, 0, -2, 0, 3, 0, -5, 0, 8, 0, -11, 0, 17, 0, -24, 0, 33, 0, -45, 0, 61, 0, -80, 0, 104, 0, -134, 0, 169, 0, -213, 0, 264, 0, -327, 0, 401, 0, -489, 0, 595, 0, -724, 0, 880, 0, -1075, 0, 1323, 0, -1652, 0, 2114, 0, -2819, 0, 4056, 0, -6883, 0, 20837, 32767};
#ifdef ONECLASS /* all rates of the run need the same filter: no case split in the harness */
#define RX_FIR fir_for(RLO)
#define TX_FIR fir_for(TLO)
#else
#define RX_FIR fir_for(r.sampling_freq)
#define TX_FIR fir_for(t.sampling_freq)
#endif
static int fir_for(uint64_t r) { return r < 520834 ? -1 : r < 1041667 ? 4 : r < 2083334 ? 2 : 0; }
static void check_taps(const int *t, int dec) {
    for (int i = 0; i < 64; i++) {
        VP_ASSERT(t[i] == (dec == 4 ? ref4[i] : ref2[i]), "the filter has the taps for its rate");
        VP_ASSERT(t[(dec == 4 ? 127 : 126) - i] == t[i], "the filter is symmetric");
    }
    if (dec == 2) VP_ASSERT(t[127] == 0, "the filter is symmetric");
}
static struct stream_cfg *config(uint64_t lo, uint64_t hi) {
    struct stream_cfg *c = vp_malloc_ok(sizeof(struct stream_cfg));
    if (lo == hi) c->sampling_freq = lo;
    else { uint64_t v = nd_u64(); VP_ASSUME((v >= lo) & (v <= hi)); c->sampling_freq = v; }
    c->center_freq = nd_range(0, INT64_MAX);
    c->gain_control_mode = GMODE;
    c->offset = nd_i64();
    c->manual_gain = (double) nd_i32() / 1024;
    return c;
}
static sdr_device *devs[4]; static bool dev_tx[4], dev_rx[4]; static int n_devs;
static void check_released(void) {
    bool tx = false, rx = false; int users = 0;
    for (int i = 0; i < n_devs; i++) if (devs[i] != NULL) { users++; tx |= dev_tx[i]; rx |= dev_rx[i]; }
    VP_ASSERT(held == 0, "the lock is free");
    VP_ASSERT(the_scan.alive == 0 && info_live == 0, "the search for the radio leaves nothing open");
    VP_ASSERT(ctx_made - ctx_freed == (users > 0 ? 1 : 0), "the radio is open exactly while somebody uses it");
    VP_ASSERT(tx_buf.alive == tx && rx_buf.alive == rx, "every buffer is released exactly once");
    VP_ASSERT(tx_i.on == tx && tx_q.on == tx && rx_i.on == rx && rx_q.on == rx, "channels are on exactly while used");
    if (users == 0) VP_ASSERT(vp_live == 0, "nothing stays allocated");
}
static void create(char kind, bool fail) {
    bool tx = kind != 'R', rx = kind != 'T';
    struct stream_cfg *rc = rx ? config(RLO, RHI) : NULL, *tc = tx ? config(TLO, THI) : NULL;
    struct stream_cfg r, t;
    if (rx) r = *rc;
    if (tx) t = *tc;
    unsigned int tmo = nd_u32();
    sdr_device *d = NULL;
    long before = vp_live;
    for (int i = 0; i < 13; i++) { all_ch[i]->power = -1; }
    failing = fail && FAILAT != 0; n_call = 0; hit = false; vp_alloc_no = 0;
    failat = FAILAT < 0 ? (int) nd_u8() : FAILAT; vp_fail_alloc = fail ? FAILN : 0;
    int code = plutosdr_create(nd_u32(), RXONLY, rc, tc, tmo, MAXB, &lib, &d);
    failing = false; vp_fail_alloc = 0;
    if (code != 0) {
        bool bad = (rx && RX_FIR < 0) || (tx && TX_FIR < 0) || GMODE > 3;
        VP_ASSERT(bad || hit || (fail && FAILN != 0), "a possible setup is accepted");
        VP_ASSERT(d == NULL, "a failed setup hands out nothing");
        VP_ASSERT(vp_live == before - (rx ? 1 : 0) - (tx ? 1 : 0), "a failed setup releases everything it was given and made");
        check_released();
        f_buf = NULL;
        return;
    }
#if !defined(NOSUCCESS)
    VP_ASSERT(d != NULL, "a successful setup hands out the device");
    VP_ASSUME(d != NULL);
    VP_ASSERT(ctx_timeout == tmo, "the timeout is programmed");
    int fr = rx ? RX_FIR : 0, ft = tx ? TX_FIR : 0;
    VP_ASSERT(fr >= 0 && ft >= 0, "rates the radio cannot do are refused");
    VP_ASSERT(fir_on == (fr > 0 || ft > 0), "the rate filter is on exactly when a rate needs it");
    if (fr > 0) { VP_ASSERT(f_dec == fr, "the receive filter decimates as the rate needs"); check_taps(f_r, fr); }
    if (ft > 0) { VP_ASSERT(f_int == ft, "the transmit filter interpolates as the rate needs"); check_taps(f_t, ft); }
    if (rx) {
        VP_ASSERT((lo_rx.freq == (long long) r.center_freq) & (p_rx.rate == (long long) r.sampling_freq) & (p_rx.bw == (long long) r.sampling_freq), "the requested frequency and rate are programmed");
        VP_ASSERT(p_rx.mode == GMODE, "the requested gain mode is programmed");
        if (GMODE == 0) VP_ASSERT(p_rx.has_gain & (p_rx.gain == r.manual_gain), "the requested gain is programmed");
    }
    if (tx) {
        VP_ASSERT((lo_tx.freq == (long long) t.center_freq) & (p_tx.rate == (long long) t.sampling_freq) & (p_tx.bw == (long long) t.sampling_freq), "the requested frequency and rate are programmed");
        if (GMODE == 0) VP_ASSERT(p_tx.has_gain & (p_tx.gain == t.manual_gain), "the requested gain is programmed");
        else VP_ASSERT(p_tx.mode == GMODE, "the requested gain mode is programmed");
        VP_ASSERT(d1.dds_off && d2.dds_off && d3.dds_off && d4.dds_off, "the test tones are off");
        if (!hit) VP_ASSERT(lo_tx.power == 0, "the transmitter is powered");
    } else if (RXONLY && !hit) VP_ASSERT(lo_tx.power == 1, "the unused transmitter is off");
    devs[n_devs] = d; dev_tx[n_devs] = tx; dev_rx[n_devs] = rx; n_devs++;
    check_released();
#endif
}
#ifdef TXS
static vp_cf in[10];
static int16_t want[2 * SENT];
#endif
VP_MAIN {
#ifdef SETUP
    const char *s = SETUP;
    for (int k = 0; s[k] != 0; k++) {
        if (s[k] == 'F') create(KIND, true);
        else if (s[k] >= '1' && s[k] <= '3') {
            sdr_device *d = devs[s[k] - '1'];
            devs[s[k] - '1'] = NULL;
            if (d == NULL) continue;
            d->destroy(d->plugin);
            free(d);
            check_released();
        } else create(s[k], false);
    }
    VP_COVER("end");
#else
#ifdef TXS
    create('T', false);
    int n_want = 0; bool failed = false;
    const char *s = TXS;
    for (int k = 0; s[k] != 0; k++) {
        size_t n = (size_t) (s[k] - '0');
        for (size_t i = 0; i < n; i++) for (int p = 0; p < 2; p++) {
            int16_t v = (int16_t) nd_u16();
            ((float *) &in[i])[p] = (float) v / 16384.0f;
            int w = 2 * v;
            want[2 * (n_want + i) + p] = (int16_t) (w > 32767 ? 32767 : w < -32768 ? -32768 : w);
        }
        int before = n_sent;
        int code = devs[0]->sdr_process_tx(in, n, devs[0]->plugin);
        if (FAILPUSH != 0 && pushes >= FAILPUSH) { VP_ASSERT(code != 0, "a failed push is reported"); failed = true; break; }
        VP_ASSERT(code == 0, "a block is transmitted");
        VP_ASSERT(n_sent == before + (int) n, "every sample is transmitted once");
        n_want += (int) n;
        for (int i = 0; i < 2 * n_want; i++) VP_ASSERT(sent[i] == want[i], "samples are scaled to the radio's range, I then Q, in order");
    }
    VP_ASSERT(failed == (FAILPUSH != 0), "model: the failing push is reached");
#else
    create('R', false);
    const char *s = RXS; bool stop = false;
    for (int k = 0; s[k] != 0; k++) {
        if (s[k] == 's') { devs[0]->stop_rx(devs[0]->plugin); stop = true; continue; }
        refill_fails = s[k] == 'f';
        rx_bytes = s[k] == '+' ? 4 * (MAXB + 1) : s[k] == 'h' ? 6 : s[k] == 'f' ? 0 : 4 * (size_t) (s[k] - '0');
        for (int i = 0; i < 2 * (MAXB + 2); i++) rxmem[i] = (int16_t) nd_u16();
        vp_cf *o = NULL; size_t n = 99;
        int code = devs[0]->sdr_process_rx(&o, &n, devs[0]->plugin);
        if (stop || refill_fails || s[k] == '+') { VP_ASSERT(code == -1 && n == 0, "a failed, too long or unwanted transfer delivers nothing"); continue; }
        VP_ASSERT(code == 0 && n == rx_bytes / 4 && (n == 0 || o != NULL), "every complete point is delivered");
        VP_ASSUME(n == rx_bytes / 4);
        for (size_t i = 0; i < n; i++) VP_ASSERT(((float *) o)[2 * i] == (float) rxmem[2 * i] / 2048.0f && ((float *) o)[2 * i + 1] == (float) rxmem[2 * i + 1] / 2048.0f, "every point is converted in order");
    }
#endif
    VP_COVER("end");
    devs[0]->destroy(devs[0]->plugin);
    free(devs[0]);
    devs[0] = NULL;
    check_released();
#endif
}
