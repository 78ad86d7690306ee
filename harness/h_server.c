/* tcp_server.c + api_utils.c + tcp_utils.c + linked_list.c + sdr_worker.c (real), everything below stubbed.
 * The acceptor body is run by the harness; accept() is where clients arrive and where sessions may end. */
#ifndef CONNS
#define CONNS 1
#endif
#define VP_MAX_FD (CONNS + 1)
#ifndef VP_INMAX
#define VP_INMAX 6
#endif
#ifndef VP_OUTMAX
#define VP_OUTMAX 18
#endif
#ifndef VP_NET_CALLS
#define VP_NET_CALLS 8
#endif
/* which set-up step fails in this harness (a fixed step per harness keeps the symbolic execution linear) */
#define FK_NONE 0
#define FK_SOCKET 1
#define FK_BIND 2
#define FK_LISTEN 3
#define FK_PTON 4
#define FK_REUSE 5
#define FK_TIMEOUT 6
#define FK_DSP 7
#define FK_DEV 8
#define FK_MOD 9
#define FK_CORR 10
#define FK_FILE 11
#define FK_THREAD 12
#define FK_ALLOC 13
#ifndef FAILK
#define FAILK FK_NONE
#endif
#if FAILK == FK_THREAD
#define VP_FAIL_THREAD FAILN
#endif
#define fail_setup (FAILK != FK_NONE)
static bool dev_fails, thread_fails;  /* set by a script */
static int cur = -1;                /* connection being served */
#define sfail(k) (FAILK == (k))
#define VP_CUSTOM_on_create
#define VP_CUSTOM_sleep
#ifdef NO_TEARDOWN
#define VP_CUSTOM_on_join          /* session bodies end in other harnesses */
#endif
#include "vp_env.h"
#include "vp_net.h"
#include "vp_pb.h"
#include <complex.h>
#include "api.h"
#include "server_config.h"
#include "tcp_server.h"
#include "dsp_worker.h"
#include "sdr_worker.h"
#include "sdr/sdr_device.h"
#include "dsp/gfsk_mod.h"
#include "dsp/doppler.h"
#include "dsp/sig_source.h"
#include "sdr/plutosdr.h"
#include "sdr/sdr_server_client.h"
#include "sdr/file_source.h"

unsigned vp_sleep(unsigned s) { (void) s; return 0; }
int vp_usleep(useconds_t s) { (void) s; return 0; }
int vp_nanosleep(const struct timespec *a, struct timespec *b) { (void) a; (void) b; return 0; }

static struct server_config cfg;
static tcp_server *srv;

/* ---- session threads ---- */
#ifdef NO_TEARDOWN
static void vp_on_join(int i) { vp_threads[i].ran = true; }
#endif
static bool run_on_create;
static void vp_on_create(int i) {
    if (i == 0) return;
    if (run_on_create) { vp_threads[i].ran = true; vp_threads[i].fn(vp_threads[i].arg); }
}

/* ---- requests ---- */
struct conn {
    uint8_t version, type;
    size_t header_len;              /* bytes of the header that arrive */
    bool undecodable;
    RxRequest rx; TxRequest tx;
    FskDemodulationSettings dem; FskModulationSettings mod; DopplerSettings dop; FileSettings fil;
    int freed;
    bool rx_given, tx_given;
};
static struct conn C[CONNS];
static char fname[] = "f";
static char *tles[4] = {"a", "b", "c", "d"};

#if !defined(VP_CUSTOM_unpack)
ProtobufCMessage *protobuf_c_message_unpack(const ProtobufCMessageDescriptor *d, ProtobufCAllocator *a, size_t len, const uint8_t *data) {
    (void) a; (void) len; (void) data;
    struct conn *c = &C[cur];
    if (c->undecodable) return NULL;
    if (d == &rx_request__descriptor) { c->rx_given = true; vp_live++; return &c->rx.base; }
    if (d == &tx_request__descriptor) { c->tx_given = true; vp_live++; return &c->tx.base; }
    VP_ASSERT(false, "a connection starts with a request of its own kind");
    return NULL;
}
void protobuf_c_message_free_unpacked(ProtobufCMessage *m, ProtobufCAllocator *a) {
    (void) a;
    if (m == NULL) return;
    for (int i = 0; i < CONNS; i++)
        if (m == &C[i].rx.base || m == &C[i].tx.base) {
            C[i].freed++;
            VP_ASSERT(C[i].freed == 1, "a request is released once");
            vp_live--;
        }
}
#endif
const ProtobufCEnumValue *protobuf_c_enum_descriptor_get_value(const ProtobufCEnumDescriptor *d, int v) {
    for (unsigned i = 0; i < 3; i++)
        if (i < d->n_values && d->values[i].value == v) return &d->values[i];
    return NULL;
}
static void any_request(struct conn *c) {
    RxRequest r = RX_REQUEST__INIT; TxRequest t = TX_REQUEST__INIT;
    FskDemodulationSettings d = FSK_DEMODULATION_SETTINGS__INIT; FskModulationSettings m = FSK_MODULATION_SETTINGS__INIT;
    DopplerSettings o = DOPPLER_SETTINGS__INIT; FileSettings f = FILE_SETTINGS__INIT;
    d.demod_fsk_deviation = nd_i64(); d.demod_fsk_transition_width = nd_u32(); d.demod_fsk_use_dc_block = nd_bool();
    m.mod_fsk_deviation = nd_irange(-1000000, 1000000);
    o.n_tle = nd_range(0, 4); o.tle = tles; o.latitude = 53720000; o.longitude = -47570000; o.altitude = 2500000;
    f.filename = fname; f.start_time_seconds = nd_u32();
    c->dem = d; c->mod = m; c->dop = o; c->fil = f;
    r.rx_center_freq = nd_u64(); r.rx_sampling_freq = nd_u64(); r.rx_dump_file = nd_bool(); r.rx_offset = nd_i64();
    r.demod_type = (ModemType) nd_u32(); r.demod_baud_rate = nd_u32(); r.demod_decimation = nd_u32(); r.demod_destination = (DemodDestination) nd_u32();
    r.doppler = nd_bool() ? &c->dop : NULL; r.fsk_settings = nd_bool() ? &c->dem : NULL; r.file_settings = nd_bool() ? &c->fil : NULL;
    t.tx_center_freq = nd_u64(); t.tx_sampling_freq = nd_u32(); t.tx_dump_file = nd_bool(); t.tx_offset = nd_i64();
    t.mod_type = (ModemType) nd_u32(); t.mod_baud_rate = nd_u32();
    t.doppler = nd_bool() ? &c->dop : NULL; t.fsk_settings = nd_bool() ? &c->mod : NULL; t.file_settings = nd_bool() ? &c->fil : NULL;
    c->rx = r; c->tx = t;
}
static bool rx_valid(const struct conn *c) {
    const RxRequest *r = &c->rx;
    return r->demod_type == 1 && r->rx_center_freq != 0 && r->rx_sampling_freq != 0 && r->demod_baud_rate != 0 && r->demod_decimation >= 1 && r->demod_decimation <= 255 &&
           ((unsigned) r->demod_destination) <= 2 && r->fsk_settings != NULL && r->fsk_settings->demod_fsk_transition_width != 0 && (r->doppler == NULL || r->doppler->n_tle == 3) &&
           (cfg.rx_sdr_type != RX_SDR_TYPE_FILE || r->file_settings != NULL);
}
static bool tx_valid(const struct conn *c) {
    const TxRequest *t = &c->tx;
    return t->mod_type == 1 && cfg.tx_sdr_type != TX_SDR_TYPE_NONE && t->tx_center_freq != 0 && t->tx_sampling_freq != 0 && t->mod_baud_rate != 0 && t->fsk_settings != NULL &&
           (t->doppler == NULL || t->doppler->n_tle == 3) && (cfg.tx_sdr_type != TX_SDR_TYPE_FILE || t->file_settings != NULL);
}

/* ---- below the server ---- */
struct dsp_worker_t { uint32_t id; int fd; RxRequest *req; bool told; };
static int n_dsp_create, n_dsp_live, n_mod_create, n_mod_live, n_dopp_live, n_sig_live, n_dev_create, n_dev_live, n_rx_dev_live, n_tx_dev_live, n_stop;
static uint32_t dsp_id; static int dsp_fd; static RxRequest *dsp_req;
int dsp_worker_create(uint32_t id, int client_socket, struct server_config *config, struct RxRequest *req, dsp_worker **result) {
    n_dsp_create++;
    dsp_id = id; dsp_fd = client_socket; dsp_req = req;
    VP_ASSERT(config == &cfg, "the server configuration is passed on");
    if (sfail(FK_DSP)) return -1;
    dsp_worker *w = vp_malloc_ok(sizeof(dsp_worker));
    w->id = id; w->fd = client_socket; w->req = req; w->told = false;
    n_dsp_live++;
    *result = w;
    return 0;
}
void dsp_worker_destroy(void *d) { if (d == NULL) return; n_dsp_live--; vp_free(d); }
bool dsp_worker_find_by_id(void *id, void *d) { return ((dsp_worker *) d)->id == *(uint32_t *) id; }
void dsp_worker_shutdown(void *arg, void *d) { (void) arg; ((dsp_worker *) d)->told = true; }
void dsp_worker_put(float complex *o, size_t n, dsp_worker *w) { (void) o; (void) n; (void) w; }

struct dev { bool tx, stopped; };
static int dev_rx(float complex **o, size_t *n, void *p) { (void) p; *o = NULL; *n = 0; return -1; }
#ifndef VP_CUSTOM_devtx
static int dev_tx(float complex *in, size_t n, void *p) { (void) in; (void) n; (void) p; return 0; }
#else
static int dev_tx(float complex *in, size_t n, void *p);
#endif
static void dev_stop(void *p) { ((struct dev *) p)->stopped = true; n_stop++; }
static void dev_destroy(void *p) {
    n_dev_live--;
    if (((struct dev *) p)->tx) n_tx_dev_live--; else n_rx_dev_live--;
    vp_free(p);
}
static int dev_create(bool tx, sdr_device **result) {
    n_dev_create++;
    if (sfail(FK_DEV) || dev_fails) return -1;
    sdr_device *d = vp_malloc_ok(sizeof(sdr_device));
    struct dev *p = vp_malloc_ok(sizeof(struct dev));
    p->tx = tx; p->stopped = false;
    d->plugin = p; d->sdr_process_rx = dev_rx; d->sdr_process_tx = dev_tx; d->destroy = dev_destroy; d->stop_rx = dev_stop;
    n_dev_live++;
    if (tx) n_tx_dev_live++; else n_rx_dev_live++;
    *result = d;
    return 0;
}
static bool dev_args_ok;
static uint32_t dev_max;
static const uint32_t ids[] = {0, 1, 2, 3};
int plutosdr_create(uint32_t id, bool rx_only, struct stream_cfg *rx, struct stream_cfg *tx, unsigned int timeout_ms, uint32_t maxlen, iio_lib *lib, sdr_device **result) {
    (void) rx_only;
    struct conn *c = &C[cur];
    dev_args_ok = id == (uint32_t) cur && timeout_ms == cfg.tx_plutosdr_timeout_millis && maxlen == cfg.buffer_size && lib == cfg.iio && ((rx == NULL) != (tx == NULL));
    if (rx != NULL && rx->sampling_freq != c->rx.rx_sampling_freq) dev_args_ok = false;
    if (rx != NULL && (rx->center_freq != c->rx.rx_center_freq + (uint64_t) c->rx.rx_offset || rx->offset != c->rx.rx_offset || rx->gain_control_mode != IIO_GAIN_MODE_MANUAL || rx->manual_gain != cfg.rx_plutosdr_gain)) dev_args_ok = false;
    if (tx != NULL && (tx->sampling_freq != c->tx.tx_sampling_freq || tx->center_freq != c->tx.tx_center_freq || tx->gain_control_mode != IIO_GAIN_MODE_MANUAL || tx->manual_gain != cfg.tx_plutosdr_gain)) dev_args_ok = false;
    VP_ASSERT(cfg.rx_sdr_type == RX_SDR_TYPE_PLUTOSDR || tx != NULL, "the configured receiver is used");
    VP_ASSERT(cfg.tx_sdr_type == TX_SDR_TYPE_PLUTOSDR || rx != NULL, "the configured transmitter is used");
    VP_ASSERT(dev_args_ok, "the requested values reach the device");
    int code = dev_create(tx != NULL, result);
    /* the device takes ownership of its configuration in either case */
    vp_free(rx); vp_free(tx);
    return code;
}
int sdr_server_client_create(uint32_t id, struct sdr_rx *rx, char *addr, int port, int timeout, uint32_t maxlen, sdr_device **result) {
    struct conn *c = &C[cur];
    VP_ASSERT(cfg.rx_sdr_type == RX_SDR_TYPE_SDR_SERVER, "the configured receiver is used");
    dev_args_ok = id == (uint32_t) cur && addr == cfg.rx_sdr_server_address && port == cfg.rx_sdr_server_port && timeout == cfg.read_timeout_seconds && maxlen == cfg.buffer_size &&
                  rx->rx_center_freq == c->rx.rx_center_freq && rx->rx_sampling_freq == c->rx.rx_sampling_freq && rx->rx_offset == c->rx.rx_offset;
    VP_ASSERT(dev_args_ok, "the requested values reach the device");
    return dev_create(false, result);
}
static uint64_t file_fs; static int64_t file_off; static bool file_tx;
int file_source_create(uint32_t id, const char *rxf, const char *txf, uint64_t fs, int64_t off, uint32_t maxlen, sdr_device **result) {
    struct conn *c = &C[cur];
    file_tx = txf != NULL;
    if (!file_tx) dev_args_ok = cfg.rx_sdr_type == RX_SDR_TYPE_FILE && id == (uint32_t) cur && rxf == fname && fs == c->rx.rx_sampling_freq && off == c->rx.rx_offset && maxlen == cfg.buffer_size;
    else dev_args_ok = cfg.tx_sdr_type == TX_SDR_TYPE_FILE && id == (uint32_t) cur && rxf == NULL && txf == fname && fs == c->tx.tx_sampling_freq && off == 0;
    dev_max = maxlen;
    VP_ASSERT(dev_args_ok, "the requested values reach the device");
    return dev_create(file_tx, result);
}
static float mod_sps, mod_sens; static uint32_t mod_max, corr_max; static bool dopp_made, sig_made;
int gfsk_mod_create(float sps, float sens, float bt, uint32_t maxlen, gfsk_mod **mod) {
    n_mod_create++;
    mod_sps = sps; mod_sens = sens; mod_max = maxlen; (void) bt;
    if (sfail(FK_MOD)) return -1;
    *mod = vp_malloc_ok(1);
    n_mod_live++;
    return 0;
}
void gfsk_mod_destroy(gfsk_mod *m) { n_mod_live--; vp_free(m); }
static time_t dopp_start; static int64_t dopp_off; static uint64_t dopp_fs, dopp_cf;
int doppler_create(double lat, double lon, double alt, uint64_t fs, uint64_t cf, int64_t off, time_t start, uint32_t maxlen, char tle[3][80], doppler **result) {
    VP_ASSERT(lat == C[cur].dop.latitude / 10E6 && lon == C[cur].dop.longitude / 10E6 && alt == C[cur].dop.altitude / 10E3, "the ground station position is passed on");
    VP_ASSERT(tle[0][0] == 'a' && tle[1][0] == 'b' && tle[2][0] == 'c', "the three orbit lines are passed on in order");
    dopp_start = start; dopp_off = off; dopp_fs = fs; dopp_cf = cf; corr_max = maxlen; dopp_made = true;
    if (sfail(FK_CORR)) return -1;
    *result = vp_malloc_ok(1);
    n_dopp_live++;
    return 0;
}
void doppler_destroy(doppler *d) { if (d == NULL) return; n_dopp_live--; vp_free(d); }
static uint64_t sig_fs;
int sig_source_create(float amplitude, uint64_t fs, uint32_t maxlen, sig_source **s) {
    VP_ASSERT(amplitude == 1.0F, "the mixer does not change the amplitude");
    sig_fs = fs; corr_max = maxlen; sig_made = true;
    if (sfail(FK_CORR)) return -1;
    *s = vp_malloc_ok(1);
    n_sig_live++;
    return 0;
}
void sig_source_destroy(sig_source *s) { n_sig_live--; vp_free(s); }
#ifndef VP_CUSTOM_blocks
void gfsk_mod_process(const uint8_t *in, size_t n, float complex **o, size_t *ol, gfsk_mod *m) { (void) in; (void) n; (void) m; *o = NULL; *ol = 0; }
void doppler_process_tx(float complex *in, size_t n, float complex **o, size_t *ol, doppler *d) { (void) d; *o = in; *ol = n; }
void sig_source_multiply(int64_t f, const float complex *in, size_t n, float complex **o, size_t *ol, sig_source *s) { (void) f; (void) s; *o = (float complex *) in; *ol = n; }
#endif
static int n_files_open;
static int vp_the_file;
FILE *vp_fopen(const char *p, const char *m) { (void) p; (void) m; if (sfail(FK_FILE)) return NULL; n_files_open++; return (FILE *) &vp_the_file; }
int vp_fclose(FILE *f) { VP_ASSERT(f == (FILE *) &vp_the_file && n_files_open > 0, "only open files are closed"); n_files_open--; return 0; }
#ifndef VP_CUSTOM_fwrite
size_t vp_fwrite(const void *p, size_t s, size_t n, FILE *f) { (void) p; (void) s; (void) f; return n; }
#endif

/* ---- listening socket ---- */
int vp_socket(int d, int t, int p) { (void) d; (void) t; (void) p; if (sfail(FK_SOCKET)) { vp_errno = EMFILE; return -1; } vp_socks[0].open = true; return VP_FD_BASE; }
static bool timeout_set;
int vp_setsockopt(int fd, int l, int o, const void *v, socklen_t n) {
    (void) l; (void) n;
    vp_sock(fd);
    if (fd == VP_FD_BASE ? sfail(FK_REUSE) : sfail(FK_TIMEOUT)) return -1;
    if (fd != VP_FD_BASE && o == SO_RCVTIMEO && ((const struct timeval *) v)->tv_sec == cfg.read_timeout_seconds) timeout_set = true;
    return 0;
}
int vp_bind(int fd, const struct sockaddr *a, socklen_t n) { (void) n; vp_sock(fd); VP_ASSERT(ntohs(((const struct sockaddr_in *) a)->sin_port) == cfg.port, "the configured port is used"); return sfail(FK_BIND) ? -1 : 0; }
int vp_listen(int fd, int n) { (void) n; vp_sock(fd); return sfail(FK_LISTEN) ? -1 : 0; }
int vp_inet_pton(int af, const char *s, void *d) { (void) af; VP_ASSERT(s == cfg.bind_address, "the configured address is used"); memset(d, 0, 4); return sfail(FK_PTON) ? 0 : 1; }
const char *vp_inet_ntop(int af, const void *s, char *d, socklen_t n) { (void) af; (void) s; (void) n; d[0] = 0; return d; }
int vp_shutdown(int fd, int how) { (void) how; vp_sock(fd); return 0; }

static void vp_arrive(int k);       /* harness: fill the connection */
static void vp_between(int k);      /* harness: what happens before connection k is accepted (k == CONNS: before stop) */
static void vp_served(int k);       /* harness: checks once connection k was served */
static int accept_error;            /* set by vp_between: this accept fails */
static bool served;
int vp_accept(int fd, struct sockaddr *a, socklen_t *n) {
    if (cur >= 0 && cur < CONNS && !served) { served = true; vp_served(cur); }
#ifdef NO_TEARDOWN
    if (cur + 1 >= CONNS) VP_STOP();    /* what follows is decided by other harnesses */
#endif
    if (fd < 0) { vp_errno = EBADF; return -1; }
    vp_sock(fd);
    if (cur + 1 >= CONNS) {
        if (cur < CONNS) { cur = CONNS; vp_between(CONNS); tcp_server_destroy(srv); }
        vp_errno = EINVAL;
        return -1;
    }
    vp_between(cur + 1);
    if (accept_error != 0) { vp_errno = accept_error; accept_error = 0; return -1; }
    memset(a, 0, *n);
    cur++;
    timeout_set = false;
    vp_net_calls = 0;
    served = false;
    int r = vp_open_sock(cur + 1);
    vp_arrive(cur);
    return r;
}
static void set_header(int k, uint8_t version, uint8_t type, uint32_t len, size_t arrive) {
    struct vp_sock *s = &vp_socks[k + 1];
    s->in[0] = version; s->in[1] = type; s->in[2] = (uint8_t) (len >> 24); s->in[3] = (uint8_t) (len >> 16); s->in[4] = (uint8_t) (len >> 8); s->in[5] = (uint8_t) len;
    s->in_len = arrive; s->in_pos = 0;
    C[k].version = version; C[k].type = type; C[k].header_len = arrive;
}
/* exactly one response on connection k, with this content */
static bool answered(int k, uint32_t status, uint32_t details) {
    uint8_t e[18];
    size_t n = vp_expect_response(status, details, e);
    struct vp_sock *s = &vp_socks[k + 1];
    bool ok = s->out_len == n;
    for (size_t i = 0; i < 18; i++) if (i < n && ok && s->out[i] != e[i]) ok = false;
    return ok;
}
static bool silent(int k) { return vp_socks[k + 1].out_len == 0; }
static bool closed_once(int k) { return !vp_socks[k + 1].open && vp_socks[k + 1].closes == 1; }
static void base_config(void) {
#if FAILK == FK_ALLOC
    vp_fail_alloc = FAILN;
#endif
    cfg.bind_address = "b"; cfg.port = nd_u16(); cfg.read_timeout_seconds = 7; cfg.buffer_size = BUFSZ; cfg.queue_size = 4;
    cfg.rx_sdr_type = RXTYPE; cfg.tx_sdr_type = TXTYPE; cfg.rx_sdr_server_address = "s"; cfg.rx_sdr_server_port = 99; cfg.base_path = "p";
    cfg.tx_plutosdr_gain = 1.5; cfg.rx_plutosdr_gain = 2.5; cfg.tx_plutosdr_timeout_millis = 33; cfg.iio = NULL;
}
static bool started;
static void run_server(void) {
    int code = tcp_server_create(&cfg, &srv);
    if (code != 0) {
        VP_ASSERT(fail_setup, "the server starts when nothing fails");
        VP_ASSERT(vp_live == 0, "a failed start releases everything");
        VP_ASSERT(!vp_socks[0].open && vp_socks[0].closes <= 1, "a failed start releases the listening socket");
        return;
    }
    started = true;
    vp_threads[0].ran = true;
    vp_threads[0].fn(vp_threads[0].arg);
    tcp_server_join_thread(srv);
    VP_ASSERT(vp_live == 0, "stopping the server releases everything");
    VP_ASSERT(n_dev_live == 0 && n_dsp_live == 0 && n_mod_live == 0 && n_dopp_live == 0 && n_sig_live == 0 && n_files_open == 0, "stopping the server releases every device, worker and file");
    for (int i = 0; i <= CONNS; i++) VP_ASSERT(!vp_socks[i].open && vp_socks[i].closes <= 1, "every descriptor is closed once");
    VP_ASSERT(vp_locks_held == 0, "no lock is left held");
}
#include MODEFILE
