/* The configuration file: every setting absent, of any type, with any value; the file unreadable, the radio library unusable, memory missing.
 * -DMASK: settings that vary (bit per setting, order of SETTINGS); the others are absent.  -DSLEN: longest string */
#define VP_CUSTOM_getenv
#include "vp_env.h"
#include "server_config.h"
#include <libconfig.h>
#include <limits.h>
#define NS 15
enum { BUFFER, PORT, TIMEOUT, QUEUE, RXPORT, MILLIS, TXGAIN, RXGAIN, BIND, BASE, RXADDR, RXBASE, TXBASE, RXTYPE, TXTYPE };
static const char *names[NS] = {"buffer_size", "port", "read_timeout_seconds", "queue_size", "rx_sdr_server_port", "tx_plutosdr_timeout_millis", "tx_plutosdr_gain", "rx_plutosdr_gain",
    "bind_address", "base_path", "rx_sdr_server_address", "rx_file_base_path", "tx_file_base_path", "rx_sdr_type", "tx_sdr_type"};
static config_setting_t set[NS]; static bool present[NS]; static char str[NS][SLEN + 1], keep[NS][SLEN + 1];
static bool unreadable, tmp_set, iio_fails; static int inits, destroyed, iio_created, iio_destroyed; static char the_iio[512];
static bool eq(const char *a, const char *b) { for (int i = 0; ; i++) { char x = a[i], y = b[i]; if (x != y) return false; if (x == 0) return true; } }
char *vp_getenv(const char *n) { VP_ASSERT(eq(n, "TMPDIR"), "only the temporary folder is asked for"); return tmp_set ? (char *) "/t" : NULL; }
int iio_lib_create(iio_lib **l) { iio_created++; if (iio_fails) return -1; *l = (iio_lib *) the_iio; return 0; }
void iio_lib_destroy(iio_lib *l) { VP_ASSERT((char *) l == the_iio, "the radio library is released"); iio_destroyed++; }
#define OPEN VP_ASSERT(inits == 1 && destroyed == 0, "the file is used while it is open")
void config_init(config_t *c) { *c = (config_t) {0}; inits++; }
void config_destroy(config_t *c) {
    (void) c; OPEN; destroyed++;
    for (int i = 0; i < NS; i++) for (int k = 0; k < SLEN; k++) str[i][k] = '#';     /* its strings are gone */
}
int config_read_file(config_t *c, const char *path) { (void) c; OPEN; VP_ASSERT(eq(path, "cfg"), "the given file is read"); return unreadable ? CONFIG_FALSE : CONFIG_TRUE; }
config_setting_t *config_lookup(const config_t *c, const char *path) {
    (void) c; OPEN;
    for (int i = 0; i < NS; i++) if (eq(path, names[i])) return present[i] ? &set[i] : NULL;
    return NULL;
}
int config_setting_get_int(const config_setting_t *s) { return s->type == CONFIG_TYPE_INT ? s->value.ival : 0; }
long long config_setting_get_int64(const config_setting_t *s) { return s->type == CONFIG_TYPE_INT ? s->value.ival : 0; }
int config_setting_get_bool(const config_setting_t *s) { return s->type == CONFIG_TYPE_BOOL ? s->value.ival : 0; }
double config_setting_get_float(const config_setting_t *s) { return s->type == CONFIG_TYPE_FLOAT ? s->value.fval : 0.0; }
const char *config_setting_get_string(const config_setting_t *s) { return s->type == CONFIG_TYPE_STRING ? s->value.sval : NULL; }
int config_lookup_int(const config_t *c, const char *p, int *v) { config_setting_t *s = config_lookup(c, p); if (s == NULL || s->type != CONFIG_TYPE_INT) return CONFIG_FALSE; *v = s->value.ival; return CONFIG_TRUE; }
int config_lookup_float(const config_t *c, const char *p, double *v) { config_setting_t *s = config_lookup(c, p); if (s == NULL || s->type != CONFIG_TYPE_FLOAT) return CONFIG_FALSE; *v = s->value.fval; return CONFIG_TRUE; }
int config_lookup_string(const config_t *c, const char *p, const char **v) { config_setting_t *s = config_lookup(c, p); if (s == NULL || s->type != CONFIG_TYPE_STRING) return CONFIG_FALSE; *v = s->value.sval; return CONFIG_TRUE; }

static bool bad;
static int expect_int(int i, int def, int lo, int hi) {
    if (!present[i]) return def;
    if (set[i].type != CONFIG_TYPE_INT || set[i].value.ival < lo || set[i].value.ival > hi) { bad = true; return 0; }
    return set[i].value.ival;
}
static double expect_num(int i) {
    if (!present[i]) return 0.0;
    if (set[i].type == CONFIG_TYPE_INT) return set[i].value.ival;
    if (set[i].type == CONFIG_TYPE_FLOAT) return set[i].value.fval;
    bad = true; return 0.0;
}
static const char *expect_str(int i, const char *def) {
    if (!present[i]) return def;
    if (set[i].type != CONFIG_TYPE_STRING) bad = true;
    return keep[i];
}
static int expect_type(int i, int def, const char *zero, int iz, const char *one, int io, const char *two, int it) {
    if (!present[i]) return def;
    if (set[i].type == CONFIG_TYPE_STRING) {
        if (eq(keep[i], zero)) return iz;
        if (eq(keep[i], one)) return io;
        if (eq(keep[i], two)) return it;
    }
    bad = true; return 0;
}
VP_MAIN {
    unreadable = nd_bool(); tmp_set = nd_bool(); iio_fails = nd_bool();
    for (int i = 0; i < NS; i++) if (MASK & (1 << i)) {
        present[i] = nd_bool();
        uint8_t t = nd_u8(); int32_t v = nd_i32();
        VP_ASSUME(t == CONFIG_TYPE_INT || t == CONFIG_TYPE_FLOAT || t == CONFIG_TYPE_STRING || t == CONFIG_TYPE_BOOL || t == CONFIG_TYPE_GROUP || t == CONFIG_TYPE_LIST);
        set[i].name = (char *) names[i];
        set[i].type = t;
        set[i].value.llval = 0;
        if (i == TXGAIN || i == RXGAIN) { if (t == CONFIG_TYPE_FLOAT) { double d = nd_f64(); VP_ASSUME(d == d); set[i].value.fval = d; } else set[i].value.ival = v; }
        else if (t == CONFIG_TYPE_FLOAT) set[i].value.fval = (double) v;
        else if (t == CONFIG_TYPE_STRING) set[i].value.sval = str[i];
        else set[i].value.ival = t == CONFIG_TYPE_BOOL ? v & 1 : v;
        if (i == RXTYPE || i == TXTYPE) {
            static const char *t8[8] = {"sdr-server", "plutosdr", "file", "none", "", "filex", "fil", "sdr_server"};
            uint8_t k = nd_u8() & 7;
            for (int q = 0; q < SLEN; q++) { char ch = 0; for (int z = 0; z < 8; z++) if (z == k) ch = q < 11 ? (t8[z][q < (z == 0 || z == 7 ? 10 : z == 1 ? 8 : z == 5 ? 5 : z == 4 ? 0 : z == 6 ? 3 : 4) ? q : (z == 0 || z == 7 ? 10 : z == 1 ? 8 : z == 5 ? 5 : z == 4 ? 0 : z == 6 ? 3 : 4)]) : 0; str[i][q] = ch; }
        } else if (i >= BIND) for (int q = 0; q < 3; q++) str[i][q] = (char) nd_u8();
        for (int q = 0; q < SLEN; q++) keep[i][q] = str[i][q];
    }
    vp_fail_alloc = FAILN;
    struct server_config *c = NULL;
    int code = server_config_create(&c, "cfg");
    VP_ASSERT(inits == destroyed && inits <= 1, "the file is closed exactly once");

    const char *folder = tmp_set ? "/t" : "/tmp";
    int buffer = expect_int(BUFFER, 262144, 1, INT_MAX), port = expect_int(PORT, 8091, 0, 65535), timeout = expect_int(TIMEOUT, 5, 1, INT_MAX), queue = expect_int(QUEUE, 64, 1, 65535), millis = expect_int(MILLIS, 10000, 0, INT_MAX);
    double txg = expect_num(TXGAIN), rxg = expect_num(RXGAIN);
    const char *bind = expect_str(BIND, "127.0.0.1"), *base = expect_str(BASE, folder), *rxb = expect_str(RXBASE, folder), *txb = expect_str(TXBASE, folder), *addr = "";
    int rxt = expect_type(RXTYPE, RX_SDR_TYPE_SDR_SERVER, "sdr-server", RX_SDR_TYPE_SDR_SERVER, "plutosdr", RX_SDR_TYPE_PLUTOSDR, "file", RX_SDR_TYPE_FILE);
    int txt = expect_type(TXTYPE, TX_SDR_TYPE_NONE, "none", TX_SDR_TYPE_NONE, "plutosdr", TX_SDR_TYPE_PLUTOSDR, "file", TX_SDR_TYPE_FILE);
    bool maybe = bad; int rport = 0;
    if (rxt == RX_SDR_TYPE_SDR_SERVER) { rport = expect_int(RXPORT, 8090, 0, 65535); addr = expect_str(RXADDR, "127.0.0.1"); maybe = bad; }
    else { bool was = bad; (void) expect_int(RXPORT, 0, 0, 65535); (void) expect_str(RXADDR, ""); maybe = bad; bad = was; }   /* settings of an unused receiver may be checked or not */
    bool pluto = rxt == RX_SDR_TYPE_PLUTOSDR || txt == TX_SDR_TYPE_PLUTOSDR;
    bool ram = vp_fail_alloc != 0 && vp_alloc_no >= vp_fail_alloc;
    if (code != 0) {
        VP_ASSERT(maybe || unreadable || ram || (pluto && iio_fails), "a right configuration is accepted");
        VP_ASSERT(c == NULL, "a refused configuration is not used");
        VP_ASSERT(vp_live == 0, "a refused start releases what was allocated");
        VP_ASSERT(iio_destroyed == (iio_fails ? 0 : iio_created), "a refused start releases the radio library");
        VP_COVER("refused");
        return;
    }
    VP_ASSERT(!bad, "a wrong type or range is refused");
    VP_ASSERT(!unreadable && !ram, "an unreadable file or missing memory is refused");
    VP_ASSERT(!(pluto && iio_fails), "a radio that cannot be used is refused");
    VP_ASSERT(c != NULL, "an accepted configuration is handed out");
#if FAILN == 0
    VP_ASSUME(c != NULL);
    VP_ASSERT(c->buffer_size == (uint32_t) buffer, "buffer size as written or 262144");
    VP_ASSERT(c->port == port, "port as written or 8091");
    VP_ASSERT(c->read_timeout_seconds == timeout, "read timeout as written or 5");
    VP_ASSERT(c->queue_size == queue, "queue size as written or 64");
    VP_ASSERT(c->tx_plutosdr_timeout_millis == (unsigned int) millis, "radio timeout as written or 10000");
    VP_ASSERT(c->tx_plutosdr_gain == txg, "transmit gain as written or 0");
    VP_ASSERT(c->rx_plutosdr_gain == rxg, "receive gain as written or 0");
    VP_ASSERT(eq(c->bind_address, bind), "bind address as written or the loopback");
    VP_ASSERT(eq(c->base_path, base), "base path as written or the temporary folder");
    VP_ASSERT(eq(c->rx_file_base_path, rxb) && eq(c->tx_file_base_path, txb), "file folders as written or the temporary folder");
    VP_ASSERT(c->rx_sdr_type == rxt && c->tx_sdr_type == txt, "device types as written or the defaults");
    if (rxt == RX_SDR_TYPE_SDR_SERVER) VP_ASSERT(c->rx_sdr_server_port == rport && c->rx_sdr_server_address != NULL && eq(c->rx_sdr_server_address, addr), "upstream server as written or the default");
    VP_ASSERT(iio_created == (pluto ? 1 : 0), "the radio library is loaded exactly when a device needs it");
    VP_ASSERT(!pluto || (char *) c->iio == the_iio, "the loaded radio library is used");
    server_config_destroy(c);
    VP_ASSERT(vp_live == 0, "everything is released");
    VP_ASSERT(iio_destroyed == iio_created, "the radio library is released exactly once");
    VP_COVER("accepted");
#endif
}
