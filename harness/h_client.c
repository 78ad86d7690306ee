/* Upstream receiver connection: sdr_server_client.c + tcp_utils.c over the socket model.
 * -DMODE 0: every request value; the answer arrives in the pieces the script says (-DCUT bytes, then the rest)
 * -DMODE 1: sample stream cut as CUTS says: a digit = that many bytes arrive, t = timeout, i = interrupted, e = end, x = reset
 * -DFAILK creation step that fails: 1 socket, 2 setsockopt, 3 connect, 4 write; -DFAILN n-th allocation */
#ifndef FAILK
#define FAILK 0
#endif
#ifndef FAILN
#define FAILN 0
#endif
#ifndef CUTS
#define CUTS "7"
#endif
#ifndef MAXB
#define MAXB 1
#endif
#ifndef STATUS0
#define STATUS0 0
#endif
#define VP_MAX_FD 1
#define VP_OUTMAX 24
#define VP_INMAX 48
#define VP_NET_CALLS 40
#define VP_CUSTOM_recv
#include "vp_env.h"
#include "vp_net.h"
#include <complex.h>
#include "sdr/sdr_server_client.h"
static const char *cuts = CUTS;
static int cut_pos; static size_t piece; static bool timed_out_now, over, reset_seen;
ssize_t vp_recv(int fd, void *buf, size_t len, int fl) {
    (void) fl;
    struct vp_sock *s = vp_sock(fd);
    vp_net_tick();
    if (len == 0) return 0;
    if (over) return 0;
    while (piece == 0) {
        char c = cuts[cut_pos];
        if (c == 0 || c == 'e') { timed_out_now = false; over = true; return 0; }
        if (c == 'x') { over = true; vp_errno = ECONNRESET; return -1; }
        cut_pos++;
        if (c == 't') { timed_out_now = true; vp_errno = EAGAIN; return -1; }
        if (c == 'i') { vp_errno = EINTR; return -1; }
        piece = c <= '9' ? (size_t) (c - '0') : (size_t) (c - 'A' + 10);
    }
    size_t n = piece < len ? piece : len;
    for (size_t i = 0; i < n; i++) ((uint8_t *) buf)[i] = s->in[s->in_pos + i];
    s->in_pos += n; piece -= n;
    return (ssize_t) n;
}
ssize_t vp_read(int fd, void *buf, size_t len) { return vp_recv(fd, buf, len, 0); }
static int connects, shutdowns, want_port;
static bool timeout_set;
int vp_socket(int d, int t, int p) { (void) p; VP_ASSERT(d == AF_INET && t == SOCK_STREAM, "a TCP connection is made"); if (FAILK == 1) { vp_errno = EMFILE; return -1; } return vp_open_sock(0); }
int vp_setsockopt(int fd, int l, int o, const void *v, socklen_t n) {
    (void) n; vp_sock(fd);
    if (l == SOL_SOCKET && o == SO_RCVTIMEO) {
        if (FAILK == 2) return -1;
        const struct timeval *tv = v;
        VP_ASSERT(tv->tv_sec == 5 && tv->tv_usec == 0, "reads time out as configured");
        timeout_set = true;
    }
    return 0;
}
int vp_connect(int fd, const struct sockaddr *a, socklen_t n) {
    vp_sock(fd); (void) n;
    const struct sockaddr_in *i = (const struct sockaddr_in *) a;
    VP_ASSERT(i->sin_family == AF_INET && i->sin_port == htons((uint16_t) want_port) && i->sin_addr.s_addr == htonl(0x7f000001), "the configured server is connected");
    connects++;
    if (FAILK == 3) { vp_errno = ECONNREFUSED; return -1; }
    return 0;
}
in_addr_t vp_inet_addr(const char *s) { VP_ASSERT(s[0] == 'L', "the configured address is used"); return htonl(0x7f000001); }
int vp_inet_pton(int f, const char *s, void *d) { (void) f; *(in_addr_t *) d = vp_inet_addr(s); return 1; }
int vp_shutdown(int fd, int h) { (void) h; vp_sock(fd)->broken = true; shutdowns++; return 0; }
static void be(uint8_t *p, uint32_t v) { p[0] = (uint8_t) (v >> 24); p[1] = (uint8_t) (v >> 16); p[2] = (uint8_t) (v >> 8); p[3] = (uint8_t) v; }

VP_MAIN {
    struct sdr_rx rx;
    struct vp_sock *s = &vp_socks[0];
    sdr_device *dev = NULL;
    uint32_t id = nd_u32();
    char addr[] = "L";
    want_port = (int) nd_range(0, 65535);
    rx.rx_center_freq = nd_u64(); rx.rx_sampling_freq = nd_u64(); rx.rx_offset = nd_i64();
#if MODE == 1
    rx.rx_center_freq = 437000000; rx.rx_sampling_freq = 48000; rx.rx_offset = -12000;
#endif
    /* the sum of frequency and offset, in exact arithmetic */
    bool ok = rx.rx_center_freq <= UINT32_MAX && rx.rx_sampling_freq <= UINT32_MAX;
    if (ok) ok = rx.rx_offset >= -(int64_t) rx.rx_center_freq && rx.rx_offset <= (int64_t) UINT32_MAX - (int64_t) rx.rx_center_freq;
    for (int i = 0; i < 7; i++) s->in[i] = nd_u8();
    s->in_len = 7;
#if MODE == 1
    s->in[0] = 0; s->in[1] = 2; s->in[2] = 0;
    for (int i = 7; i < VP_INMAX; i++) s->in[i] = nd_u8();
#endif
    bool answered = s->in[0] == 0 && s->in[1] == 2 && s->in[2] == 0;
    if (FAILK == 4) s->broken = true;
    int arrive = 0;
    for (int i = 0; cuts[i] != 0 && cuts[i] != 'e' && cuts[i] != 'x' && cuts[i] != 't'; i++) if (cuts[i] != 'i') arrive += cuts[i] <= '9' ? cuts[i] - '0' : cuts[i] - 'A' + 10;
    vp_fail_alloc = FAILN;
    int code = sdr_server_client_create(id, &rx, addr, want_port, 5, MAXB, &dev);
    vp_fail_alloc = 0;
    if (connects == 1 && FAILK == 0 && FAILN == 0) {
        VP_ASSERT(ok, "a request that cannot be expressed is never sent");
        uint8_t w[15] = {0, 0};
        be(w + 2, (uint32_t) (rx.rx_center_freq + (uint64_t) rx.rx_offset)); be(w + 6, (uint32_t) rx.rx_sampling_freq); be(w + 10, (uint32_t) rx.rx_center_freq); w[14] = 1;
        VP_ASSERT(s->out_len == 15, "exactly one request is sent");
        for (int i = 0; i < 15; i++) VP_ASSERT(s->out[i] == w[i], "the request carries exactly the frequency, rate and offset");
    }
    bool good = ok && answered && arrive >= 7 && FAILK == 0 && FAILN == 0;
    VP_ASSERT((code == 0) == good, "a connection is usable exactly when the server answered success in full");
    if (code != 0) {
        VP_ASSERT(dev == NULL && vp_live == 0 && !s->open && (s->closes == 1 || (s->closes == 0 && (!ok || FAILK == 1 || (FAILN > 0 && FAILN < 3)))), "a refused connection releases everything once");
#if MODE == 0
        VP_COVER("refused");
#endif
        return;
    }
#if FAILK == 0 && FAILN == 0 && !defined(SHORT)
    VP_ASSUME(code == 0 && dev != NULL);
    VP_ASSERT(timeout_set, "reads time out as configured");
#if MODE == 1
    int total = 0;              /* stream bytes that will arrive */
    for (int i = 0; cuts[i] != 0 && cuts[i] != 'e' && cuts[i] != 'x'; i++) if (cuts[i] != 'i' && cuts[i] != 't') total += cuts[i] <= '9' ? cuts[i] - '0' : cuts[i] - 'A' + 10;
    total -= 7;
    int got = 0;                /* bytes delivered */
    bool ended = false;
    for (int k = 0; k < READS && !ended; k++) {
        vp_cf *o = NULL; size_t n = 99;
        timed_out_now = false;
        code = dev->sdr_process_rx(&o, &n, dev->plugin);
        VP_ASSERT(n <= MAXB, "a block is not larger than configured");
        VP_ASSUME(n <= MAXB);
        VP_ASSERT(n == 0 || o != NULL, "a block with samples is handed out");
        VP_ASSERT(got + (int) n * 8 <= total, "nothing is delivered that did not arrive");
        for (size_t i = 0; i < 8 * MAXB; i++)
            if (i < n * 8) VP_ASSERT(((uint8_t *) o)[i] == s->in[7 + got + (int) i], "samples are delivered whole and in order");
        got += (int) n * 8;
        if (code == 0) VP_ASSERT(n == MAXB, "a successful read fills the block");
        if (code < -1 && n == 0) VP_ASSERT(timed_out_now, "a timeout is reported only when one happened");
        if (code != 0 && !(code < -1) && n == 0) { VP_ASSERT(over, "the end is reported only when the connection is over"); VP_ASSERT(total - got < 8, "the end is reported after all complete samples"); ended = true; }
    }
    VP_ASSERT(ended, "the end of the connection is reported");
#endif
    VP_COVER("end");
    s->broken = true; over = false;
    dev->stop_rx(dev->plugin);
    VP_ASSERT(s->open && shutdowns > 0, "stopping wakes the reader but leaves the descriptor alone");
    dev->destroy(dev->plugin);
    free(dev);
    VP_ASSERT(vp_live == 0 && !s->open && s->closes == 1, "destroying releases everything once");
#endif
}
