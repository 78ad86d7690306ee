/* Sockets: fd -> byte stream.  The kernel may fragment, interrupt, time out, reset or end a connection at any call. */
#ifndef VP_NET_H
#define VP_NET_H
#ifndef VP_MAX_FD
#define VP_MAX_FD 4
#endif
#ifndef VP_INMAX
#define VP_INMAX 16
#endif
#ifndef VP_OUTMAX
#define VP_OUTMAX 32
#endif
#define VP_FD_BASE 3
#ifndef VP_NET_CALLS
#define VP_NET_CALLS 12
#endif
struct vp_sock {
    bool open;
    int closes;
    uint8_t in[VP_INMAX];
    size_t in_len, in_pos;      /* bytes the peer will ever send; bytes already delivered */
    size_t in_big;              /* if nonzero: that many bytes of unspecified content follow (not stored) */
    uint8_t out[VP_OUTMAX];
    size_t out_len;
    bool broken;                /* writes fail from now on */
};
struct vp_sock vp_socks[VP_MAX_FD];
int vp_net_calls;               /* recv/send calls since the harness last reset it */
/* what the kernel may do in the current phase */
bool vp_may_eintr, vp_may_timeout, vp_may_reset, vp_may_fragment, vp_may_wfail, vp_may_wfragment;
int vp_last_recv;               /* 0 data, 1 timeout, 2 eof, 3 reset */

static struct vp_sock *vp_sock(int fd) {
    VP_ASSERT(fd >= VP_FD_BASE && fd < VP_FD_BASE + VP_MAX_FD, "socket calls use a descriptor that was obtained");
    VP_ASSUME(fd >= VP_FD_BASE && fd < VP_FD_BASE + VP_MAX_FD);
    struct vp_sock *s = &vp_socks[fd - VP_FD_BASE];
    VP_ASSERT(s->open, "socket calls use an open descriptor");
    VP_ASSUME(s->open);
    return s;
}
static void vp_net_tick(void) {
    vp_net_calls++;
    if (vp_net_calls > VP_NET_CALLS) VP_STOP();
}
static ssize_t vp_do_recv(int fd, void *buf, size_t len) {
    struct vp_sock *s = vp_sock(fd);
    vp_net_tick();
    if (len == 0) return 0;
    if (vp_may_eintr || vp_may_timeout || vp_may_reset) {
        uint8_t o = nd_u8();
        if (o == 1 && vp_may_eintr) { vp_errno = EINTR; return -1; }
        if (o == 2 && vp_may_timeout) { vp_errno = EAGAIN; vp_last_recv = 1; return -1; }
        if (o == 3 && vp_may_reset) { vp_errno = ECONNRESET; vp_last_recv = 3; return -1; }
    }
    size_t avail = s->in_len - s->in_pos;
    if (avail == 0) { vp_last_recv = 2; return 0; }
    size_t n = avail < len ? avail : len;
    if (vp_may_fragment) { size_t k = nd_range(1, VP_INMAX); if (k < n) n = k; }
    for (size_t i = 0; i < VP_INMAX; i++)
        if (i < n) ((uint8_t *) buf)[i] = s->in[s->in_pos + i];
    s->in_pos += n;
    vp_last_recv = 0;
    return (ssize_t) n;
}
static ssize_t vp_do_send(int fd, const void *buf, size_t len) {
    struct vp_sock *s = vp_sock(fd);
    vp_net_tick();
    if (vp_may_eintr && nd_bool()) { vp_errno = EINTR; return -1; }
    if (s->broken || (vp_may_wfail && nd_bool())) { s->broken = true; vp_errno = EPIPE; return -1; }
    if (len == 0) return 0;
    size_t n = len;
    if (vp_may_wfragment) { size_t k = nd_range(1, VP_OUTMAX); if (k < n) n = k; }
    VP_ASSERT(s->out_len + n <= VP_OUTMAX, "no more bytes are sent than a correct peer expects");
    VP_ASSUME(s->out_len + n <= VP_OUTMAX);
    for (size_t i = 0; i < VP_OUTMAX; i++)
        if (i < n) s->out[s->out_len + i] = ((const uint8_t *) buf)[i];
    s->out_len += n;
    return (ssize_t) n;
}
#ifndef VP_CUSTOM_recv
ssize_t vp_recv(int fd, void *buf, size_t len, int fl) { (void) fl; return vp_do_recv(fd, buf, len); }
ssize_t vp_read(int fd, void *buf, size_t len) { return vp_do_recv(fd, buf, len); }
#endif
ssize_t vp_send(int fd, const void *buf, size_t len, int fl) { (void) fl; return vp_do_send(fd, buf, len); }
ssize_t vp_write(int fd, const void *buf, size_t len) { return vp_do_send(fd, buf, len); }
#ifndef VP_CUSTOM_close
int vp_close(int fd) {
    struct vp_sock *s = vp_sock(fd);
    s->open = false;
    s->closes++;
    return 0;
}
#endif
static int vp_open_sock(int i) { vp_socks[i].open = true; return VP_FD_BASE + i; }
#endif
