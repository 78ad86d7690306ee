/* C01: tcp_utils over a socket that may fragment, interrupt, time out, reset or end at any call */
#define VP_INMAX N
#define VP_OUTMAX N
#define VP_NET_CALLS CALLS
#include "vp_env.h"
#include "vp_net.h"
#include "tcp_utils.h"

#if MODE == 0
VP_MAIN {
    int fd = vp_open_sock(0);
    struct vp_sock *s = &vp_socks[0];
    for (int i = 0; i < N; i++) s->in[i] = nd_u8();
    s->in_len = nd_range(0, N);
    size_t want = nd_range(0, N);
    vp_may_eintr = vp_may_timeout = vp_may_reset = vp_may_fragment = true;
    uint8_t *buf = vp_malloc(N + 2);
    for (int i = 0; i < N + 2; i++) buf[i] = 0xEE;
    size_t got = 77;
    bool plain = nd_bool();
    vp_errno = (int) nd_range(0, 120);
    int code = plain ? tcp_utils_read_data(buf + 1, want, fd) : tcp_utils_read_data_partially(buf + 1, want, &got, fd);
    if (!plain) VP_ASSERT(got == s->in_pos, "the reported count is the number of bytes that arrived");
    VP_ASSERT((code == 0) == (s->in_pos == want), "success means exactly the requested bytes were read");
    VP_ASSERT(s->in_pos <= want, "no byte beyond the requested ones is consumed");
    for (size_t i = 0; i < N + 2; i++) {
        if (i >= 1 && i - 1 < s->in_pos) VP_ASSERT(buf[i] == s->in[i - 1], "bytes are stored in order");
        else VP_ASSERT(buf[i] == 0xEE, "no byte outside the received ones is written");
    }
    if (code != 0) {
        VP_ASSERT(vp_last_recv != 0, "a read fails only when the connection did");
        if (vp_last_recv == 1) VP_ASSERT(code < -1, "a timeout is reported as retryable");
        else VP_ASSERT(code == -1, "a closed or broken connection is reported as such");
    }
    VP_ASSERT(s->open, "the caller's socket stays open");
    if (code == 0 && want == N) VP_COVER("whole read");
    if (code < -1 && s->in_pos == 1) VP_COVER("timeout in the middle");
    if (code == -1 && s->in_pos == 1) VP_COVER("disconnect in the middle");
}
#else
VP_MAIN {
    int fd = vp_open_sock(0);
    struct vp_sock *s = &vp_socks[0];
    size_t want = nd_range(0, N);
    vp_may_eintr = vp_may_wfail = vp_may_wfragment = true;
    uint8_t *buf = vp_malloc(N);
    for (int i = 0; i < N; i++) buf[i] = nd_u8();
    int code = tcp_utils_write_data(buf, want, fd);
    VP_ASSERT((code == 0) == (!s->broken), "success means the connection took everything, failure that it broke");
    if (code == 0) VP_ASSERT(s->out_len == want, "success means exactly the requested bytes were sent");
    VP_ASSERT(s->out_len <= want, "no byte beyond the requested ones is sent");
    for (size_t i = 0; i < N; i++) if (i < s->out_len) VP_ASSERT(s->out[i] == buf[i], "bytes are sent in order");
    if (code == 0 && want == N) VP_COVER("whole write");
    if (code != 0 && s->out_len == 1) VP_COVER("failure in the middle");
}
#endif
