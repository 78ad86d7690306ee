/* C02 / C03: api_utils over an arbitrary socket and an arbitrary decoder */
#if MODE == 3
#define VP_OUTMAX 16
#define VP_NET_CALLS CALLS
#define VP_INMAX 2
#else
#define VP_INMAX N
#define VP_OUTMAX 1
#define VP_NET_CALLS CALLS
#endif
#if MODE == 2
#define VP_CUSTOM_recv
#endif
#include "vp_env.h"
#include "vp_net.h"
#include "vp_pb.h"
#include "api.h"
#include "api_utils.h"

int vp_unpacks;
size_t vp_unpack_len;
bool vp_unpack_same, vp_unpack_kind, vp_unpack_ok;
const ProtobufCMessageDescriptor *vp_kind;
static void *vp_object;
struct vp_sock *S;
ProtobufCMessage *protobuf_c_message_unpack(const ProtobufCMessageDescriptor *d, ProtobufCAllocator *a, size_t len, const uint8_t *data) {
    (void) a;
    vp_unpacks++;
    vp_unpack_len = len;
    vp_unpack_kind = d == vp_kind;
    vp_unpack_same = true;
#if MODE == 1
    for (size_t i = 0; i < N; i++) if (i < len && data[i] != S->in[i]) vp_unpack_same = false;
#else
    if (len > 0) { volatile uint8_t x = data[0]; x = data[len - 1]; (void) x; }
#endif
    vp_unpack_ok = nd_bool();
    if (!vp_unpack_ok) return NULL;
    vp_object = vp_malloc(8);
    vp_unpack_ok = vp_object != NULL;
    return vp_object;
}
void protobuf_c_message_free_unpacked(ProtobufCMessage *m, ProtobufCAllocator *a) { (void) a; if (m) vp_free(m); }

#if MODE == 2
/* arbitrary 32-bit lengths: content is not stored, the touched range is */
uint64_t vp_stream_left, vp_stream_taken;
static bool vp_rx_failed;
static ssize_t vp_recv_big(int fd, void *buf, size_t len) {
    vp_sock(fd);
    vp_net_tick();
    if (len == 0) return 0;
    ((uint8_t *) buf)[0] = nd_u8();
    ((uint8_t *) buf)[len - 1] = nd_u8();
    uint8_t o = nd_u8();
    if (o == 1) { vp_errno = EAGAIN; vp_rx_failed = true; return -1; }
    if (o == 2) { vp_rx_failed = true; return 0; }
    size_t n = len;
    if (nd_bool()) { size_t k = nd_range(1, 1u << 20); if (k < n) n = k; }
    vp_stream_taken += n;
    return (ssize_t) n;
}
ssize_t vp_recv(int fd, void *buf, size_t len, int fl) { (void) fl; return vp_recv_big(fd, buf, len); }
ssize_t vp_read(int fd, void *buf, size_t len) { return vp_recv_big(fd, buf, len); }
#endif

#if MODE == 0
/* header */
VP_MAIN {
    int fd = vp_open_sock(0);
    S = &vp_socks[0];
    for (int i = 0; i < N; i++) S->in[i] = nd_u8();
    S->in_len = nd_range(0, N);
    vp_may_timeout = vp_may_fragment = true;
    struct message_header h = {0};
    int code = api_utils_read_header(fd, &h);
    VP_ASSERT((code == 0) == (S->in_pos == 6), "a header is six bytes");
    if (code == 0) {
        VP_ASSERT(h.protocol_version == S->in[0] && h.type == S->in[1], "version and type are the first two bytes");
        VP_ASSERT(h.message_length == (((uint32_t) S->in[2] << 24) | ((uint32_t) S->in[3] << 16) | ((uint32_t) S->in[4] << 8) | S->in[5]), "the length is in network byte order");
        VP_COVER("header read");
    } else {
        VP_ASSERT(vp_last_recv == 1 ? code < -1 : code == -1, "timeout and disconnect are told apart");
        VP_COVER("header not read");
    }
    VP_ASSERT(vp_live == 0, "no memory is kept");
}
#elif MODE == 1 || MODE == 2
VP_MAIN {
    int fd = vp_open_sock(0);
    S = &vp_socks[0];
    struct message_header h;
    h.protocol_version = 0;
    h.type = nd_u8();
#if MODE == 1
    for (int i = 0; i < N; i++) S->in[i] = nd_u8();
    S->in_len = nd_range(0, N);
    h.message_length = (uint32_t) nd_range(0, N);
    vp_may_timeout = vp_may_reset = vp_may_fragment = true;
#else
    h.message_length = nd_u32();
#endif
    vp_oom = true;
    void *out = NULL;
    int code;
    int which = WHICH;
    if (which == 0) { vp_kind = &tx_data__descriptor; code = api_utils_read_tx_data(fd, &h, (struct TxData **) &out); }
    else if (which == 1) { vp_kind = &tx_request__descriptor; code = api_utils_read_tx_request(fd, &h, (struct TxRequest **) &out); }
    else { vp_kind = &rx_request__descriptor; code = api_utils_read_rx_request(fd, &h, (struct RxRequest **) &out); }
#if MODE == 1
    size_t taken = S->in_pos;
#else
    size_t taken = vp_stream_taken;
#endif
    VP_ASSERT(taken <= h.message_length, "nothing beyond the declared length is consumed");
    if (h.message_length > 32768) VP_ASSERT(code != 0 && vp_unpacks == 0, "a message over 32 KiB is refused");
    if (vp_unpacks > 0) {
        VP_ASSERT(vp_unpack_kind, "the message is decoded as the expected kind");
        VP_ASSERT(vp_unpack_len == h.message_length && taken == h.message_length, "exactly the declared bytes are decoded, once all arrived");
        VP_ASSERT(vp_unpack_same, "the decoded bytes are the received ones");
    }
    VP_ASSERT((code == 0) == (vp_unpacks == 1 && vp_unpack_ok), "a message is delivered exactly when it decodes");
    VP_ASSERT((code == 0) ? (out == vp_object && out != NULL) : (out == NULL), "a failure hands out nothing");
    VP_ASSERT(vp_live == (code == 0 ? 1 : 0), "no memory is kept beyond the delivered message");
    VP_ASSERT(S->open, "the socket is left to the caller");
    if (code == 0 && h.message_length > 1) VP_COVER("message delivered");
#if MODE == 2
    if (code == 0 && h.message_length == 32768) VP_COVER("longest message");
    if (h.message_length > 32768) VP_COVER("too long");
    if (vp_rx_failed && taken > 5) VP_COVER("failure in the middle");
#else
    if (vp_last_recv == 1 && taken == 1) VP_COVER("timeout in the middle");
    if (vp_unpacks == 1 && code != 0) VP_COVER("undecodable");
#endif
}
#else
VP_MAIN {
    int fd = vp_open_sock(0);
    S = &vp_socks[0];
    vp_may_wfail = vp_may_wfragment = true;
    uint32_t status = nd_bool() ? 1 : 0;
    uint32_t details = nd_u32();
    vp_oom = nd_bool();
    bool oom = vp_oom;
    int code = api_utils_write_response(fd, (ResponseStatus) status, details);
    uint8_t e[18];
    size_t n = vp_expect_response(status, details, e);
    if (code == 0) VP_ASSERT(S->out_len == n, "the frame is complete");
    else VP_ASSERT(S->broken || (oom && S->out_len == 0), "a failure is reported only when sending failed");
    if (S->broken) VP_ASSERT(code != 0, "a failure to send is reported");
    for (size_t i = 0; i < 16; i++) if (i < S->out_len) VP_ASSERT(i < n && S->out[i] == e[i], "the frame carries version, type, length, status and details");
    VP_ASSERT(vp_live == 0, "no memory is kept");
    if (code == 0 && details > 0x10000000u) VP_COVER("long details");
    if (code == 0 && details == 0) VP_COVER("short details");
    if (code != 0 && S->out_len > 3) VP_COVER("failure in the middle");
}
#endif
