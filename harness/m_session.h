/* C06/C07: one client's session over a scripted conversation.
 * Letters: d transmit 2 bytes, D transmit 3 bytes (two chunks), e empty payload, x undecodable transmit message, L oversize transmit message,
 *          u message of another type with a 2-byte body, v other protocol version with a 1-byte body, s shutdown, h only half a header, p transmit message whose body stops arriving.
 * U a longer body of another type, interrupted by a timeout; t a timeout, | a fragment boundary, 1-5 the next header is split there by a timeout.
 * After the script the peer closes the connection.  Payload and body bytes, lengths, versions and types that do not matter are solver variables. */
#define PMAX 8
static uint8_t expect_out[VP_OUTMAX]; static size_t expect_len;
static uint8_t pay[PMAX]; static size_t pay_len;          /* payload bytes that must have been modulated */
static size_t mod_seen, corr_seen, dump_seen, dev_seen;    /* how far each stage got */
static bool ended_by_shutdown, at_end;
static int n_chunk, chunk_no;        /* chunks expected; chunks seen */
/* FAILCHUNK: the chunk for which stage FAILSTAGE (1 modulator, 2 correction, 3 device) fails */
/* the stream arrives in segments: a segment is delivered by one recv (or more, if the reader asks for less), optionally after timeouts */
#define NSEG 24
static struct { size_t len; bool filler; int timeouts; } seg[NSEG];
static int nseg, cseg; static size_t cpos;
static void cut(int timeouts) { if (seg[nseg].len > 0) nseg++; seg[nseg].timeouts += timeouts; }

static void expect_response(uint32_t st, uint32_t d) {
    if (ended_by_shutdown) return;
    uint8_t e[18];
    size_t n = vp_expect_response(st, d, e);
    for (size_t i = 0; i < n; i++) expect_out[expect_len + i] = e[i];
    expect_len += n;
}
static void put(struct vp_sock *s, uint8_t b) { VP_ASSERT(s->in_len < VP_INMAX, "model: the conversation fits"); s->in[s->in_len++] = b; seg[nseg].len++; }
static int split_at;       /* next header is split after that many bytes by a timeout */
static void put_header(struct vp_sock *s, uint8_t v, uint8_t t, uint32_t len) {
    uint8_t h[6] = {v, t, (uint8_t) (len >> 24), (uint8_t) (len >> 16), (uint8_t) (len >> 8), (uint8_t) len};
    for (int i = 0; i < 6; i++) { if (split_at != 0 && split_at == i) cut(1); put(s, h[i]); }
    split_at = 0;
}
static bool is_rx;
static RxRequest s_rx; static TxRequest s_tx; static FskDemodulationSettings s_dem; static FskModulationSettings s_mod; static DopplerSettings s_dop; static FileSettings s_fil;
static void payload(struct vp_sock *s, size_t n) {
    put_header(s, 0, TYPE_TX_DATA, (uint32_t) n);
    size_t good = n;
    bool failed = false;
    if (!is_rx && !ended_by_shutdown)
        for (size_t i = 0; i < n && !failed; i += BUFSZ)
            if (++n_chunk == FAILCHUNK) { failed = true; good = i + BUFSZ < n ? i + BUFSZ : n; }
    for (size_t i = 0; i < n; i++) { uint8_t b = nd_u8(); if (CUTS) cut(0); put(s, b); if (!is_rx && !ended_by_shutdown && i < good) pay[pay_len++] = b; }
    if (is_rx) expect_response(1, RESPONSE_DETAILS_INVALID_REQUEST); else if (failed) expect_response(1, RESPONSE_DETAILS_INTERNAL_ERROR); else expect_response(0, 0);
}
static void vp_arrive(int k) {
    is_rx = RXS;
    set_header(k, 0, RXS ? TYPE_RX_REQUEST : TYPE_TX_REQUEST, 0, 6);
    RxRequest r = RX_REQUEST__INIT; TxRequest t = TX_REQUEST__INIT;
    FskDemodulationSettings d = FSK_DEMODULATION_SETTINGS__INIT; FskModulationSettings m = FSK_MODULATION_SETTINGS__INIT;
    DopplerSettings o = DOPPLER_SETTINGS__INIT; FileSettings f = FILE_SETTINGS__INIT;
    d.demod_fsk_transition_width = 2000; m.mod_fsk_deviation = 600; o.n_tle = 3; o.tle = tles; f.filename = fname;
    r.rx_center_freq = 437000000; r.rx_sampling_freq = 48000; r.demod_baud_rate = 4800; r.demod_decimation = 2; r.demod_type = 1;
    r.demod_destination = 0; r.fsk_settings = &s_dem; r.file_settings = &s_fil;
    t.tx_center_freq = 437000000; t.tx_sampling_freq = 48000; t.mod_baud_rate = 4800; t.mod_type = 1; t.fsk_settings = &s_mod; t.file_settings = &s_fil;
    t.doppler = CORR == 1 ? &s_dop : NULL; t.tx_offset = CORR == 2 ? 77 : 0; t.tx_dump_file = DUMP;
    s_dem = d; s_mod = m; s_dop = o; s_fil = f; s_rx = r; s_tx = t;
    C[k].dop = o; C[k].rx = r; C[k].tx = t;
    expect_response(0, (uint32_t) k);
    struct vp_sock *s = &vp_socks[k + 1];
    s->in_pos = 0; s->in_len = 0; seg[0].len = 0; nseg = 0;
    put_header(s, 0, RXS ? TYPE_RX_REQUEST : TYPE_TX_REQUEST, 0);
    cut(0);
    for (size_t i = 0; i < sizeof(SCRIPT) - 1; i++) {
        char e = SCRIPT[i];
        if (e == 'd') payload(s, 2);
        if (e == 'D') payload(s, 3);
        if (e == 'e') payload(s, 0);
        if (e == 'x') { put_header(s, 0, TYPE_TX_DATA, 1); put(s, 0xEE); expect_response(1, RESPONSE_DETAILS_INVALID_REQUEST); }
        if (e == 'p') { put_header(s, 0, TYPE_TX_DATA, 3); put(s, nd_u8()); expect_response(1, RESPONSE_DETAILS_INVALID_REQUEST); }
        if (e == 'L') { put_header(s, 0, TYPE_TX_DATA, BIG); put(s, nd_u8()); expect_response(1, RESPONSE_DETAILS_INVALID_REQUEST); }
        if (e == 'u') { uint8_t t = nd_u8(); VP_ASSUME(t != TYPE_TX_DATA && t != TYPE_SHUTDOWN); put_header(s, 0, t, 2); put(s, nd_u8()); put(s, nd_u8()); }
        if (e == 'v') { put_header(s, VER, nd_u8(), 1); put(s, nd_u8()); }
        if (e == 's') { put_header(s, 0, TYPE_SHUTDOWN, 0); ended_by_shutdown = true; }
        if (e == 'U') { put_header(s, 0, 77, 1500); cut(0); seg[nseg].len = 1030; seg[nseg].filler = true; cut(1); seg[nseg].len = 470; seg[nseg].filler = true; cut(0); }
        if (e == 't') cut(1);
        if (e == '|') cut(0);
        if (e >= '1' && e <= '5') split_at = e - '0';
        if (e == 'h') { put(s, 0); put(s, TYPE_TX_DATA); put(s, 0); }
    }
    run_on_create = !STOP;
}
ssize_t vp_recv(int fd, void *buf, size_t len, int fl) {
    (void) fl;
    struct vp_sock *s = vp_sock(fd);
    vp_net_tick();
    if (len == 0) return 0;
    VP_ASSERT(!STOP || cseg == 0, "nothing is read after the server stopped");
    if (cseg > nseg || (cseg == nseg && cpos == seg[nseg].len)) {
        VP_ASSERT(!ended_by_shutdown, "nothing is read after the client asked for shutdown");
        at_end = true;
        if (RESET) { vp_errno = ECONNRESET; return -1; }
        return 0;
    }
    if (cpos == 0 && seg[cseg].timeouts > 0) { seg[cseg].timeouts--; vp_errno = EAGAIN; return -1; }
    size_t avail = seg[cseg].len - cpos;
    size_t n = avail < len ? avail : len;
    if (!seg[cseg].filler) {
        const uint8_t *q = s->in + s->in_pos;
        if (len == 6) {
            /* a header read: write it typed so that its bytes stay known; what did not arrive yet is garbage */
            struct message_header h;
            h.protocol_version = q[0];
            h.type = n > 1 ? q[1] : 0xA5;
            h.message_length = (uint32_t) (n > 2 ? q[2] : 0xA5) | (uint32_t) (n > 3 ? q[3] : 0xA5) << 8 | (uint32_t) (n > 4 ? q[4] : 0xA5) << 16 | (uint32_t) (n > 5 ? q[5] : 0xA5) << 24;
            *(struct message_header *) buf = h;
        } else {
            for (size_t i = 0; i < 6; i++) if (i < n) ((uint8_t *) buf)[i] = q[i];
        }
        VP_ASSERT(n <= 6, "model: stored reads are short");
        s->in_pos += n;
    }
    cpos += n;
    if (cpos == seg[cseg].len) { cseg++; cpos = 0; }
    return (ssize_t) n;
}
ssize_t vp_read(int fd, void *buf, size_t len) { return vp_recv(fd, buf, len, 0); }

static TxData txd; static uint8_t txd_bytes[4]; static int txd_live;
ProtobufCMessage *protobuf_c_message_unpack(const ProtobufCMessageDescriptor *d, ProtobufCAllocator *a, size_t len, const uint8_t *data) {
    (void) a;
    if (d == &rx_request__descriptor) return &s_rx.base;
    if (d == &tx_request__descriptor) return &s_tx.base;
    VP_ASSERT(d == &tx_data__descriptor, "a transmit message is decoded as such");
    VP_ASSERT(len <= 4 && txd_live == 0, "one whole message at a time is decoded");
    VP_ASSUME(len <= 4);
    if (len == 1 && data[0] == 0xEE) return NULL;
    TxData t = TX_DATA__INIT;
    txd = t;
    for (size_t i = 0; i < 4; i++) if (i < len) txd_bytes[i] = data[i];
    txd.data.len = len; txd.data.data = txd_bytes;
    txd_live++;
    return &txd.base;
}
void protobuf_c_message_free_unpacked(ProtobufCMessage *m, ProtobufCAllocator *a) {
    (void) a;
    if (m == NULL) return;
    if (m == &txd.base) { VP_ASSERT(txd_live == 1, "a transmit message is released once"); txd_live--; return; }
    C[0].freed++;
}
/* every stage sees the payload in order; a sample carries the payload byte it was made of */
static float complex bufm[BUFSZ], bufc[BUFSZ];
static size_t in_order(const float complex *x, size_t n, size_t from, bool shifted) {
    for (size_t i = 0; i < BUFSZ; i++)
        if (i < n) VP_ASSERT(from + i < pay_len && crealf(x[i]) == (float) pay[from + i] && cimagf(x[i]) == (shifted ? 1.0f : 0.0f), "every payload byte passes every stage once and in order");
    return from + n;
}
void gfsk_mod_process(const uint8_t *in, size_t n, float complex **o, size_t *ol, gfsk_mod *m) {
    (void) m;
    VP_ASSERT(n >= 1 && n <= BUFSZ, "a chunk is not empty and no longer than the configured buffer");
    VP_ASSUME(n >= 1 && n <= BUFSZ);
    for (size_t i = 0; i < BUFSZ; i++) if (i < n) bufm[i] = (float) in[i];
    mod_seen = in_order(bufm, n, mod_seen, false);
    chunk_no++;
    if (FAILSTAGE == 1 && chunk_no == FAILCHUNK) { corr_seen += n; dump_seen += n; dev_seen += n; *o = NULL; *ol = 0; return; }
    *o = bufm; *ol = n;
}
static void corr(const float complex *in, size_t n, float complex **o, size_t *ol) {
    if (FAILSTAGE == 1 && chunk_no == FAILCHUNK) { VP_ASSERT(n == 0, "nothing is made up"); *o = NULL; *ol = 0; return; }
    for (size_t i = 0; i < BUFSZ; i++) if (i < n) bufc[i] = in[i] + I;
    corr_seen = in_order(bufc, n, corr_seen, true);
    if (FAILSTAGE == 2 && chunk_no == FAILCHUNK) { dump_seen += n; dev_seen += n; *o = NULL; *ol = 0; return; }
    *o = bufc; *ol = n;
}
void doppler_process_tx(float complex *in, size_t n, float complex **o, size_t *ol, doppler *d) { (void) d; corr(in, n, o, ol); }
void sig_source_multiply(int64_t f, const float complex *in, size_t n, float complex **o, size_t *ol, sig_source *s) { (void) s; VP_ASSERT(f == 77, "the requested shift is applied"); corr(in, n, o, ol); }
size_t vp_fwrite(const void *p, size_t s, size_t n, FILE *f) {
    (void) f;
    VP_ASSERT(s == sizeof(float complex), "samples are dumped whole");
    dump_seen = in_order(p, n, dump_seen, CORR != 0);
    VP_ASSERT(dev_seen + n == dump_seen, "a chunk is dumped before it is transmitted");
    return DUMP == 2 ? 0 : n;
}
static int dev_tx(float complex *in, size_t n, void *p) {
    VP_ASSERT(((struct dev *) p)->tx && !((struct dev *) p)->stopped, "the transmitter is live");
    dev_seen = in_order(in, n, dev_seen, CORR != 0);
    return FAILSTAGE == 3 && chunk_no == FAILCHUNK ? -1 : 0;
}
static void vp_between(int k) { (void) k; }
static void vp_served(int k) {
    if (STOP) return;
    struct vp_sock *s = &vp_socks[k + 1];
    VP_ASSERT(!s->open && s->closes == 1, "the client's socket is closed once when the session ends");
    VP_ASSERT((ended_by_shutdown || s->in_pos == s->in_len) && at_end == !ended_by_shutdown, "the session reads everything up to its end");
    VP_ASSERT(s->out_len == expect_len, "every transmit message is answered once");
    for (size_t i = 0; i < VP_OUTMAX; i++) if (i < expect_len) VP_ASSERT(s->out[i] == expect_out[i], "responses are right and in order");
    VP_ASSERT(n_dev_live == 0 && n_dsp_live == 0, "the device and the receive pipeline are released when the session ends");
    VP_ASSERT(txd_live == 0, "transmit messages are released");
    VP_ASSERT(mod_seen == pay_len && dev_seen == pay_len, "the whole payload is transmitted");
    VP_ASSERT(CORR == 0 || corr_seen == pay_len, "the whole payload is corrected");
    VP_ASSERT(DUMP == 0 || dump_seen == pay_len, "the whole payload is dumped if requested");
#if !STOP
    VP_COVER("session ended");
#endif
}
VP_MAIN {
    base_config();
    run_server();
#if STOP
    VP_ASSERT(vp_socks[1].out_len == 0 || (!vp_socks[1].open && vp_socks[1].closes == 1), "stopping the server ends the session");
    VP_COVER("stopped");
#endif
}
