/* C08/C30: a history of connections and session ends against the ownership rules.
 * T valid transmit request, R valid receive request, i invalid transmit request, j invalid receive request, f valid transmit request whose device fails, g the same for receive,
 * p ping, u other message type, v other protocol version, b header that stops arriving, q connection closed at once, w nothing arrives in time, x/y undecodable transmit/receive request, E accept fails, n session thread of a transmit request can not start,
 * 0-9 the session of that connection ends before the next one arrives.
 * Everything the rules do not mention (frequencies, offsets, versions, types, the accept error) is a solver variable. */
static const char script[] = SCRIPT;
static size_t spos;
static char kind[CONNS];
static bool live[CONNS];            /* expected: the client owns its session */
static int thread_of[CONNS], thread_end[CONNS];
static RxRequest s_rx[CONNS]; static TxRequest s_tx[CONNS]; static FskDemodulationSettings s_dem[CONNS]; static FskModulationSettings s_mod[CONNS]; static FileSettings s_fil[CONNS];

static int tx_owner(void) { for (int i = 0; i < CONNS; i++) if (live[i] && (kind[i] == 'T')) return i; return -1; }
static int rx_owner(void) { for (int i = 0; i < CONNS; i++) if (live[i] && (kind[i] == 'R')) return i; return -1; }

static void vp_between(int k) {
    /* sessions that end before connection k arrives */
    while (script[spos] >= '0' && script[spos] <= '9') {
        int j = script[spos] - '0';
        spos++;
        vp_socks[j + 1].in_pos = vp_socks[j + 1].in_len;    /* the peer closes */
        /* the session is one of the threads created for the connection (a reader thread is the other) */
        for (int t = thread_end[j] - 1; t >= thread_of[j] && vp_socks[j + 1].open; t--) {
            vp_threads[t].ran = true;
            vp_threads[t].fn(vp_threads[t].arg);
        }
        VP_ASSERT(closed_once(j), "a session that ended has closed its socket");
        live[j] = false;
    }
    (void) k;
    if (script[spos] == 'E') { spos++; accept_error = ERRNO; }
}
static void vp_arrive(int k) {
    struct conn *c = &C[k];
    char e = script[spos];
    spos++;
    kind[k] = e;
    RxRequest r = RX_REQUEST__INIT; TxRequest t = TX_REQUEST__INIT;
    FskDemodulationSettings d = FSK_DEMODULATION_SETTINGS__INIT; FskModulationSettings m = FSK_MODULATION_SETTINGS__INIT; FileSettings f = FILE_SETTINGS__INIT;
    d.demod_fsk_transition_width = 2000; m.mod_fsk_deviation = 600; f.filename = fname;
    r.rx_center_freq = 437000000; r.rx_sampling_freq = 48000; r.rx_offset = k; r.demod_baud_rate = 4800; r.demod_decimation = 2; r.demod_type = 1;
    r.demod_destination = 0; r.fsk_settings = &s_dem[k]; r.file_settings = &s_fil[k];
    t.tx_center_freq = 437000000; t.tx_sampling_freq = 48000; t.mod_baud_rate = 4800; t.mod_type = 1; t.fsk_settings = &s_mod[k]; t.file_settings = &s_fil[k];
    if (e == 'i') t.mod_baud_rate = 0;
    if (e == 'j') r.fsk_settings = NULL;
    s_dem[k] = d; s_mod[k] = m; s_fil[k] = f; s_rx[k] = r; s_tx[k] = t; c->rx = r; c->tx = t;
    uint8_t type = TYPE_TX_REQUEST, version = 0;
    if (e == 'R' || e == 'j' || e == 'g' || e == 'y') type = TYPE_RX_REQUEST;
    if (e == 'u') type = OTHER;
    if (e == 'v') version = VER;
    if (e == 'p') type = TYPE_PING;
    set_header(k, version, type, 0, e == 'b' ? 3 : e == 'q' ? 0 : 6);
    c->undecodable = e == 'x' || e == 'y';
    dev_fails = e == 'f' || e == 'g';
    thread_fails = e == 'n';
    thread_of[k] = vp_nthreads;
}
static int count(char e) { int n = 0; for (int i = 0; i < CONNS; i++) n += live[i] && kind[i] == e; return n; }
static void vp_served(int k) {
    thread_end[k] = vp_nthreads;
    char e = kind[k];
    bool tx_busy = tx_owner() >= 0, rx_busy = RXTYPE == 1 && rx_owner() >= 0;
    VP_ASSERT(vp_locks_held == 0, "no lock is left held");
    if ((e == 'T' && !tx_busy) || (e == 'R' && !rx_busy)) {
        VP_ASSERT(answered(k, 0, (uint32_t) k), "a free radio is given to the client, which is told its number");
        VP_ASSERT(vp_socks[k + 1].open, "an accepted client stays connected");
        live[k] = true;
    } else {
        VP_ASSERT(closed_once(k), "a refused client's connection is closed once");
        if (e == 'T' || e == 'R') VP_ASSERT(answered(k, 1, e == 'T' ? RESPONSE_DETAILS_TX_IS_BEING_USED : RESPONSE_DETAILS_RX_IS_BEING_USED), "a client that asks for a radio in use is told so");
        else if (e == 'f' && tx_busy) VP_ASSERT(answered(k, 1, RESPONSE_DETAILS_TX_IS_BEING_USED), "a client that asks for a radio in use is told so");
        else if (e == 'g' && rx_busy) VP_ASSERT(answered(k, 1, RESPONSE_DETAILS_RX_IS_BEING_USED), "a client that asks for a radio in use is told so");
        else if (e == 'f' || e == 'g') VP_ASSERT(answered(k, 1, RESPONSE_DETAILS_INTERNAL_ERROR), "a failed set-up is answered as such");
        else if (e == 'q' || e == 'b' || e == 'w' || e == 'n') VP_ASSERT(vp_socks[k + 1].out_len <= 18, "at most one answer");
        else if (e == 'p') VP_ASSERT(answered(k, 0, 0), "a ping is answered");
        else VP_ASSERT(answered(k, 1, RESPONSE_DETAILS_INVALID_REQUEST), "a malformed first message gets one failure response saying so");
    }
    VP_ASSERT(n_tx_dev_live == count('T') && n_rx_dev_live == count('R'), "every live client, and nobody else, has its device");
    if (e != 'w' && e != 'b' && e != 'q' && e != 'v')   /* others may leave the remains of ended sessions to the next request */
        VP_ASSERT(n_mod_live == count('T') && n_dsp_live == count('R'), "every live client, and nobody else, has its signal chain");
    for (int i = 0; i < CONNS; i++)
        if (i < k && live[i]) VP_ASSERT(vp_socks[i + 1].open, "other clients stay connected");
    if (k == CONNS - 1) {
#if FAILK == FK_NONE
        VP_COVER("history done");
#endif
    }
}
ProtobufCMessage *protobuf_c_message_unpack(const ProtobufCMessageDescriptor *d, ProtobufCAllocator *a, size_t len, const uint8_t *data) {
    (void) a; (void) len; (void) data;
    if (C[cur].undecodable) return NULL;
    vp_live++;
    if (d == &rx_request__descriptor) return &s_rx[cur].base;
    if (d == &tx_request__descriptor) return &s_tx[cur].base;
    VP_ASSERT(false, "a connection starts with a request of its own kind");
    return NULL;
}
void protobuf_c_message_free_unpacked(ProtobufCMessage *m, ProtobufCAllocator *a) {
    (void) a;
    if (m == NULL) return;
    for (int i = 0; i < CONNS; i++)
        if (m == &s_rx[i].base || m == &s_tx[i].base) {
            C[i].freed++;
            VP_ASSERT(C[i].freed == 1, "a request is released once");
            vp_live--;
        }
}
ssize_t vp_recv(int fd, void *buf, size_t len, int fl) {
    (void) fl;
    struct vp_sock *s = vp_sock(fd);
    vp_net_tick();
    if (fd == VP_FD_BASE + 1 + cur && kind[cur] == 'w') { vp_errno = EAGAIN; return -1; }
    size_t n = s->in_len - s->in_pos;
    if (len == 0) return 0;
    if (n == 0) return 0;
    if (n > len) n = len;
    VP_ASSERT(len == 6, "model: header reads");
    const uint8_t *q = s->in + s->in_pos;
    struct message_header h;
    h.protocol_version = q[0]; h.type = n > 1 ? q[1] : 0xA5;
    h.message_length = (uint32_t) q[2] | (uint32_t) q[3] << 8 | (uint32_t) q[4] << 16 | (uint32_t) q[5] << 24;
    *(struct message_header *) buf = h;
    s->in_pos += n;
    return (ssize_t) n;
}
ssize_t vp_read(int fd, void *buf, size_t len) { return vp_recv(fd, buf, len, 0); }
VP_MAIN {
    base_config();
    run_server();
#if FAILK != FK_NONE
    if (!started) VP_COVER("start refused");
#endif
#if !defined(NO_TEARDOWN) && FAILK == FK_NONE
    VP_COVER("stopped");
#endif
}
