/* C04: one receive request with arbitrary content */
static void vp_arrive(int k) { set_header(k, 0, TYPE_RX_REQUEST, 0, 6); any_request(&C[k]); C[k].undecodable = nd_bool(); }
static void vp_between(int k) { (void) k; }
static bool nothing_left(void) { return n_dev_live == 0 && n_dsp_live == 0 && vp_live == 1; }
static void vp_served(int k) {
    struct conn *c = &C[k];
    bool valid = !c->undecodable && rx_valid(c);
    if (!timeout_set) {
        VP_ASSERT(fail_setup && n_dsp_create == 0 && n_dev_create == 0, "reads on the connection are bounded by the configured timeout");
        VP_ASSERT(closed_once(k), "the connection is closed once");
#if FAILK == FK_TIMEOUT
        VP_COVER("no timeout");
#endif
        return;
    }
    if (!valid) {
        VP_ASSERT(nothing_left(), "nothing stays allocated for an invalid request");
        VP_ASSERT(answered(k, 1, RESPONSE_DETAILS_INVALID_REQUEST) || FAILK == FK_ALLOC, "an invalid request gets one failure response saying so");
        VP_ASSERT(closed_once(k), "the connection of an invalid request is closed once");
        VP_ASSERT(n_dsp_create == 0 && n_dev_create == 0 && vp_nthreads == 1, "nothing is created for an invalid request");
#if FAILK == FK_NONE
        VP_COVER("invalid");
        if (c->rx_given && c->rx.demod_decimation == 256) VP_COVER("decimation 256");
        if (c->rx_given && c->rx.fsk_settings == NULL) VP_COVER("no demodulator settings");
#endif
        return;
    }
    if (n_dsp_create > 0) {
        VP_ASSERT(n_dsp_create == 1 && dsp_id == (uint32_t) k && dsp_fd == VP_FD_BASE + 1 + k, "one demodulator is created for the client");
        VP_ASSERT(dsp_req == &c->rx, "the demodulator gets the accepted request");
    }
    if (vp_socks[k + 1].open) {
        VP_ASSERT(answered(k, 0, (uint32_t) k) || FAILK == FK_ALLOC, "an accepted client is told its number");
        VP_ASSERT(n_rx_dev_live == 1 && n_dsp_live == 1 && vp_nthreads == 3, "an accepted client has its receiver");
#if FAILK == FK_NONE
        VP_COVER("accepted");
#endif
    } else {
        VP_ASSERT(fail_setup, "a valid request is accepted when the set-up succeeds");
        VP_ASSERT(answered(k, 1, RESPONSE_DETAILS_INTERNAL_ERROR) ||
                  FAILK == FK_ALLOC || FAILK == FK_THREAD, "a failed set-up is answered as such");
        VP_ASSERT(closed_once(k), "the connection of a refused request is closed once");
        VP_ASSERT(nothing_left(), "nothing stays created for a refused request");
#if FAILK != FK_NONE && FAILK != FK_TIMEOUT
        VP_COVER("set-up failed");
#endif
    }
}
VP_MAIN {
    base_config();
    run_server();
}
