/* C05: one transmit request with arbitrary content */
static void vp_arrive(int k) {
    set_header(k, 0, TYPE_TX_REQUEST, 0, 6);
    any_request(&C[k]);
    C[k].undecodable = nd_bool();
    /* symbol length and deviation are fixed per harness so that all sizes are exact; everything else stays arbitrary */
    C[k].tx.tx_sampling_freq = nd_bool() ? 1200u * SPS : 0;
    C[k].tx.mod_baud_rate = nd_bool() ? 1200 : 0;
    C[k].mod.mod_fsk_deviation = DEV;
}
static void vp_between(int k) { (void) k; }
static bool nothing_left(void) { return n_dev_live == 0 && n_mod_live == 0 && n_dopp_live == 0 && n_sig_live == 0 && n_files_open == 0 && vp_live == 1; }
static void vp_served(int k) {
    struct conn *c = &C[k];
    const TxRequest *t = &c->tx;
    bool valid = !c->undecodable && tx_valid(c);
    if (!timeout_set) {
        VP_ASSERT(fail_setup && n_mod_create == 0 && n_dev_create == 0, "reads on the connection are bounded by the configured timeout");
        VP_ASSERT(closed_once(k), "the connection is closed once");
#if FAILK == FK_TIMEOUT
        VP_COVER("no timeout");
#endif
        return;
    }
    if (!valid) {
        VP_ASSERT(nothing_left(), "nothing stays allocated for an invalid request");
        VP_ASSERT(answered(k, 1, RESPONSE_DETAILS_INVALID_REQUEST) || FAILK == FK_ALLOC, "an invalid request gets one failure response saying so");
        VP_ASSERT(closed_once(k), "the connection of an invalid request is closed once");
        VP_ASSERT(n_mod_create == 0 && n_dev_create == 0 && !dopp_made && !sig_made && vp_nthreads == 1, "nothing is created for an invalid request");
#if FAILK == FK_NONE
        VP_COVER("invalid");
        if (c->tx_given && t->fsk_settings == NULL) VP_COVER("no modulator settings");
#endif
        return;
    }
    if (n_mod_create > 0) {
        VP_ASSERT(mod_sps == (float) ((double) t->tx_sampling_freq / t->mod_baud_rate), "the modulator gets the requested symbol length");
        VP_ASSERT(mod_sens == (float) (2 * M_PI * (double) t->fsk_settings->mod_fsk_deviation / (double) t->tx_sampling_freq), "the modulator gets the requested deviation");
        VP_ASSERT(mod_max == BUFSZ, "the modulator takes chunks of the configured size");
    }
    if (vp_socks[k + 1].open) {
        VP_ASSERT(answered(k, 0, (uint32_t) k) || FAILK == FK_ALLOC, "an accepted client is told its number");
        VP_ASSERT(n_tx_dev_live == 1 && n_mod_live == 1 && vp_nthreads == 2, "an accepted client has its transmitter");
        VP_ASSERT(dopp_made == (t->doppler != NULL), "orbit correction is used if and only if requested");
        VP_ASSERT(sig_made == (t->doppler == NULL && t->tx_offset != 0), "a fixed shift is used if and only if requested");
        VP_ASSERT(n_files_open == (t->tx_dump_file ? 1 : 0), "the dump is opened if and only if requested");
        if (dopp_made) VP_ASSERT(dopp_fs == t->tx_sampling_freq && dopp_cf == t->tx_center_freq && dopp_off == t->tx_offset && dopp_start == (t->file_settings != NULL ? (time_t) t->file_settings->start_time_seconds : 0), "orbit correction gets the requested values");
        if (sig_made) VP_ASSERT(sig_fs == t->tx_sampling_freq, "the fixed shift gets the requested rate");
        if (dopp_made || sig_made) VP_ASSERT(corr_max >= 8u * SPS * BUFSZ, "frequency correction has room for the longest chunk");
        if (TXTYPE == 2) VP_ASSERT(dev_max >= 8u * SPS * BUFSZ, "the output file has room for the longest chunk");
#if FAILK == FK_NONE && !defined(TX_NEVER)
        VP_COVER("accepted");
        if (dopp_made) VP_COVER("accepted with orbit");
        if (sig_made) VP_COVER("accepted with offset");
#endif
    } else {
        VP_ASSERT(fail_setup, "a valid request is accepted when the set-up succeeds");
        VP_ASSERT(answered(k, 1, RESPONSE_DETAILS_INTERNAL_ERROR) || FAILK == FK_ALLOC || FAILK == FK_THREAD, "a failed set-up is answered as such");
        VP_ASSERT(closed_once(k), "the connection of a refused request is closed once");
        VP_ASSERT(nothing_left(), "nothing stays created for a refused request");
#if FAILK != FK_NONE && FAILK != FK_TIMEOUT
        VP_COVER("set-up failed");
#endif
    }
}
VP_MAIN {
    base_config();
    run_server();
}
