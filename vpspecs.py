HARNESSES = []
ASSUMPTIONS = {}
COMMON_ASSUMPTIONS = []


def H(prop, name, file, srcs, unwind, bound, **kw):
    HARNESSES.append(dict(prop=prop, name=name, file=file, srcs=["src/" + s for s in srcs.split()], unwind=unwind, bound=bound, **kw))


def D(**kw):
    return {k: str(v) for k, v in kw.items()}


for qs in (1, 2, 3):
    for blk in (0, 1):
        kind = "blocking" if blk else "dropping"
        for pre in ("", "pptc"[:4] if qs > 1 else "ptc", "p" * qs + "t"):
            H("C10", "queue-%d-%s-%s" % (qs, kind, pre or "fresh"), "h_queue.c", "queue.c", 8,
              "%d buffers, history '%s' then 3 arbitrary operations of producer/consumer/shutdown, each waiting at most twice" % (qs, pre),
              defs=D(QS=qs, BLK=blk, OPS=3, BS=2, WAITS=2, PREFIX='"%s"' % pre, VP_OWN_MEMCPY=1), cf=True, tier="quick" if (qs < 3 or (blk == 0 and pre == "pptc")) else "thorough")

COMMON_ASSUMPTIONS += ["heap blocks are returned by a bump model of malloc (failure only where a harness enables it); logging has no effect",
                       "operating-system calls behave as their manual pages allow; outcomes are solver variables",
                       "bounds per harness are enforced by unwinding assertions; anything beyond them is outside the claim"]
H("C01", "read", "h_sock.c", "tcp_utils.c", 10, "buffers of 0-3 bytes, up to 5 kernel calls, each a fragment, signal, timeout, reset or end", defs=D(MODE=0, N=3, CALLS=5))
H("C01", "write", "h_sock.c", "tcp_utils.c", 10, "buffers of 0-4 bytes, up to 6 kernel calls, each a fragment, signal or failure", defs=D(MODE=1, N=4, CALLS=6))
H("C01", "read-long", "h_sock.c", "tcp_utils.c", 12, "buffers of 0-5 bytes, up to 8 kernel calls, each a fragment, signal, timeout, reset or end", defs=D(MODE=0, N=5, CALLS=8), tier="thorough")
H("C02", "header", "h_api.c", "api_utils.c tcp_utils.c api.pb-c.c", 12, "any 7-byte stream prefix, up to 4 kernel calls", defs=D(MODE=0, N=7, CALLS=4, WHICH=0))
for w, nm in enumerate(("tx-data", "tx-request", "rx-request")):
    H("C02", nm + "-content", "h_api.c", "api_utils.c tcp_utils.c api.pb-c.c", 12, "declared length 0-3, any content, up to 4 kernel calls, any decoder verdict, any allocation failure", defs=D(MODE=1, N=3, CALLS=4, WHICH=w))
    H("C02", nm + "-length", "h_api.c", "api_utils.c tcp_utils.c api.pb-c.c", 12, "any 32-bit declared length in up to 3 fragments, any decoder verdict, any allocation failure", defs=D(MODE=2, N=2, CALLS=3, WHICH=w))
H("C03", "response", "h_api.c", "api_utils.c tcp_utils.c api.pb-c.c", 18, "every status and 32-bit details value, any split of the write into up to 2 parts, any failure", defs=D(MODE=3, N=2, CALLS=2, WHICH=0))
H("C03", "response-3", "h_api.c", "api_utils.c tcp_utils.c api.pb-c.c", 18, "every status and 32-bit details value, any split of the write into up to 3 parts, any failure", defs=D(MODE=3, N=2, CALLS=3, WHICH=0), tier="thorough")
SERVER = "tcp_server.c api_utils.c tcp_utils.c linked_list.c sdr_worker.c api.pb-c.c"
def srv(prop, name, mode, bound, unwind=20, **kw):
    d = dict(MODEFILE='"%s"' % mode, BUFSZ=2, RXTYPE=2, TXTYPE=2, CONNS=1)
    d.update(kw.pop("d", {}))
    H(prop, name, "h_server.c", SERVER, unwind, bound, defs=D(**d), **kw)
for t, nm in enumerate(("sdr-server", "pluto", "file")):
    srv("C04", "request-" + nm, "m_rxreq.h", "one connection, every value of every receive request field, set-up succeeds", d=dict(RXTYPE=t, NO_TEARDOWN=1))
    for k, nn in (("FK_DSP", 0), ("FK_DEV", 0), ("FK_TIMEOUT", 0), ("FK_THREAD", 1), ("FK_THREAD", 2)) + (("FK_ALLOC", 2),):
        srv("C04", "failing-%s-%s%s" % (nm, k[3:].lower(), nn or ""), "m_rxreq.h", "one connection, every value of every receive request field, set-up step %s %s fails" % (k[3:], nn or ""),
            d=dict(RXTYPE=t, NO_TEARDOWN=1, FAILK=k, FAILN=nn), tier="quick" if k in ("FK_DEV", "FK_DSP") and t != 1 else "thorough")
TXB = "one connection, symbol length %d, deviation %d, every value of every other transmit request field, "
TXK = dict(unwindset=["strncpy.0:82", "strncpy.1:82"])
srv("C05", "request-none", "m_txreq.h", TXB % (5, 600) + "no transmitter configured", d=dict(TXTYPE=0, NO_TEARDOWN=1, TX_NEVER=1, SPS=5, DEV=600), **TXK)
for t, nm in ((1, "pluto"), (2, "file")):
    for sps, dev in ((5, 600), (1, -5000), (255, 2400)):
        srv("C05", "request-%s-%d" % (nm, sps), "m_txreq.h", TXB % (sps, dev) + "set-up succeeds", d=dict(TXTYPE=t, NO_TEARDOWN=1, SPS=sps, DEV=dev), tier="quick" if (sps == 5 or (t == 2 and sps == 255)) else "thorough", **TXK)
    for k, nn in (("FK_MOD", 0), ("FK_CORR", 0), ("FK_FILE", 0), ("FK_DEV", 0), ("FK_TIMEOUT", 0), ("FK_THREAD", 1), ("FK_ALLOC", 2), ("FK_ALLOC", 3)):
        srv("C05", "failing-%s-%s%s" % (nm, k[3:].lower(), nn or ""), "m_txreq.h", TXB % (5, 600) + "set-up step %s %s fails" % (k[3:], nn or ""),
            d=dict(TXTYPE=t, NO_TEARDOWN=1, FAILK=k, FAILN=nn, SPS=5, DEV=600), tier="quick" if k in ("FK_DEV", "FK_CORR", "FK_FILE", "FK_THREAD") and t == 2 else "thorough", **TXK)
SESSK = dict(VP_INMAX=64, VP_OUTMAX=60, VP_NET_CALLS=60, VP_CUSTOM_recv=1, VP_CUSTOM_unpack=1, VP_CUSTOM_devtx=1, VP_CUSTOM_blocks=1, VP_CUSTOM_fwrite=1)
SESSL = "one %s client, conversation '%s' (letters: see harness/m_session.h), every payload and body byte"
def sess(prop, script, tier="quick", rx=0, corr=0, dump=0, reset=0, ver=1, big=32769, fc=0, fs=0, stop=0, teardown=0, nm=""):
    d = dict(SESSK, SCRIPT='"%s"' % script, RXS=rx, CORR=corr, DUMP=dump, CUTS=0, RESET=reset, VER=ver, BIG=big, FAILCHUNK=fc, FAILSTAGE=fs, STOP=stop)
    if not (stop or teardown):
        d["NO_TEARDOWN"] = 1
    name = "session-%s-%s" % ("rx" if rx else "tx", script.replace("|", "_") or "none")
    for k, v in (("corr", corr), ("dump", dump), ("reset", reset), ("ver", ver - 1), ("big", big - 32769), ("failchunk", fc), ("stage", fs), ("stop", stop), ("end", teardown)):
        if v:
            name += "-%s%s" % (k, v if k not in ("big",) else "")
    extra = "".join(s for c, s in ((corr, ", frequency correction"), (dump, ", dump file"), (reset, ", connection reset at the end"), (fc, ", chunk %d fails in stage %d" % (fc, fs)), (stop, ", server stopped before the session runs"), (teardown, ", then the server stops")) if c)
    srv(prop, name, "m_session.h", SESSL % ("receive" if rx else "transmit", script) + extra, unwind=66, d=d, tier=tier, **TXK)
for s in ("", "s", "h", "tuts", "3u1d5s", "v2dvs", "uUdtUs", "xds", "Lt", "sd", "pt", "d4h", "tt1t", "udvxes"):
    sess("C06", s)
    sess("C06", s, reset=1, tier="quick" if s in ("h", "", "u") else "thorough")
    sess("C06", s, rx=1, tier="quick" if s in ("", "s", "tuts", "v2dvs", "uUdtUs", "d4h") else "thorough")
    sess("C06", s, teardown=1, tier="quick" if s in ("s", "tuts") else "thorough")
    sess("C06", s, teardown=1, rx=1, tier="quick" if s in ("s", "tuts") else "thorough")
for s in ("", "du", "tu"):
    sess("C06", s, stop=1); sess("C06", s, stop=1, rx=1)
sess("C06", "v3dvs", ver=255); sess("C06", "Lt", big=0xFFFFFFFF); sess("C06", "u5v4u3d2d1s", tier="thorough"); sess("C06", "UUtUdvUs", tier="thorough")
for c in (0, 1, 2):
    for dmp in (0, 1, 2):
        sess("C07", "Dd", corr=c, dump=dmp, tier="quick" if c != 2 or dmp == 1 else "thorough")
        sess("C07", "eDDes", corr=c, dump=dmp, tier="thorough")
    for fs in (1, 2, 3):
        for fc in (1, 2, 3):
            if fs != 2 or c:
                sess("C07", "DdD", corr=c, dump=1 if fc == 2 else 0, fc=fc, fs=fs, tier="quick" if c == 0 or fc == 2 else "thorough")
for s in ("e", "xd", "pd"[:1], "L", "ded"):
    sess("C07", s)
sess("C07", "Dd", rx=1)
OWNK = dict(VP_MAX_THREADS=16, VP_INMAX=6, VP_OUTMAX=18, VP_NET_CALLS=30, VP_CUSTOM_recv=1, VP_CUSTOM_unpack=1, VP_THREAD_HOOK="thread_fails")
RXN, TXN = ("sdr-server", "pluto", "file"), ("none", "pluto", "file")
def own(prop, script, rxt=1, txt=1, tier="quick", errno="EMFILE", ver=1, other=9, teardown=0, failk="FK_NONE", failn=0):
    conns = len([c for c in script if c not in "E0123456789"])
    d = dict(OWNK, SCRIPT='"%s"' % script, CONNS=conns, RXTYPE=rxt, TXTYPE=txt, ERRNO=errno, VER=ver, OTHER=other, FAILK=failk, FAILN=failn)
    if not teardown:
        d["NO_TEARDOWN"] = 1
    name = "history-%s-%s-%s" % (script, RXN[rxt], TXN[txt])
    for v, df in ((errno, "EMFILE"), (ver, 1), (other, 9), (failk, "FK_NONE"), (failn, 0)):
        if v != df:
            name += "-%s" % v
    srv(prop, name + ("-stop" if teardown else ""), "m_owner.h", "history '%s' (letters: see harness/m_owner.h), receiver %s, transmitter %s%s%s" %
        (script, RXN[rxt], TXN[txt], ", then the server stops" if teardown else "", ", start step %s fails" % failk[3:] if failk != "FK_NONE" else ""), unwind=20, d=d, tier=tier, **TXK)
for s in ("TT0T", "TRTR1R", "RR0RR", "fTfT1T", "gRgR1gR", "TiTx0T", "RjRy0R", "nTn1T", "TR10TR", "RT01RT", "TT01T"[:3] + "0fT"):
    own("C08", s)
    own("C08", s, rxt=0, txt=2, tier="quick" if s in ("TRTR1R", "RR0RR") else "thorough")
    own("C08", s, rxt=2, txt=2, tier="quick" if s in ("TT0T", "nTn1T") else "thorough")
    own("C08", s, teardown=1, tier="quick" if s in ("TR10TR", "RR0RR") else "thorough")
own("C08", "TRTT0RT1RTR", tier="thorough"); own("C08", "RTRTi10RTgf", tier="thorough")
for s, k in (("puvT", {}), ("bqwR", {}), ("ijxyT", {}), ("ETEp", {}), ("EwbEuT", dict(errno="ECONNABORTED")), ("ERER", dict(errno="EINTR")), ("ET", dict(errno="ENOMEM")), ("EET", dict(errno="ENFILE")), ("ET", dict(errno="EPROTO")), ("ET", dict(errno="ENOBUFS")),
             ("vvT", dict(ver=255)), ("uuT", dict(other=255)), ("uT", dict(other=2)), ("pTpRp", dict(teardown=1)), ("", dict(teardown=1)), ("wT0bR1q", dict(teardown=1)), ("TR", dict(teardown=1, rxt=0, txt=2)), ("RRR1", dict(teardown=1, rxt=0)), ("TnRgp", dict(teardown=1))):
    own("C30", s or "p", **k)
for f, n in (("FK_SOCKET", 0), ("FK_BIND", 0), ("FK_LISTEN", 0), ("FK_PTON", 0), ("FK_REUSE", 0), ("FK_THREAD", 0), ("FK_ALLOC", 1)):
    own("C30", "T", failk=f, failn=n, teardown=1)
for s in ("puvbqwijxyT", "EpEuETETR"):
    own("C30", s, tier="thorough")
for s, t in (("axaxavf", "quick"), ("aafarfav", "quick"), ("aaadad", "quick"), ("aaasaas", "quick"), ("aaaadrs", "quick"), ("xaarxfds", "quick"), ("rdsfv", "quick"), ("aaarrrr", "quick"), ("aaaasadf", "thorough"), ("aaaaadsr", "thorough"), ("aaaaafrda", "thorough"), ("asadarasv", "thorough")):
    H("C13", "registry-" + s, "h_list.c", "linked_list.c", 12, "operations '%s' (letters: see harness/h_list.c), every answer of every predicate" % s, defs=D(SCRIPT='"%s"' % s), tier=t)
MEM = dict(VP_OWN_MEMCPY=1)
CUTTXT = "blocks of %s samples ('0' empty, '+' one longer than the maximum of %d)"
def dsp(prop, name, file, srcs, bound, tier="quick", unwind=26, **kw):
    d = dict(MEM)
    d.update(kw.pop("d", {}))
    H(prop, name, file, srcs, unwind, bound, defs=D(**d), tier=tier, **kw)
for taps, dec, mb, cuts, cx, tier in ((1, 1, 3, "1+23", 0, "quick"), (3, 2, 4, "41023", 0, "quick"), (3, 2, 4, "111114", 1, "quick"), (5, 1, 4, "1+1411", 0, "quick"), (3, 5, 4, "4123+4", 1, "quick"), (2, 7, 3, "12313", 0, "quick"), (2, 4, 2, "1112121", 1, "quick"),
                                      (9, 3, 5, "41523", 1, "quick"), (9, 1, 2, "121212", 0, "quick"), (4, 255, 3, "313", 0, "quick"), (1, 3, 2, "2112", 1, "quick"),
                                      (11, 2, 6, "6150634", 0, "thorough"), (11, 4, 6, "1161254", 1, "thorough"), (7, 9, 6, "66546", 0, "thorough"), (6, 6, 6, "152436", 1, "thorough"), (5, 3, 8, "8718", 0, "thorough"), (11, 1, 8, "3811", 1, "thorough")):
    dsp("C14", "fir-%d-%d-%s-%s" % (taps, dec, cuts, "complex" if cx else "real"), "h_fir.c", "dsp/fir_filter.c", "%d taps, decimation %d, %s samples, " % (taps, dec, "complex" if cx else "real") + CUTTXT % (cuts, mb) + ", every sample 0..3",
        tier=tier, d=dict(TAPS=taps, DEC=dec, MAXB=mb, CPLX=cx, CUTS='"%s"' % cuts))
for taps, dec, mb, cuts, cx in ((3, 2, 3, "1+23", 0), (5, 3, 3, "3213", 1)):
    dsp("C14", "lpf-%d-%d-%s" % (taps, dec, cuts), "h_fir.c", "dsp/fir_filter.c dsp/lpf.c", "low-pass wrapper, %d taps, decimation %d, " % (taps, dec) + CUTTXT % (cuts, mb) + ", every sample 0..3",
        d=dict(TAPS=taps, DEC=dec, MAXB=mb, CPLX=cx, CUTS='"%s"' % cuts, LPF=1))
for taps, it, mb, cuts, tier in ((5, 3, 3, "2130", "quick"), (4, 1, 3, "2+13", "quick"), (1, 2, 3, "21", "quick"), (6, 3, 2, "1221", "quick"), (7, 2, 3, "1+3112", "quick"), (3, 5, 3, "312", "quick"), (2, 0, 3, "1", "quick"),
                                 (11, 4, 3, "1313", "thorough"), (10, 2, 4, "4134", "thorough"), (11, 1, 5, "5135", "thorough"), (9, 7, 2, "212", "thorough")):
    dsp("C15", "interp-%d-%d-%s" % (taps, it, cuts), "h_interp.c", "dsp/fir_filter.c dsp/interp_fir_filter.c", "%d taps, interpolation %d, " % (taps, it) + CUTTXT % (cuts, mb) + ", every sample 0..3",
        tier=tier, d=dict(TAPS=taps, INTERP=it, MAXB=mb, CUTS='"%s"' % cuts))
for g, mb, cuts, tier in (("2.0f", 3, "2130", "quick"), ("-3.0f", 3, "1+321", "quick"), ("0.5f", 4, "4114", "quick"), ("7.0f", 1, "11111", "quick"), ("-1.0f", 6, "6+45", "thorough")):
    dsp("C17", "quad-%s-%s" % (g, cuts), "h_quad.c", "dsp/quadrature_demod.c", "gain %s, " % g + CUTTXT % (cuts, mb) + ", every sample with parts -2..1", tier=tier, d=dict(GAIN=g, MAXB=mb, CUTS='"%s"' % cuts))
for ln, n, hi, cuts, tier in ((0, 1, 1, "0", "quick"), (1, 1, 1, "0", "quick"), (-3, 1, 1, "0", "quick"), (2, 5, 1, "2120", "quick"), (3, 7, 1, "313", "quick"), (4, 9, 1, "54", "quick"), (5, 9, 1, "1341", "thorough"), (4, 9, 1, "111111111", "quick"),
                              (2, 6, 3, "213", "thorough"), (3, 9, 3, "36", "thorough"), (6, 12, 1, "5151", "thorough"), (7, 13, 1, "85", "thorough")):
    dsp("C18", "dc-%d-%s-%d" % (ln, cuts, hi), "h_dc.c", "dsp/dc_blocker.c", "length %d, blocks of %s samples, every sample 0..%d times length^4" % (ln, cuts, hi), tier=tier, d=dict(LEN=ln, MAXN=n, HIGH=hi, CUTS='"%s"' % cuts))
FRN = {"nd_i8()": "i8", "(int16_t)nd_u16()": "i16", "nd_i32()": "i32", "nd_i64()": "i64"}
for rate, amp, fr, mb, cuts, tier in ((64, "1.0f", "nd_i8()", 2, "2", "quick"), (16, "2.0f", "nd_i8()", 2, "1+1", "quick"), (48000, "1.0f", "nd_i8()", 2, "20", "quick"), (48000, "1.0f", "(int16_t)nd_u16()", 2, "20", "thorough"), (48000, "1.0f", "nd_i32()", 2, "20", "thorough"), (1, "1.0f", "nd_i8()", 2, "101", "quick"), (64, "1.0f", "nd_i8()", 2, "12", "thorough"), (96000, "1.0f", "nd_i64()", 2, "11", "thorough")):
    dsp("C21", "mixer-%d-%s-%s" % (rate, FRN[fr], cuts), "h_osc.c", "dsp/sig_source.c dsp/frequency_modulator.c", "rate %d, every %s frequency per block, " % (rate, FRN[fr]) + CUTTXT % (cuts, mb), tier=tier, cost=3,
        flags=["--sat-solver", "cadical"] if tier == "thorough" else [], d=dict(RATE=rate, AMP=amp, FREQ=fr, MAXB=mb, CUTS='"%s"' % cuts))
for sens, wide, mb, cuts, tier in (("1.0f", 0, 2, "1+1", "quick"), ("0.75f", 0, 2, "20", "quick"), ("-4.0f", 0, 2, "2", "quick"), ("1.0f", 1, 2, "2", "quick"), ("0.5f", 0, 2, "12", "thorough"), ("1.0f", 1, 2, "21", "thorough"), ("0.3f", 1, 1, "1", "thorough")):
    d = dict(FM=1, SENS=sens, MAXB=mb, CUTS='"%s"' % cuts)
    if wide:
        d["WIDE"] = 1
    dsp("C21", "modulator-%s-%s-%s" % (sens, cuts, "wide" if wide else "grid"), "h_osc.c", "dsp/sig_source.c dsp/frequency_modulator.c", "sensitivity %s, inputs %s, " % (sens, "any float up to 1e12" if wide else "any 16-bit integer / 16") + CUTTXT % (cuts, mb), tier=tier, cost=3, d=d)
for sps, mb, cuts, tier in (("1.0f", 2, "120", "quick"), ("2.5f", 2, "1+2", "quick"), ("5.9f", 1, "11", "quick"), ("4.0f", 3, "2+31", "thorough"), ("10.0f", 2, "21", "thorough")):
    dsp("C19", "bits-%s-%s" % (sps, cuts), "h_gfsk.c", "dsp/gfsk_mod.c", "%s samples per symbol, " % sps + "payloads of %s bytes ('+': longer than the maximum of %d), every byte value" % (cuts, mb), tier=tier, unwind=170, d=dict(SPS=sps, MAXB=mb, CUTS='"%s"' % cuts))
dsp("C19", "bits-31", "h_gfsk.c", "dsp/gfsk_mod.c", "31.5 samples per symbol, one byte of every value", tier="thorough", unwind=260, d=dict(SPS="31.5f", MAXB=1, CUTS='"1"'))
dsp("C19", "refused-symbol-length", "h_gfsk.c", "dsp/gfsk_mod.c", "every symbol length outside [1,256) including infinities and NaN, every buffer length", d=dict(REFUSE=1))
dsp("C19", "refused-buffer", "h_gfsk.c", "dsp/gfsk_mod.c", "every symbol length in [1,256) with every buffer whose output does not fit 32 bits", d=dict(REFUSE=2))
for rate, mb, dr, off, start, deep, cuts, tier in ((4, 5, 1, 0, 1583840449, 0, "35", "quick"), (4, 5, -1, -77, 0, 1, "5+25", "quick"), (3, 8, 1, 1000, 0, 0, "8", "quick"), (1, 3, -1, 0, 1583840449, 0, "311", "quick"), (5, 4, 1, 12, 1583840449, 1, "4142", "quick"), (2, 2, -1, 3, 1583840449, 0, "2022", "quick"), (8, 3, 1, 0, 0, 0, "3333", "quick"),
                                                 (4, 9, -1, 5, 1583840449, 1, "3911", "thorough"), (7, 9, 1, -900, 0, 0, "7592", "thorough"), (3, 4, 1, 1, 1583840449, 0, "1234321", "thorough")):
    dsp("C20", "doppler-%d-%s-%s%s" % (rate, cuts, "rx" if dr > 0 else "tx", "-now" if start == 0 else ""), "h_doppler.c", "dsp/doppler.c", "%d samples per second, offset %d, %s, %s start, " % (rate, off, "receive" if dr > 0 else "transmit", "immediate" if start == 0 else "given") + CUTTXT % (cuts, mb) + ", every range rate of -0.5..0.25 km/s in steps of 0.25 per second",
        tier=tier, unwind=60, d=dict(RATE=rate, MAXB=mb, DIR=dr, OFFSET=off, START=start, DEEP=deep, CUTS='"%s"' % cuts))
for om, lim, mb, cuts, tier in (("1.0f", "0.01f", 4, "44", "quick"), ("1.7f", "0.5f", 4, "424", "quick"), ("3.2f", "0.01f", 5, "5+25", "quick"), ("1.0f", "0.9f", 3, "3330", "quick"), ("9.5f", "0.01f", 3, "3333", "quick"), ("2.0f", "0.0f", 1, "111111111", "quick"), ("13.0f", "0.25f", 4, "4444", "thorough"),
                                ("2.5f", "0.5f", 4, "444", "thorough"), ("1.3f", "0.99f", 6, "661", "thorough"), ("4.0f", "0.01f", 9, "919", "thorough")):
    dsp("C16", "clock-%s-%s-%s" % (om, lim, cuts), "h_clock.c", "dsp/clock_recovery_mm.c", "%s samples per symbol, limit %s, every interpolated value and loop gain including infinities and NaN, " % (om, lim) + CUTTXT % (cuts, mb), tier=tier, d=dict(OMEGA=om, LIMIT=lim, MAXB=mb, CUTS='"%s"' % cuts))
dsp("C16", "refused", "h_clock.c", "dsp/clock_recovery_mm.c", "every samples per symbol, offset and limit outside their ranges including infinities and NaN", d=dict(REFUSE=1))
dsp("C16", "interp-choice", "h_mmse.c", "dsp/mmse_fir_interpolator.c", "every position between two samples, all 129 filters", unwind=132, flags=["--max-field-sensitivity-array-size", "1100"], cost=5, d=dict(MODE=0))
for off, al, tier in ((0, 8, "quick"), (1, 16, "quick"), (2, 32, "quick"), (5, 32, "quick"), (3, 16, "thorough"), (7, 32, "thorough"), (4, 64, "thorough")):
    dsp("C16", "interp-window-%d-%d" % (off, al), "h_mmse.c", "dsp/fir_filter.c", "window %d samples into its buffer, alignment %d, every sample 0..3" % (off, al), tier=tier, d=dict(MODE=1, OFF=off, VP_ALIGN=al))
def fsrc(name, ops, rx=1, tx=0, flen=5, mb=2, off=0, tier="quick", **k):
    d = dict(RX=rx, TX=tx, FLEN=flen, MAXB=mb, OFFSET=off, OPS='"%s"' % ops, **k)
    dsp("C26", name, "h_file.c", "sdr/file_source.c", "operations '%s' (letters: see harness/h_file.c), recording of %d samples of every 16-bit value, blocks of %d, offset %d%s" % (ops, flen, mb, off, "".join(", %s=%s" % x for x in k.items())), tier=tier, unwind=20, cf=True, d=d)
for ops, rx, tx, flen, mb, off, tier in (("rrrrr", 1, 0, 5, 2, 0, "quick"), ("rrr", 1, 0, 4, 2, -77, "quick"), ("rr", 1, 0, 0, 3, 5, "quick"), ("rsrr", 1, 0, 3, 2, 0, "quick"), ("r2+3rr0s", 1, 1, 4, 3, -3000000000, "quick"), ("12+21", 0, 1, 0, 2, 0, "quick"), ("1r2+1", 0, 1, 0, 2, 9, "quick"), ("2r", 1, 0, 1, 3, 0, "quick"), ("rrrrrr", 1, 0, 5, 1, 1, "quick"),
                                        ("rrrrrr", 1, 0, 9, 4, 0, "thorough"), ("rrrrrrr", 1, 0, 12, 5, 123, "thorough"), ("4r3r2r1r+rr", 1, 1, 11, 4, -8, "thorough")):
    fsrc("stream-%s-%d-%d-%d" % (ops, flen, mb, off), ops, rx, tx, flen, mb, off, tier)
fsrc("read-error", "rrr", ERRAT=3, flen=6); fsrc("read-error-first", "r", ERRAT=0, off=3)
for k in (1, 2, 3):
    fsrc("create-fails-%d" % k, "", rx=1, tx=1, off=3, FAILK=k)
    for n in (1, 2, 3):
        if k == 1: fsrc("create-no-memory-%d" % n, "", rx=1, tx=1, off=3, FAILN=n)
def up(name, bound, tier="quick", **d):
    dsp("C27", name, "h_client.c", "sdr/sdr_server_client.c tcp_utils.c", bound, tier=tier, unwind=60, cf=True, d=d)
for cuts, tier in (("7", "quick"), ("1i15", "quick"), ("25", "quick"), ("3i4", "thorough"), ("1111111", "thorough")):
    up("request-" + cuts, "every frequency, rate, offset, port and answer content; the answer arrives in pieces %s (i: interrupted)" % cuts, tier, MODE=0, CUTS='"%s"' % cuts)
for cuts in ("", "1e", "2x", "6", "2t", "6ti"):
    up("answer-cut-" + (cuts or "none"), "every frequency, rate, offset and answer content; the connection ends after pieces '%s'" % cuts, MODE=0, CUTS='"%s"' % cuts, SHORT=1)
for k, n in ((1, 0), (2, 0), (3, 0), (4, 0), (0, 1), (0, 2), (0, 3), (0, 4), (0, 5), (0, 6)):
    up("create-fails-%d-%d" % (k, n), "%s fails" % ("step %d" % k if k else "allocation %d" % n), MODE=0, FAILK=k, FAILN=n)
for cuts, mb, reads, tier in (("7G", 1, 4, "quick"), ("7888", 2, 4, "quick"), ("735t8t1", 1, 6, "quick"), ("7t3t4t1t", 1, 8, "quick"), ("71111i1111111x", 1, 5, "quick"), ("89Be", 3, 5, "quick"), ("7P", 2, 6, "quick"), ("7tt", 1, 4, "quick"), ("7", 2, 2, "quick"), ("7Ft1", 2, 6, "quick"), ("75t7t9t8", 2, 8, "quick"),
                        ("7Z", 4, 6, "thorough"), ("7t1t1t1t1t1t1t1t1t", 1, 14, "thorough"), ("73t9tFt3te", 2, 10, "thorough"), ("71i2t3i4t5i6t7", 2, 10, "thorough")):
    up("stream-%s-%d" % (cuts, mb), "blocks of %d samples, stream of every content arriving as '%s' (digits: that many bytes, t: timeout, i: interrupted, e: end, x: reset)" % (mb, cuts), tier, MODE=1, MAXB=mb, READS=reads, CUTS='"%s"' % cuts)
PF = ["--paths", "lifo"]
FS300 = ["--max-field-sensitivity-array-size", "300"]
def pluto(prop, name, bound, tier="quick", paths=False, **d):
    d.setdefault("FAILZERO", 0)
    if paths: d["VP_COUNT_FREE"] = 1
    dsp(prop, name, "h_pluto.c", "sdr/plutosdr.c", bound, tier=tier, unwind=135, cf=True, flags=FS300 + (PF if paths else []), d=d)
for s, mb, fp, tier in (("3", 4, 0, "quick"), ("509", 4, 0, "quick"), ("21", 1, 0, "quick"), ("36", 3, 0, "quick"), ("7", 5, 3, "quick"), ("24", 2, 4, "quick"), ("4", 8, 1, "quick"), ("9971", 6, 0, "thorough"), ("135", 2, 0, "thorough")):
    pluto("C28", "transmit-%s-%d%s" % (s, mb, "-push%d" % fp if fp else ""), "blocks of %s samples of every 16-bit value over 16384, radio buffer of %d samples%s" % (s, mb, ", push %d fails" % fp if fp else ""), tier, TXS='"%s"' % s, MAXB=mb, FAILPUSH=fp, TLO=2400000, THI=2400000)
for s, mb, tier in (("4", 4, "quick"), ("12+04", 4, "quick"), ("h", 2, "quick"), ("f2", 3, "quick"), ("3s2", 3, "quick"), ("+1", 1, "quick"), ("4h31f2+s4", 4, "thorough"), ("9999", 9, "thorough")):
    pluto("C28", "receive-%s-%d" % (s, mb), "transfers '%s' (letters: see harness/h_pluto.c) of every 16-bit value, blocks of %d" % (s, mb), tier, RXS='"%s"' % s, MAXB=mb)

# C29: creation and destruction of the radio device
for s in ("T1", "R1", "B1", "TR21", "TR12", "RT12", "B1T2"):
    pluto("C29", "setup-%s" % s, "devices '%s' (letters: see harness/h_pluto.c), every frequency, gain and offset" % s, SETUP='"%s"' % s, RLO=2400000, RHI=2400000, TLO=2400000, THI=2400000)
for i, (lo, hi) in enumerate(((1, 520833), (520834, 1041666), (1041667, 2083333), (2083334, 1 << 40))):
    ex = dict(NOSUCCESS=1) if i == 0 else {}
    for k in "TR":
        d = dict(RLO=lo, RHI=hi, TLO=lo, THI=hi, ONECLASS=1)
        pluto("C29", "rate-%s-%d" % (k, i), "every %s rate in [%d, %d]" % (k, lo, hi), paths=True, SETUP='"%s%s"' % (k, "" if ex else "1"), **dict(d, **ex))
for i, (r, t) in enumerate((((520834, 1041666), (520834, 1041666)), ((520834, 1041666), (2083334, 1 << 40)), ((1041667, 2083333), (1041667, 2083333)), ((2083334, 1 << 40), (1041667, 2083333)), ((520833, 520833), (2400000, 2400000)), ((2400000, 2400000), (1, 520833)))):
    ex = dict(NOSUCCESS=1) if i >= 4 else {}
    pluto("C29", "rates-%d" % i, "receive rates in %s, transmit rates in %s" % (r, t), SETUP='"%s"' % ("B" if ex else "B1"), RLO=r[0], RHI=r[1], TLO=t[0], THI=t[1], ONECLASS=1, paths=True, tier="thorough" if i in (1, 2) else "quick", **ex)
for g in (1, 2, 3, 4):
    ex = dict(NOSUCCESS=1) if g == 4 else {}
    pluto("C29", "gain-%d" % g, "gain mode %d" % g, SETUP='"%s"' % ("B" if ex else "B1"), RLO=2400000, RHI=2400000, TLO=2400000, THI=2400000, GMODE=g, **ex)
pluto("C29", "rx-only", "receive-only radio", SETUP='"R1"', RXONLY=1)
for script, kind, rate, ro in (("F", "B", 2400000, 0), ("F", "T", 600000, 0), ("F", "R", 1200000, 1), ("TF1", "R", 2400000, 0), ("RF1", "T", 2400000, 0), ("F", "B", 600000, 0), ("TF1", "R", 600000, 1)):
    pluto("C29", "failcall-%s-%s-%d" % (script, kind, rate), "devices '%s', any one library call of the %s setup fails" % (script, kind), paths=True, tier="thorough" if script == "TF1" and rate == 600000 else "quick", SETUP='"%s"' % script, KIND="'%s'" % kind, FAILAT=-1, RLO=rate, RHI=rate, TLO=rate, THI=rate, RXONLY=ro)
for script, kind, n, rate in (("F", "B", 1, 600000), ("F", "B", 2, 600000), ("F", "B", 3, 600000), ("F", "B", 4, 600000), ("F", "R", 2, 2400000), ("F", "T", 2, 2400000), ("TF1", "R", 2, 2400000)):
    pluto("C29", "failalloc-%s-%s-%d-%d" % (script, kind, n, rate), "devices '%s', allocation %d of the %s setup fails" % (script, n, kind), SETUP='"%s"' % script, KIND="'%s'" % kind, FAILN=n, RLO=rate, RHI=rate, TLO=rate, THI=rate, **({} if "TF" in script else dict(NOSUCCESS=1)))
pluto("C29", "noradio", "no radio found", SETUP='"F"', FAILAT=2, FAILZERO=1, NOSUCCESS=1)

# C32: loading the radio library
dsp("C32", "load", "h_iio.c", "sdr/iio_lib.c", "every subset of the 25 functions missing, library missing or not, every allocation failing", unwind=45)

# C09: the shared receiver
for s, tier in (("ARddpt", "quick"), ("ARdBdakdbd", "quick"), ("ABRdatdpbdd", "quick"), ("ABCRdbdcdad", "quick"), ("ABRdeCkacb", "quick"), ("AkRtdxdBeb", "quick"), ("yARdzd", "quick"), ("y", "quick"), ("Aad", "quick"), ("ABReab", "quick"), ("ARpBpaCpdbtcpd", "quick"),
                ("ABCRdaBk", "thorough"), ("ARdBdCdapbpxdcdd", "thorough"), ("ABCRddttppabed", "thorough"), ("yARdBxtdCapzkbedc", "thorough")):
    dsp("C09", "shared-%s" % s, "h_sdrw.c", "sdr_worker.c linked_list.c", "history '%s' (letters: see harness/h_sdrw.c), every setting, block length and error code" % s, tier=tier, d=dict(SCRIPT='"%s"' % s), unwind=24)
for s, tier in (("AR???", "quick"), ("ABR??", "quick"), ("A?R??", "quick"),("ABCR????", "thorough"), ("AR????", "thorough")):
    dsp("C09", "events-%s" % s.replace("?", "n"), "h_sdrw.c", "sdr_worker.c linked_list.c", "history '%s', every event at each '?' (see harness/h_sdrw.c)" % s, tier=tier, d=dict(SCRIPT='"%s"' % s, SIMPLE=1, VP_COUNT_FREE=1), unwind=24, flags=PF)

# C11/C12: one receive client
def dspw(prop, script, bound, tier="quick", nm="", flags=PF, **d):
    d = dict(dict(SCRIPT='"%s"' % script, RXTYPE=0, FAILAT=0), **d)
    if flags: d["VP_COUNT_FREE"] = 1
    dsp(prop, "client-%s%s" % (script.replace(">", "r") or "none", nm), "h_dspw.c", "dsp_worker.c queue.c", bound + ", history '%s' (letters: see harness/h_dspw.c)" % script, tier=tier, d=d, unwind=100, flags=flags)
for s, tier in (("p>D", "quick"), ("pp>D", "quick"), ("p>psD", "thorough"), ("ppp>D", "thorough")):
    dspw("C12", s, "every combination of dump, correction, demodulator and destination, every kind of demodulator output, no failure", tier)
dspw("C12", "p>D", "every combination, every kind of demodulator output, any output operation fails", nm="-fail", FAILAT=-1)
for s, rx, qs, tier in (("ppp>D", 2, 1, "quick"), ("p>ppD", 2, 1, "quick"), ("pp>psD", 2, 2, "quick"), ("p>ppD", 0, 1, "quick"), ("s>D", 0, 1, "quick"), ("ps>pD", 2, 1, "quick"), (">pspD", 0, 2, "quick"), ("pspD", 2, 2, "quick"), ("D", 2, 1, "quick"), ("ppp>ppD", 2, 2, "thorough"), ("pp>ppspD", 0, 3, "thorough")):
    dspw("C11", s, "every kind of demodulator output, any output operation fails, %s queue of %d" % ("blocking" if rx == 2 else "dropping", qs), tier, nm="-%d-%d" % (rx, qs), FAILAT=-1, RXTYPE=rx, QS=qs, DEST=2, DUMP=1, DOPP=0, DEMOD=1)
dspw("C11", "p>D", "every combination of outputs, any one creation step fails", nm="-create", CREATEFAIL=1)
for n in (1, 2, 3, 4):
    dspw("C11", "", "allocation %d of the creation fails" % n, nm="-alloc%d" % n, flags=[], CREATEFAIL=1, FAILN=n, QS=1, DEST=2, DUMP=1, DOPP=1, DEMOD=1)

# C34: the demodulation chain
def demod(name, bound, tier="quick", flags=None, **d):
    d = dict(dict(FS=48000, BAUD=4800, DEV=5000, DEC=2, DC=1, BLOCKS='"842310888000531"'), **d)
    if flags: d["VP_COUNT_FREE"] = 1
    dsp("C34", name, "h_demod.c", "dsp/fsk_demod.c", bound, tier=tier, unwind=26, d=d, flags=flags or [])
for i, (fs, baud, dev, dec, dc) in enumerate(((48000, 4800, 5000, 2, 1), (48000, 9600, -3000, 1, 0), (50000, 1200, 600, 3, 1), (240000, 4801, 2401, 25, 0), (1000000, 1000, -12345, 255, 1), (48000, 4800, 5000, 1, 0), (192000, 19200, -10000, 4, 1))):
    demod("chain-%d" % i, "rate %d, symbol rate %d, deviation %d, decimation %d, %s mean removal, every transition width, block limit 8..4096 and symbol value k/32" % (fs, baud, dev, dec, "with" if dc else "without"), FS=fs, BAUD=baud, DEV="(%d)" % dev, DEC=dec, DC=dc)
for dc in (0, 1):
    demod("create-%d" % dc, "any one stage cannot be made", flags=PF, CREATE=1, DC=dc, BLOCKS='""')
    for n in (1, 2):
        demod("alloc-%d-%d" % (dc, n), "allocation %d fails" % n, CREATE=1, DC=dc, FAILN=n)

# C33: filter design
def taps(name, bound, tier="quick", srcs="dsp/lpf_taps.c dsp/gaussian_taps.c", unwind=20, flags=None, **d):
    d = dict(dict(FAILN=0, GAIN="1.0f"), **d)
    if flags == PF: d["VP_COUNT_FREE"] = 1
    dsp("C33", name, "h_taps.c", srcs, bound, tier=tier, unwind=unwind, d=d, flags=flags or [])
taps("refuse", "every impossible rate and cutoff below 2^12 and every width", REFUSE=1, BITS=12, unwind=2, flags=["--slice-formula"])
taps("refuse-52", "every impossible rate and cutoff below 2^52 and every width", "thorough", REFUSE=1, BITS=52, unwind=2, flags=["--slice-formula"])
for w, n, bits, tier in ((4, 3, 5, "quick"), (1000, 3, 12, "quick"), (13000, 5, 16, "thorough")):
    taps("size-%d-%d" % (w, n), "every possible rate and cutoff below 2^%d with at most %d taps, width %d" % (bits, n, w), tier, SIZE=n, BITS=bits, WID=w, unwind=8, flags=["--slice-formula"])
for fs, cut, tw, nt, tier in ((48000, 4800, 40000, 3, "quick"), (48000, 12000, 30000, 3, "quick"), (48000, 9600, 26000, 5, "quick"), (1000, 500, 2900, 1, "quick"), (48000, 4800, 15000, 7, "quick"), (48000, 5000, 8000, 15, "thorough")):
    taps("lpf-%d" % nt + "-%d" % cut, "rate %d, cutoff %d, width %d, every combination of two values of the trigonometric functions" % (fs, cut, tw), tier, flags=PF, FS=fs, CUT=cut, TW=tw, NT=nt, SYMV=1)
taps("lpf-gain", "rate 48000, cutoff 9600, width 26000, gain 4, every combination of two values of the trigonometric functions", flags=PF, FS=48000, CUT=9600, TW=26000, NT=5, SYMV=1, GAIN="4.0f")
for n in (1, 2):
    taps("lpf-alloc%d" % n, "allocation %d fails" % n, FS=48000, CUT=4800, TW=40000, NT=3, FAILN=n)
for n, sps, bt, g, tier in ((2, 1, 0.5, 1, "quick"), (4, 2, 0.5, 1, "quick"), (5, 3, 0.3, 2, "quick"), (12, 3, 0.5, 1.5, "quick")):
    taps("gauss-%d" % n, "%d taps, %d samples per symbol, bt %s, gain %s, every combination of two values of the exponential" % (n, sps, bt, g), tier, flags=PF, GAUSS=n, SPS="%d.0" % sps, BT=bt, GAIN="%.1ff" % g, SYMV=1)
taps("gauss-alloc", "the allocation fails", GAUSS=4, SPS="2.0", BT=0.5, FAILN=1)

# C25: the configuration file
CFGN = "buffer_size port read_timeout_seconds queue_size rx_sdr_server_port tx_plutosdr_timeout_millis tx_plutosdr_gain rx_plutosdr_gain bind_address base_path rx_sdr_server_address rx_file_base_path tx_file_base_path rx_sdr_type tx_sdr_type".split()
def cfg(name, names, tier="quick", failn=0, slen=11):
    mask = sum(1 << CFGN.index(n) for n in names)
    H("C25", name, "h_cfg.c", "server_config.c", 30, "%s absent or of any type with any value (strings up to 3 bytes, device types out of 8 names), the others absent, file readable or not, radio library usable or not, temporary folder set or not%s" % (", ".join(names) if len(names) < 15 else "every setting", ", allocation %d fails" % failn if failn else ""), defs=D(MASK=mask, SLEN=slen, FAILN=failn), tier=tier)
cfg("all", CFGN, "thorough")
cfg("numbers", CFGN[:8] + ["rx_sdr_type"])
cfg("names", CFGN[8:])
for n in range(1, 8):
    cfg("alloc%d" % n, ["rx_sdr_type", "tx_sdr_type", "bind_address"], failn=n)

# C23: orbit elements
def tle(name, bound, tier="quick", unwind=90, flags=None, checks=None, **d):
    if flags: d["VP_COUNT_FREE"] = 1
    kw = dict(checks=checks, timeout=600) if checks else {}
    H("C23", name, "h_tle.c", "api_utils.c tcp_utils.c" if "COPY" in d else "sgpsdp/sgp_in.c", unwind, bound, defs=D(**d), tier=tier, flags=flags or [], **kw)
tle("raw-1", "every content of the first line", RAW=1)
tle("raw-2", "every content of the second line", RAW=2)
tle("raw-both", "every content of both lines", "thorough", RAW=3)
tle("name", "every content of the name line", NAME=1)
for n in (0, 79, 80, 84):
    tle("copy-%d" % n, "every content of three strings of %d bytes" % n, COPY=n)
for base, every, tier in ((0, 0, "quick"), (1, 0, "thorough"), (0, 1, "thorough")):
    for a, b in ((2, 11), (16, 24), (25, 31), (33, 42), (44, 51), (53, 67), (71, 83), (86, 94), (95, 103), (104, 116), (117, 126), (127, 136)):
        tle("field-%d%d-%d" % (base, every, a), "a right set (base %d) in which any one of the columns %d..%d of its 138 has %s digit, blank or sign it may have" % (base, a, b, "any" if every else "one of two other"), tier, flags=PF + FS300, checks=["--div-by-zero-check"], BASE=base, COL0=a, COL1=b, EVERY=every)

# C31: any block that cannot be created
def alloc(name, block, srcs, maxfail, what="", tier="quick", unwind=14, **d):
    d = dict(dict(VP_OWN_MEMCPY=1, VP_COUNT_FREE=1, BLOCK=block, MAXFAIL=maxfail), **d)
    H("C31", name, "h_alloc.c", srcs, unwind, "%sany one of the first %d allocations fails, or none" % (what, maxfail), defs=D(**d), tier=tier, flags=PF + (["--max-field-sensitivity-array-size", "1100"] if block == 7 else FS300), unwindset=["pick.0:40"] + ([] if block == 7 else ["vp_track_del.0:62"]))
FIR = "dsp/fir_filter.c"
for nm, b, srcs, n in (("fir-real", 1, FIR, 8), ("fir-complex", 2, FIR, 8), ("lpf", 3, FIR + " dsp/lpf.c dsp/lpf_taps.c", 12), ("interp", 4, FIR + " dsp/interp_fir_filter.c", 24),
                       ("gfsk", 5, FIR + " dsp/interp_fir_filter.c dsp/gfsk_mod.c dsp/gaussian_taps.c dsp/frequency_modulator.c dsp/sig_source.c", 32), ("clock", 6, "dsp/clock_recovery_mm.c", 5), ("dc", 8, "dsp/dc_blocker.c", 20),
                       ("quad", 9, "dsp/quadrature_demod.c", 6), ("mixer", 10, "dsp/sig_source.c", 5), ("fm", 11, "dsp/frequency_modulator.c dsp/sig_source.c", 6), ("doppler", 12, "dsp/doppler.c dsp/sig_source.c", 9), ("queue", 13, "queue.c", 9)):
    alloc(nm, b, srcs, n)
for nm, b, srcs, bads in (("fir", 1, FIR, 3), ("lpf", 3, FIR + " dsp/lpf.c dsp/lpf_taps.c", 1), ("interp", 4, FIR + " dsp/interp_fir_filter.c", 1), ("gfsk", 5, FIR + " dsp/interp_fir_filter.c dsp/gfsk_mod.c dsp/gaussian_taps.c dsp/frequency_modulator.c dsp/sig_source.c", 3),
                          ("clock", 6, "dsp/clock_recovery_mm.c", 1), ("dc", 8, "dsp/dc_blocker.c", 1), ("doppler", 12, "dsp/doppler.c dsp/sig_source.c", 2), ("queue", 13, "queue.c", 2)):
    for bad in range(1, bads + 1):
        alloc("%s-refused-%d" % (nm, bad), b, srcs, 2, "impossible setting %d; " % bad, BAD=bad)
for lo, hi, t in ((0, 3, "quick"), (64, 64, "quick"), (129, 134, "quick"), (195, 195, "quick"), (258, 259, "quick"), (4, 34, "thorough"), (100, 128, "thorough"), (135, 165, "thorough"), (228, 257, "thorough")):
    alloc("interpolator-%d" % lo, 7, "dsp/mmse_fir_interpolator.c", hi, "any one of the 129 filters cannot be made (steps %d to %d); " % (lo, hi), t, unwind=264, FAILLO=lo)
for h in [h for h in HARNESSES if h["prop"] == "C34" and "CREATE" in h["defs"]]:
    HARNESSES.append(dict(h, prop="C31", name="demod-" + h["name"]))

# C24: calendar
def cal(name, mode, bound, tier="quick", unwind=14, flags=None, **d):
    if flags: d["VP_COUNT_FREE"] = 1
    H("C24", name, "h_time.c", "sgpsdp/sgp_time.c sgpsdp/sgp_math.c", unwind, bound, defs=D(MODE=mode, **d), tier=tier, flags=flags or [])
cal("day-of-year", 0, "every date of 1901..2199", YLO=1901, YHI=2199)
cal("year", 1, "every year 1583..4000", YLO=1583, YHI=4000)
for h in (0, 7, 12, 23):
    cal("fraction-%d" % h, 2, "every minute and second of hour %d" % h, HLO=h, HHI=h, tier="quick" if h in (0, 23) else "thorough")
cal("fraction", 2, "every hour, minute and second", "thorough", HLO=0, HHI=23)
cal("date", 3, "every date of 1957..2056 at midnight, 6, 12 and 18 hours", YLO=1957, YHI=2056, HSTEP=6)
cal("date-and-hour", 3, "every date and hour of 1901..2199", "thorough", YLO=1901, YHI=2199, HSTEP=1)
for lo, hi in ((0, 1), (55, 58), (98, 99)):
    cal("epoch-%d" % lo, 4, "epoch years %d to %d, every day and every 2^-3 of a day" % (lo, hi), YLO=lo, YHI=hi, FBITS=3, flags=PF)
for lo in range(0, 100, 20):
    cal("epoch-all-%d" % lo, 4, "epoch years %d to %d, every day and every 2^-8 of a day" % (lo, lo + 19), "thorough", YLO=lo, YHI=lo + 19, FBITS=8, flags=PF, unwind=24)
cal("now", 6, "every broken-down time")
cal("calendar-date", 7, "every date of 2000..2028", YLO=2000, YHI=2028)
cal("calendar-date-all", 7, "every date of 1950..2056", "thorough", YLO=1950, YHI=2056)
for h in (0, 5, 13, 23):
    cal("clock-%d" % h, 8, "every minute and second of hour %d of one date" % h, YLO=2020, YHI=2020, HLO=h, HHI=h, tier="quick" if h in (5, 23) else "thorough")

# C22: fast arctangent
def atan(name, mode, bound, tier="quick", flags=None, **d):
    if flags: d["VP_COUNT_FREE"] = 1
    H("C22", name, "h_atan.c", "math/fast_atan2f.c", 40, bound, defs=D(MODE=mode, **d), tier=tier, flags=(flags or []) + FS300)
atan("range", 0, "every pair of floats with 4 fraction bits, including denormals, infinities and NaN", MANT=4)
for o in range(0, 8):
    for lo in range(0, 4096, 256):
        lo2, hi = (lo if lo or not o else 1), (lo + 255 if lo < 3840 else 4096)
        atan("octant%d-%d" % (o, lo), 1, "octant %d: ratios %d/4096 to %d/4096" % (o, lo2, hi), MLO=lo2, MHI=hi, BITS=12, TOL=8600, OCT=o)
    for lo in range(0, 16384, 512):
        atan("octant%d-fine-%d" % (o, lo), 1, "octant %d: ratios %d/16384 to %d/16384" % (o, max(lo, 1), lo + 511), tier="thorough", MLO=max(lo, 1), MHI=lo + 511, BITS=14, TOL=8600, OCT=o)
for s in ("1.0f", "1e-30f", "3e30f"):
    atan("ratio-%s" % s, 3, "whole numbers up to 15 times %s" % s, LIM=15, SCALE=s)
