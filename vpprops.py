PROPS = []
NOT_APPLICABLE = {}
LEVEL_NOTES = {}


def P(id, title, statement, over, quant, why, files, mech, observe=None, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=quant),
                      why_tests_cant=why, anchors=a))


P("C01", "Socket transfers move exactly the requested bytes",
  "A socket read or write that reports success has moved exactly the requested bytes, in order, however the kernel fragments the transfer or interrupts it with a signal. "
  "A read that stops early reports exactly how many bytes arrived and tells a timeout (retryable) apart from a closed or broken connection; a failed write is reported as a failure. "
  "No byte outside the caller's range is touched.",
  "schedules fault_sequences inputs", "every sequence of partial transfers, signals, timeouts, errors and disconnects the kernel may produce",
  "Loopback tests see whole transfers almost always; signal interruptions, one-byte fragments and mid-message timeouts are never produced.",
  ["src/tcp_utils.c"], [("read loop", "src/tcp_utils.c tcp_utils_read_data_partially"), ("write loop", "src/tcp_utils.c tcp_utils_write_data")],
  ["tcp_utils_read_data", "tcp_utils_read_data_partially", "tcp_utils_write_data"])

P("C02", "Requests are read whole and bounded, or refused without leftovers",
  "A request or transmit message reaches the server only if its declared length is at most 32 KiB, all its declared bytes arrived and they decode to a message of the expected kind. "
  "In every other case the reader reports a failure and hands out nothing; in all cases it consumes no byte beyond the declared length and keeps no memory of its own.",
  "inputs fault_sequences", "every declared length, every fragmentation, timeout or disconnect point, every decoder verdict and every allocation failure",
  "Tests send well-formed messages and two malformed ones; they do not vary the failure point and cannot see leaked buffers.",
  ["src/api_utils.c", "src/tcp_utils.c"], [("length check", "src/api_utils.c MAX_MESSAGE_LENGTH"), ("read then unpack then free", "src/api_utils.c api_utils_read_*")],
  ["api_utils_read_header", "api_utils_read_tx_data", "api_utils_read_tx_request", "api_utils_read_rx_request"])

P("C03", "Every response is one well-formed frame",
  "A response is sent as exactly one frame: current protocol version, response type, the body length in network byte order, then a body that carries exactly the given status and details. "
  "The frame is complete and contiguous however the kernel splits the write, and a failure to send it is reported to the caller.",
  "inputs fault_sequences", "every status, every 32-bit details value, every split of the write and write failure",
  "Tests read back a handful of responses with small details values over an unfragmented loopback socket.",
  ["src/api_utils.c", "src/tcp_utils.c"], [("header + packed body in one buffer", "src/api_utils.c api_utils_write_response")],
  ["bytes written to the client socket"])

P("C04", "Receive requests are accepted only when complete and supported",
  "A receive request gets a success response, and anything is set up for it, only if modulation, destination and demodulator settings are supported and present, frequency, sample rate, baud rate, filter width and a decimation of 1 to 255 are given, a file name is present when the input is a file, and a supplied orbit has exactly three lines. "
  "Any other request gets a single failure response saying the request is invalid, nothing is created for it and its connection is closed once. "
  "Accepted values reach the demodulator and the device unchanged.",
  "inputs configurations", "every value of every request field, present or absent, under every server configuration",
  "Tests try one invalid value per field; combinations, absent sub-messages and values that overflow a narrower type are not sampled.",
  ["src/tcp_server.c", "src/dsp_worker.c"], [("validate_rx_request", "src/tcp_server.c"), ("handle_rx_client", "src/tcp_server.c"), ("dsp_worker_create", "src/dsp_worker.c")],
  ["response on the client socket", "arguments of demodulator and device creation"])

P("C05", "Transmit requests are accepted only when complete and supported",
  "A transmit request gets a success response, and a modulator or device is set up for it, only if the server can transmit, modulation and modulator settings are supported and present, frequency, sample rate and baud rate are given and make a symbol of 1 to 255 samples, a file name is present when the output is a file, and a supplied orbit has exactly three lines. "
  "Any other request gets a single failure response saying the request is invalid, nothing stays allocated for it and its connection is closed once. "
  "Accepted values reach the modulator, frequency correction and device unchanged, with room for the longest chunk they may be given.",
  "inputs configurations", "every value of every request field, present or absent, under every server configuration",
  "Tests try one invalid value per field; absent sub-messages and large rates are not sampled.",
  ["src/tcp_server.c"], [("validate_tx_request", "src/tcp_server.c"), ("handle_tx_client", "src/tcp_server.c")],
  ["response on the client socket", "arguments of modulator and device creation"])

P("C06", "A client session survives timeouts and bad messages and ends once",
  "An accepted client's session handles the messages on its connection in order and ends exactly when the client asks for shutdown, disconnects, or the server stops; read timeouts while waiting for a message or inside its header, and unsupported messages, neither end it nor make it misread what follows; a transmit message whose body stops arriving is answered with a failure and given up. "
  "When it ends, its receive pipeline, its transmit device and its socket are each released exactly once and the session is marked stopped.",
  "histories inputs fault_sequences", "every sequence of messages, unknown types and versions, payload lengths, fragmentations, timeouts and disconnects within the bound",
  "Tests play two or three fixed message sequences with no timeout in the middle of a frame.",
  ["src/tcp_server.c", "src/api_utils.c"], [("tcp_worker_callback", "src/tcp_server.c")],
  ["socket reads", "device calls", "close calls"])

P("C07", "A transmit payload is sent whole and in order before success is reported",
  "Every byte of a transmit message is modulated exactly once, in order, in chunks no larger than the server buffer, and each chunk passes frequency correction, the optional dump and the device in that order. "
  "Exactly one response is sent per transmit message: success only if every sample of the payload was handed to the device without error, otherwise a failure.",
  "inputs fault_sequences configurations", "every payload length and content, buffer size, block combination and device or modulator failure point within the bound",
  "Tests send payloads of one or two fixed sizes through a device that fails at most at one chosen call.",
  ["src/tcp_server.c"], [("handle_tx_data", "src/tcp_server.c")], ["modulator input", "device input", "responses"])

P("C08", "A radio has at most one owner and is released when the owner ends",
  "At most one live client owns the transmitter, and with a PlutoSDR at most one live client owns the receiver; another client asking meanwhile is refused with the specific in-use response and disturbs nothing. "
  "As soon as the owner's session has ended, the next request is accepted, and a refused or failed request never leaves the radio marked as used.",
  "histories fault_sequences", "every sequence of connects, refusals, setup failures and session ends within the bound",
  "Tests cover one second-client attempt and one reconnect; setup failures in between are not explored.",
  ["src/tcp_server.c"], [("tx_initialized / rx_initialized flags", "src/tcp_server.c"), ("cleanup_terminated_threads", "src/tcp_server.c")],
  ["responses", "device create/destroy calls"])

P("C09", "A shared receiver feeds every attached client and closes with the last one",
  "Receive clients of an sdr-server with the same frequency, rate and offset share one upstream connection, and clients that differ in any of them never share. "
  "Every sample block read from the device is delivered unchanged, once and in order to exactly the clients attached at that moment, nothing is read before the first one is attached, and short reads or read timeouts lose nothing. "
  "The device is stopped and released exactly once, after its last client left, and when the device ends every attached client is told to finish.",
  "histories inputs fault_sequences", "every sequence of attach, detach, block, short read, timeout and end of stream within the bound",
  "Tests attach at most two clients in one order with full blocks.",
  ["src/sdr_worker.c", "src/tcp_server.c"], [("sdr_worker_callback", "src/sdr_worker.c"), ("sdr_worker_find_closest", "src/sdr_worker.c"), ("sdr_worker_destroy_by_dsp_worker_id", "src/sdr_worker.c")],
  ["device calls", "blocks put to clients"])

P("C10", "The sample queue never loses, reorders or corrupts what it keeps",
  "Blocks taken from the queue are, byte for byte, blocks that were put, in the order they were put, each at most once. "
  "A blocking queue drops nothing; a dropping queue drops only when full, then gives up exactly the newest waiting block for the new one (or the new one when nothing waits), and never touches the block being processed. "
  "After shutdown the consumer gets the blocks still waiting and then the end marker, and nobody waits forever.",
  "schedules histories", "every interleaving of producer, consumer and shutdown operations and every block length within the bound",
  "Tests run one producer and one consumer in fixed orders; interleavings around a full queue and shutdown are not reached.",
  ["src/queue.c"], [("free / filled node lists and detached node", "src/queue.c"), ("condition wait loops", "src/queue.c")],
  ["queue_put", "take_buffer_for_processing", "complete_buffer_processing", "interrupt_waiting_the_data"])

P("C11", "A failing receive client never blocks the sample source",
  "When a receive client's processing stops for any reason (write failure, disconnect, shutdown), the thread that feeds it samples never waits for it again and can always run to its own end. "
  "Destroying the client always completes and releases its queue, files, demodulator and frequency correction exactly once.",
  "schedules fault_sequences", "every failure point of the client's outputs, in every position relative to further sample blocks and shutdown",
  "The disk-full path is never executed by a test, and a blocked producer is a hang no assertion sees.",
  ["src/dsp_worker.c", "src/queue.c"], [("dsp_worker_callback exit paths", "src/dsp_worker.c"), ("interrupt_waiting_the_data", "src/queue.c")],
  ["queue waits", "thread termination"])

P("C12", "Demodulated bytes reach exactly the requested destinations in order",
  "For every block taken from its queue a receive client writes the raw samples to the sample dump if requested, then corrects and demodulates the block, and sends the demodulated bytes, complete and in order, to the file, the socket or both, exactly as requested. "
  "A client whose output fails stops after the failure; a block that produced no output is skipped without stopping the client.",
  "inputs configurations fault_sequences", "every destination, combination of optional stages, block content, output length and write failure within the bound",
  "Tests compare two recordings end to end; combinations of destination, dump, frequency correction and failures are not crossed.",
  ["src/dsp_worker.c"], [("dsp_worker_callback", "src/dsp_worker.c"), ("dsp_worker_create", "src/dsp_worker.c")],
  ["dump file", "demodulated file", "client socket"])

P("C13", "The client registry keeps exactly the registered entries",
  "Adding, finding, removing and destroying entries act on exactly the matching entries (operations by id on the first match, destruction by selector on every match) and keep all others in insertion order. "
  "Every entry's destructor runs exactly once, when it is destroyed, and never for a removed or surviving entry; a failed addition changes nothing.",
  "histories inputs", "every sequence of registry operations with every selection predicate within the bound",
  "Tests exercise removal at the head and tail of short lists with one predicate.",
  ["src/linked_list.c"], [("singly linked list", "src/linked_list.c")], ["linked_list_* calls and destructor calls"])

P("C14", "FIR filtering does not depend on how the stream is cut into blocks",
  "Each filter output is the dot product of the taps with the next window of the stream, advanced by the decimation factor and preceded by zero history, whatever the block sizes, including blocks shorter than the filter or the decimation step. "
  "It outputs exactly as many samples as complete windows allow, refuses blocks longer than configured, and never reads or writes outside its buffers.",
  "inputs histories configurations", "every cut of the stream into blocks, tap count, decimation and sample value within the bound",
  "Tests feed one or two block sizes that divide the stream evenly.",
  ["src/dsp/fir_filter.c", "src/dsp/lpf.c"], [("working buffer and history offset", "src/dsp/fir_filter.c fir_filter_process")], ["fir_filter_process output"])

P("C15", "Interpolating FIR equals zero-stuffing followed by filtering",
  "The interpolating filter emits exactly the interpolation factor of samples per input sample, equal to filtering the zero-stuffed stream with the prototype taps, independent of how the input is cut into blocks. "
  "It refuses blocks longer than configured and impossible interpolation factors, and stays inside its buffers.",
  "inputs histories configurations", "every cut of the input, tap count, interpolation factor and sample value within the bound",
  "Tests use one tap set and one factor.",
  ["src/dsp/interp_fir_filter.c"], [("polyphase taps", "src/dsp/interp_fir_filter.c")], ["interp_fir_filter_process output"])

P("C16", "Clock recovery keeps its history and stays inside its buffers",
  "Whatever samples arrive and however they are cut into blocks, clock recovery reads only samples of the current stream, each symbol being interpolated at a position that never moves backwards, and writes only inside its output. "
  "Its loop state stays finite and within its configured limits, so hostile input cannot crash it or stop it for good. Rates outside 1 to 2^22 samples per symbol are refused.",
  "inputs histories", "every sample value including infinities and NaN, every block length within the bound, every loop gain",
  "Tests feed well-formed recorded signals in full blocks.",
  ["src/dsp/clock_recovery_mm.c", "src/dsp/mmse_fir_interpolator.c"], [("working buffer / skip bookkeeping", "src/dsp/clock_recovery_mm.c clock_mm_process"), ("interpolator filter index", "src/dsp/mmse_fir_interpolator.c")],
  ["clock_mm_process output"])

P("C17", "Quadrature demodulation measures every phase step across blocks",
  "The n-th output is the gain times the angle between sample n and sample n-1 of the whole stream, the first sample being measured against an empty history, independent of how the stream is cut. "
  "One output is produced per input, blocks longer than configured are refused, and no access leaves the buffers.",
  "inputs histories", "every cut of the stream and every sample value within the bound",
  "Tests use one recorded stream in one block size.",
  ["src/dsp/quadrature_demod.c"], [("one-sample history", "src/dsp/quadrature_demod.c")], ["quadrature_demod_process output"])

P("C18", "DC blocking is stream-exact and safe for every length",
  "The blocker's output is the delayed input minus the cascaded moving average of the whole stream, independent of block cuts, one output per input. "
  "Filter lengths it cannot support are refused, and no access leaves its buffers or the given block, whatever the block length.",
  "inputs histories configurations", "every cut of the stream, filter length and sample value within the bound",
  "Tests use one filter length and one block.",
  ["src/dsp/dc_blocker.c"], [("four cascaded moving averages and delay line", "src/dsp/dc_blocker.c")], ["dc_blocker_process output"])

P("C19", "Modulation turns every bit into exactly its symbol, most significant first",
  "Each payload byte becomes eight symbols, most significant bit first, one-bits positive and zero-bits negative, and every symbol becomes exactly the whole number of samples per symbol that was configured, across any split of the payload into calls. "
  "A payload longer than configured produces no output rather than a partial one, and settings below 1 or above 255 samples per symbol are refused.",
  "inputs histories configurations", "every payload byte value, split and samples-per-symbol setting within the bound",
  "Tests modulate one fixed payload at one rate.",
  ["src/dsp/gfsk_mod.c", "src/dsp/interp_fir_filter.c", "src/dsp/frequency_modulator.c", "src/dsp/gaussian_taps.c"],
  [("bit unpacking", "src/dsp/gfsk_mod.c gfsk_mod_process")], ["gfsk_mod_process output"])

P("C20", "Doppler correction follows the orbit second by second",
  "The frequency shift applied to sample n is interpolated between the shifts predicted for the surrounding whole seconds of stream time counted in samples from the start time, with opposite sign on transmit and receive: each run of samples between second boundaries is mixed at the shift interpolated linearly at its first sample, to within one hertz. "
  "Each second is predicted exactly once, the amplitude is not changed, and blocks longer than configured are refused.",
  "inputs histories", "every cut of the stream, sample rate and sequence of predicted shifts within the bound",
  "Tests compare one recording with one block size; block boundaries falling on second boundaries are not sampled.",
  ["src/dsp/doppler.c"], [("per-second prediction and linear interpolation", "src/dsp/doppler.c")], ["doppler_process_rx / doppler_process_tx output", "frequency requested from the mixer"])

P("C21", "Oscillator phase is continuous and bounded forever",
  "The mixer and the frequency modulator advance their phase by exactly the requested step per sample, continue it across blocks and frequency changes, and keep it within one turn however long they run and however large the step is. "
  "One output is produced per input and blocks longer than configured are refused.",
  "inputs histories", "every frequency, sensitivity, sample value and cut of the stream within the bound",
  "Tests check tens of samples; phase wrap-around with large steps needs specific values.",
  ["src/dsp/sig_source.c", "src/dsp/frequency_modulator.c"], [("phase accumulator and wrap", "src/dsp/sig_source.c"), ("phase accumulator and wrap", "src/dsp/frequency_modulator.c")],
  ["sig_source_multiply output", "frequency_modulator_process output"])

P("C22", "The fast arctangent is accurate and safe for every argument",
  "For every pair of finite arguments the fast arctangent is within its table accuracy of the true angle, in the right quadrant, and never leaves its table; zero, infinite and NaN arguments do not crash it.",
  "inputs", "every pair of 32-bit floats, including denormals, infinities and NaN, at the stated accuracy",
  "Tests sample a few angles; table-edge ratios need exact values.",
  ["src/math/fast_atan2f.c"], [("table lookup and interpolation", "src/math/fast_atan2f.c")], ["fast_atan2f result"])

P("C23", "Orbit elements are parsed exactly or refused",
  "A three-line element set with correct checksums and layout is accepted and every field is decoded to its stated value (the mean motion to at least seven decimals); any set with a wrong checksum, line number or layout is refused. "
  "Arbitrary bytes of the allowed size never cause an access outside the given lines or the result.",
  "inputs", "every content of the three lines within the bound",
  "Tests parse three real element sets.",
  ["src/sgpsdp/sgp_in.c", "src/api_utils.c"], [("Checksum_Good / Good_Elements / Convert_Satellite_Data", "src/sgpsdp/sgp_in.c"), ("fixed-width copy", "src/api_utils.c api_utils_convert_tle")],
  ["Get_Next_Tle_Set result"])

P("C24", "Calendar and epoch conversions agree with the civil calendar",
  "Day-of-year, Julian date and epoch conversions used for orbit prediction agree with the Gregorian calendar for every supported date and are monotonic in time; two-digit epoch years below 57 are in the 21st century.",
  "inputs", "every date of the supported years within the bound",
  "Tests reach the conversions only through a few fixed dates.",
  ["src/sgpsdp/sgp_time.c"], [("Julian_Date_of_Year / DOY / Date_Time / Julian_Date_of_Epoch", "src/sgpsdp/sgp_time.c")], ["conversion results"])

P("C25", "Configuration is taken exactly as written or the start is refused",
  "Every setting given in the configuration file, with its type and range right, is used unchanged; every absent optional setting gets its documented default. "
  "An unknown device type, or a value of the wrong type or out of range is refused at start, and every failure releases what was allocated.",
  "inputs configurations fault_sequences", "every combination of present, absent, ill-typed and out-of-range settings and allocation failures",
  "Tests load about ten fixed files.",
  ["src/server_config.c"], [("server_config_create", "src/server_config.c")], ["server_config_create result"])

P("C26", "File input and output carry every sample once and in order",
  "Reading from a recording delivers its samples in order, in blocks no larger than configured, shifted by exactly the requested offset and unchanged when there is none; after the last sample nothing is delivered and the source waits quietly until it is stopped. "
  "Writing appends exactly the given samples, shifted by the offset; too long blocks are refused, and everything opened is closed exactly once. An incomplete last sample of a recording is ignored.",
  "inputs histories fault_sequences configurations", "every file length, short read, block length, offset and creation failure within the bound",
  "Tests use recordings with whole blocks.",
  ["src/sdr/file_source.c"], [("file_source_process_rx / tx", "src/sdr/file_source.c")], ["samples delivered", "bytes written"])

P("C27", "The upstream receiver connection is requested and read exactly",
  "A connection to the upstream server asks for exactly the client's frequency, rate and offset in network byte order, refuses values that cannot be expressed, and is usable only if the server answered success in full; otherwise everything is released. "
  "The sample stream is delivered whole and in order in blocks of whole samples, whatever the fragmentation or read timeouts, and the end of the connection is reported once all complete samples were delivered.",
  "inputs fault_sequences", "every request value, response content, fragmentation, timeout and disconnect point within the bound",
  "Tests use a mock that answers in whole frames on loopback.",
  ["src/sdr/sdr_server_client.c"], [("request/response exchange", "src/sdr/sdr_server_client.c sdr_server_client_create"), ("read into block", "src/sdr/sdr_server_client.c")],
  ["bytes sent upstream", "samples delivered"])

P("C28", "PlutoSDR samples are converted in place, whole and in order",
  "Every transmitted sample is scaled to the radio's fixed-point range, interleaved I then Q, at consecutive positions of the transmit buffer, each exactly once and in order, whatever the block length, and a failed push is reported. "
  "Every received point is converted to its float value in order, and a transfer larger than the block is refused rather than overrun.",
  "inputs fault_sequences", "every sample value, block length, buffer geometry and push or refill result within the bound",
  "Tests check two block sizes against a mock.",
  ["src/sdr/plutosdr.c"], [("plutosdr_process_tx", "src/sdr/plutosdr.c"), ("plutosdr_process_rx", "src/sdr/plutosdr.c")],
  ["device buffer contents", "samples delivered"])

P("C29", "PlutoSDR setup programs the radio as requested and undoes a failed setup",
  "A successful setup has programmed exactly the requested frequency, rate and gain, with the rate filter chosen for that rate, and rates the radio cannot do are refused. "
  "If any step of the setup fails, everything acquired so far is released exactly once; the shared radio context is created for the first user and destroyed with the last.",
  "inputs configurations fault_sequences histories", "every rate and frequency, and every step at which the radio library may fail, for transmit and receive",
  "Tests fail about ten chosen steps with a mock.",
  ["src/sdr/plutosdr.c"], [("plutosdr_create", "src/sdr/plutosdr.c"), ("plutosdr_destroy", "src/sdr/plutosdr.c")],
  ["radio library calls"])

P("C30", "The server answers every connection and never stops accepting by itself",
  "Every accepted connection gets exactly one answer appropriate to its first message and is either handed to a session or closed exactly once, and numbers given to clients increase by one per connection. "
  "A connection that is broken or malformed never ends or blocks the acceptance of the next one, and a silent one delays it by no more than the configured read timeout; only stopping the server does, and stopping ends every session and releases the listening socket.",
  "histories inputs fault_sequences", "every sequence of connections, first messages, accept errors and set-up failures within the bound",
  "Tests open a few well-behaved connections and stop the server.",
  ["src/tcp_server.c"], [("acceptor_worker", "src/tcp_server.c"), ("tcp_server_create", "src/tcp_server.c")],
  ["responses", "close calls", "client ids"])

P("C31", "Signal blocks that cannot be created leave nothing behind",
  "If creating any signal processing block or pipeline fails at any point, including running out of memory, the failure is reported, everything allocated for it is released exactly once and nothing is handed out. "
  "A successfully created block releases everything when destroyed.",
  "fault_sequences configurations", "every allocation or sub-block creation that may fail",
  "Tests never make an allocation fail.",
  ["src/dsp/fir_filter.c", "src/dsp/lpf.c", "src/dsp/interp_fir_filter.c", "src/dsp/gfsk_mod.c", "src/dsp/fsk_demod.c", "src/dsp/doppler.c", "src/dsp/clock_recovery_mm.c", "src/dsp/mmse_fir_interpolator.c", "src/dsp/dc_blocker.c", "src/dsp/quadrature_demod.c", "src/dsp/sig_source.c", "src/dsp/frequency_modulator.c", "src/queue.c"],
  [("destroy-on-error paths", "src/dsp/*_create")], ["allocations and releases"])

P("C32", "The radio library is used only when completely available",
  "The optional radio library is offered to the server only if the library and every needed function were found; otherwise loading fails, and the library handle and table are released exactly once. "
  "Each entry of the function table is bound to the function of that name.",
  "fault_sequences", "every subset of functions missing from the library",
  "Tests either have the library or not.",
  ["src/sdr/iio_lib.c"], [("iio_lib_create", "src/sdr/iio_lib.c")], ["dlopen/dlsym/dlclose calls"])

P("C33", "Filter design refuses impossible settings and yields symmetric unit-gain taps",
  "A low-pass design is refused for a non-positive rate, cutoff or transition width, or a cutoff beyond half the rate; otherwise it yields an odd number of taps set by rate over transition width, symmetric about the centre and normalised to the requested gain at zero frequency. "
  "A Gaussian design yields the requested number of positive taps adding up to the requested gain, centred on the sample before the middle. "
  "No access leaves the tap array.",
  "inputs configurations", "every rate, cutoff and width within the bound",
  "Tests design two filters.",
  ["src/dsp/lpf_taps.c", "src/dsp/gaussian_taps.c"], [("create_low_pass_filter", "src/dsp/lpf_taps.c")], ["taps"])

P("C34", "The demodulation chain wires its stages with consistent sizes",
  "The demodulator filters to the signal bandwidth, measures frequency, filters and decimates, optionally removes the mean, recovers symbols and delivers them as clamped 8-bit soft bits, every stage receiving exactly the previous stage's output and being created large enough for it. "
  "One soft bit is produced per recovered symbol, in order.",
  "inputs configurations", "every stage output length and value, decimation and option within the bound",
  "Tests compare two recordings at one block size.",
  ["src/dsp/fsk_demod.c"], [("fsk_demod_process", "src/dsp/fsk_demod.c"), ("fsk_demod_create", "src/dsp/fsk_demod.c")], ["fsk_demod_process output", "stage creation arguments"])

P("C35", "Predicted satellite positions are numerically accurate",
  "Satellite position and velocity predicted from an element set agree with the published reference propagation to the reference's tolerance over its whole interval.",
  "inputs", "every valid element set and time",
  "Tests compare a few epochs.",
  ["src/sgpsdp/sgp4sdp4.c", "src/sgpsdp/solar.c", "src/sgpsdp/sgp_obs.c"], [("SGP4/SDP4", "src/sgpsdp/sgp4sdp4.c")], ["predicted range rate"])
NOT_APPLICABLE["C35"] = "hundreds of chained double-precision transcendental operations (sin/cos/atan/pow/fmod) per step; no available SMT theory or bit-blasting decides their accuracy, and abstracting them to uninterpreted functions removes the property"

P("C36", "A modulated stream demodulates back to its bits end to end",
  "Any payload modulated and demodulated at matching settings over a clean channel is recovered without bit errors after synchronisation.",
  "inputs configurations", "every payload and matching rate setting",
  "Tests run one payload.",
  ["src/dsp/gfsk_mod.c", "src/dsp/fsk_demod.c"], [("whole chain", "src/dsp/")], ["recovered bits"])
NOT_APPLICABLE["C36"] = "needs thousands of floating-point filter and loop iterations per recovered bit before the first assertion; far beyond any bounded symbolic execution (the stages are decided separately in C14-C21 and C34)"
