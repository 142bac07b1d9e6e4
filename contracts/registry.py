"""property -> proof units, real-code layer, claims"""
from . import hpack_int, hpack_huff, hpack_str, hpack_table, hpack_block, frames, conn, sockets, transports, pollers, server, config, router, static, accesslog, stats, shutdown, tracing, listener, mainprog, tls
from real import hpack as rh, conn as rc, sys as rs, cfg as rcfg, app as ra, mainprog as rm, tls as rt


def pick(f, *names):
    """the units of f whose name starts with one of the given names"""
    def g():
        us = [u for u in f() if any(u.name.startswith(n) for n in names)]
        assert us, names
        return us
    return g


CONN_ASSUME = ['the strings of a handler\'s response headers are at most 2^26 octets, a body at most 2^32, the queued output at most 2^40 octets',
               'a handler does not touch the connection that calls it',
               'Transport::read/write/handshake/shutdown behave as their contracts say (proved for the real transports under C21)']

TECH = 'contract-based deductive verification (VC generation from clang AST, SMT)'
PROPS = {
    'C01': dict(units=[hpack_int.units_c01], real=[rh.c01], technique=TECH,
                note='Proved for every octet sequence, reader position and prefix 1..8: IntegerDecoder::decode equals the RFC 7541 5.1 function and stays in its input. '
                     'Trusts the VC generator, the std::span/expected models and z3.'),
    'C02': dict(units=[hpack_int.units_c02], real=[rh.c02], technique=TECH,
                note='Proved for every 32-bit value and prefix 1..8, including the round-trip lemma over both contracts. Trusts the VC generator, the std::vector model and z3.'),
    'C03': dict(units=[hpack_huff.units_c03], real=[rh.c03], technique=TECH,
                note='Proved for every octet sequence of every length: HuffmanTree::decode, on the tree the real constructor builds (executed concretely), simulates the RFC 7541 appendix B automaton bit by bit '
                     '(loop invariant per automaton state, inferred and checked). Trusts the VC generator, the std::vector/unique_ptr/optional models, z3, and the code table of Go\'s x/net/http2/hpack used as appendix B.'),
    'C04': dict(units=[hpack_str.units_c04, hpack_int.units_c01, hpack_int.units_c02, hpack_huff.units_c03], real=[rh.c04], technique=TECH,
                note='Proved for every string up to 2^26 octets: the writer emits the length prefix and the concatenated codes padded with ones (loop invariant per pending-bit count and octet value); the reader returns exactly the RFC 5.2 string, '
                     'refused above 4096 octets; reading back what is written gives the string (lemmas; the induction over the string is over ground facts checked per symbol). Uses the C01-C03 contracts.'),
    'C05': dict(units=[hpack_table.units_c05], real=[rh.c05], technique=TECH,
                note='Proved for every table contents and header (maximum up to 2^30): class invariant size = sum over entries <= maximum and the FIFO contract of insert, set_max_table_size, find, find_name, get, count, size; by induction over calls this covers every history. '
                     'Trusts the std::deque and std::find_if models; assumes an inserted header does not alias an entry of the table.'),
    'C06': dict(units=[hpack_block.units_c06, hpack_table.units_c05, hpack_int.units_c01, pick(hpack_str.units_c04, 'HeaderBlockDecoder')], real=[rh.c06], technique=TECH,
                note='Proved for every block of every length (up to 2^40 octets) and every table: HeaderBlockDecoder::decode is the fold of the RFC 7541 section 6 representations over the block (loop invariant), with the C01-C05 contracts for its callees. '
                     'Trusts the VC generator, the container models, z3 and the static table transcribed from the RFC.'),
    'C07': dict(units=[hpack_block.units_c07, hpack_table.units_c05, hpack_int.units_c02, pick(conn.units_loop, 'Http2Connection::Http2Connection'), pick(conn.units_frame, 'process_frame[settings')], real=[rh.c07], technique=TECH,
                note='Proved for every list of headers (strings up to 2^26 octets), table and pending size change: each iteration of HeaderBlockEncoder::encode emits one representation that the RFC decoder, with an equal table, reads as that header and that leaves the tables equal; '
                     'size changes are signalled first; by induction over headers and blocks this covers every history. Uses the C02, C04, C05 contracts and their lemmas.'),
    'C08': dict(units=[frames.units_c08], real=[rc.c08], technique=TECH,
                note='Proved for every octet sequence and every frame value: parsing and serialising the seven frame structures (header, settings, window update, goaway, ...) equal the RFC 9113 layouts, and reading back what is written gives the value. '
                     'Trusts the bit-field and memcpy/byte-order models (little-endian host, as compiled) and z3.'),
    'C09': dict(units=[frames.units_c08, conn.units_frame, pick(conn.units_io, 'try_read_frame')], real=[rc.c09], technique=TECH, assume=CONN_ASSUME,
                note='Proved for every frame header, payload and connection state: process_frame hands the right octets (padding and priority removed, never outside the payload) to the decoder, settings and window-update handling, and refuses malformed lengths; memory-safety obligations at every access. '
                     'Uses the C05-C08 contracts.'),
    'C10': dict(units=[pick(frames.units_c08, 'Http2FrameHeader'), pick(conn.units_io, 'read_preface', 'try_read_frame', 'fill_read_buffer'), pick(conn.units_loop, 'internal_process', 'process')], real=[rc.c10], technique=TECH, assume=CONN_ASSUME,
                note='Proved for every buffer contents and every sequence of transport reads: input is appended in order and bounded by 64 KiB, the preface and each frame are taken from the front exactly when complete, an oversized frame is refused from its header; so framing is a function of the octet stream alone (induction over the processing loop). '
                     'Uses the Transport contract proved in C21.'),
    'C11': dict(units=[conn.units_c11, pick(frames.units_c08, 'Http2FrameHeader'), pick(conn.units_frame, 'process_frame[headers'), pick(conn.units_io, 'write_settings_ack')], real=[rc.c11], technique=TECH, assume=CONN_ASSUME,
                note='Proved for every header block and body of every length: the frames written are HEADERS/CONTINUATION (or DATA) of at most 16384 octets whose payloads concatenate to the block (body), with END_HEADERS and END_STREAM exactly where RFC 9113 puts them (loop invariant over the frame splitting).'),
    'C12': dict(units=[conn.units_request, pick(conn.units_frame, 'process_frame[headers')], real=[rc.c12], technique=TECH, assume=CONN_ASSUME,
                note='Proved for every header list, handler and response: one response per request, on its stream, status first, the handler\'s headers and body unchanged, 400/500 for a request that cannot be served or a handler that throws. The handler is an arbitrary function; the router contract is proved in C15.'),
    'C13': dict(units=[pick(conn.units_io, 'flush_write_buffer'), pick(conn.units_loop, 'internal_process'), conn.units_c11, pick(conn.units_frame, 'process_frame')], real=[rc.c13], technique=TECH, assume=CONN_ASSUME,
                note='Proved for every queue and every sequence of partial, blocked and failed writes: what the transport accepted followed by what is still queued is the queue as it was (nothing lost, repeated or reordered); every other function only appends to the queue (frame conditions).'),
    'C14': dict(units=[conn.units_loop, pick(conn.units_io, 'close', 'handle_handshake'), conn.units_frame], real=[rc.c14], technique=TECH, assume=CONN_ASSUME,
                note='Proved for every state and every outcome of the callees: nothing is processed before the handshake or after an error, close or end of input; a protocol error is answered by one GOAWAY; exceptions discard the connection (loop invariant over the processing loop, exceptional postconditions).'),
    'C15': dict(units=[router.units_c15], real=[ra.c15], technique=TECH,
                note='Proved for every route table, list of static mappings, path and method (of any length): get_handler returns the chosen handler - the first route equal in path and method, else for GET/HEAD a mapping whose prefix starts the path, else the default - wrapped exactly once in the '
                     'middleware chain, holding nothing that is gone when it returns (loop invariants over both searches); add_route, add_static_handler append, add_middleware composes inside the chain, the constructor gives an empty router answering 404. By induction over calls the first-added middleware is outermost. '
                     'Trusts the std::function, std::vector and lambda models.',
                assume=['route handlers and middleware are opaque function values; the same value behaves the same wherever it is stored']),
    'C16': dict(units=[static.units_c16], real=[ra.c16], technique=TECH,
                assume=['std::filesystem behaves as documented; the file system does not change while a request is served'],
                note='Proved for every base and requested path: sanitize_path refuses, or returns a path without dot segments that leads through no link and has every component of the resolved base (loop invariant over the component walk); file-system errors are refusals; nothing below the base is refused; '
                     'a mapping opens only a path accepted so. The file system is a contract (weakly_canonical in particular: dot segments after a missing component are removed as text).'),
    'C17': dict(units=[static.units_c17], real=[ra.c17], technique=TECH,
                assume=['stat, access, std::filesystem and std::ifstream behave as documented; the file does not change while a request is served'],
                note='Proved for every prefix, path, file and content: which file is asked for, 403/404/500/200, the type of each extension (one unit per entry), exact octets for GET, and for HEAD no body and the length of what GET would deliver. read_file, get_file_size, is_readable and get_mime_type are proved against the contracts of the file system; handle is checked against their contracts.'),
    'C18': dict(units=[server.units_c18, pick(server.units_c19, 'reap')], real=[rs.c18], technique=TECH,
                assume=['accept(2) never returns a descriptor that is already open', 'Poller and TcpListener behave as their contracts say (proved under C22, C23); a registration the kernel refuses (epoll_ctl failure) is outside this property'],
                note='Proved for every set of held connections, registrations, events and outcomes of accepting, set-up and processing (symbolic maps; loop invariants over the server loop, the events and the connections): at most 128 held, held = registered, others unaffected, no failure leaves the loop.'),
    'C19': dict(units=[server.units_c19, pick(conn.units_io, 'fill_read_buffer', 'flush_write_buffer', 'handle_handshake'), pick(conn.units_loop, 'Http2Connection::Http2Connection')], real=[rs.c19], technique=TECH,
                assume=CONN_ASSUME + ['steady_clock is monotonic'],
                note='Proved for every map of connections and every clock: has_timed_out is exactly "more than five seconds since the last activity"; activity is set by exactly the successful operations; the reaping loop ends, drops and deregisters exactly the timed-out connections (loop invariant over the map), and every round of the server loop reaps.'),
    'C20': dict(units=[accesslog.units_c20, pick(conn.units_loop, 'Http2Connection::Http2Connection'), pick(conn.units_frame, 'process_frame[headers')], real=[ra.c20], technique=TECH,
                assume=CONN_ASSUME + ['a spdlog logger writes each entry as one line, unchanged; strftime writes 28 characters for a four-digit year', 'the client address is the text the kernel gives for the socket'],
                note='Proved for every list of headers of every length and every octet in their values: log_request logs nothing when the access log is off, else exactly one entry, the combined log format of status, size, address and the first :method, :path, referer and user-agent (loop invariant over the headers), each escaped octet by octet (loop invariant); '
                     'lemmas over the 256 octets: an escaped value has no control character, cannot close its field and can be read back. process_frame logs each answered request exactly once, with what was sent.'),
    'C21': dict(units=[transports.units_c21], real=[rs.c21], technique=TECH,
                assume=['a buffer passed to read or write is at most INT_MAX octets', 'read(2)/write(2)/SSL_* behave as documented: results, errno and the per-thread OpenSSL error queue (the queue may hold anything on entry)'],
                note='Proved for every result, errno, SSL error code and stale error queue: TcpTransport and TlsTransport report transferred octets, would-block, end of stream, protocol failure and other failures exactly; the error queue is cleared before each TLS operation. '
                     'The kernel and OpenSSL are contracts (documented behaviour), not code.'),
    'C22': dict(units=[pollers.units_c22], real=[rs.c22], technique=TECH,
                assume=['epoll_ctl/epoll_wait/poll behave as documented; level-triggered conditions not delivered in one call are delivered by a later one', 'descriptors are non-negative'],
                note='Proved for every interest map, every event array and every kernel result (symbolic maps, loop invariants over the event array): both pollers register exactly the interests last set and report exactly the conditions the kernel reports. The kernel is a contract.'),
    'C23': dict(units=[sockets.units_c23], real=[rs.c23], technique=TECH,
                assume=['descriptors given to SocketFd are owned by the caller; TlsTransport move-assignment is compiler-generated over SocketFd and SSL*'],
                note='Proved for every owner state and argument, aliasing included: construction, move, assignment, close and destruction of SocketFd, TcpTransport, TlsTransport and TcpListener transfer or close the descriptor exactly once on every path, exceptional ones included (RAII modelled). The kernel is a contract.'),
    'C24': dict(units=[config.units_c24], real=[rcfg.c24], technique=TECH, dirs=('lib', 'app/args.cpp'),
                assume=['exists() and the OpenSSL loading functions behave as documented (a key that does not belong to the certificate loaded before is refused)', 'CLI11 binds options as documented'],
                note='Proved for every configuration and every outcome of the file-system and OpenSSL calls: a non-cleartext server is constructed only with both files existing, loaded and matching; the transport of every connection is TLS iff not cleartext; Args are passed on exactly. The file system and OpenSSL are contracts.'),
    'C25': dict(units=[stats.units_c25], real=[ra.c25], technique=TECH, dirs=('lib', 'app/server_stats.cpp', 'app/status_page.cpp'),
                assume=['counters and the sum of latencies do not reach 2^61', 'steady_clock is monotonic', 'handlers run on the server\'s one thread', 'string streams insert as documented; floating point is uninterpreted: that the average shown is the quotient is checked by the real-code layer only (bounded)'],
                note='Proved for every number of seconds: format_duration writes exactly the days, hours, minutes and seconds that add up (lemma over the integers). Proved for every counter state, handler, request and exception: the middleware calls the handler once, passes request, response and exception through, counts the request once in total and once under its status, and adds the time the handler took. '
                     'The page shows the uptime, the total and every status code with its count (loop invariant over the map) and is installed with the middleware.'),
    'C26': dict(units=[shutdown.units_c26, pick(server.units_c18, 'handle_'), pick(server.units_c19, 'reap')], real=[rs.c26], technique=TECH, dirs=('lib', 'app/signal_handler.cpp'),
                assume=['signal(2), epoll_wait/poll time-outs and atomics behave as documented; memory orders are not modelled', 'a round of the loop ends: request handlers return'],
                note='Proved with the flag read as an arbitrary, monotone value at each look (the signal may come at any moment): every round looks for a stop request, waits once and at most a second, nothing is waited for, accepted or processed after one was seen, the loop ends only then, by returning, and closes listener and poller; '
                     'nothing takes a request back (frame conditions); stop sets the flag and does nothing a signal handler must not do; SignalHandler handles SIGINT and SIGTERM by stopping the server, with no moment in which one is lost, and SIGPIPE exactly when standard output or error has lost its reader. Connections are closed with the server (C18, C23).'),
    'C28': dict(units=[tracing.units_c28], real=[rc.c28], technique=TECH, dirs=('lib', 'app/trace_id_flag.cpp'),
                assume=CONN_ASSUME + ['the OpenTelemetry API behaves as documented: a span ends at End() or with its last holder, a scope makes it current while it lives; exporting (app/telemetry.cpp over the SDK, which is not installed) is outside the property'],
                note='Proved for every HEADERS frame, header list, handler and outcome, with ghost spans and holder counts: a request starts one span, current in the handler and while logging, with the attributes of the request and of the answer sent, ended once after the response is queued; no span is left current or unended on any path. '
                     'TraceIdFlag::format is proved for every line and context. OpenTelemetry is a contract over a stand-in header.'),
    'C29': dict(units=[listener.units_c29], real=[rs.c29], technique=TECH,
                assume=['socket, bind, listen, accept, fcntl, setsockopt, getpeername and inet_ntop behave as documented'],
                note='Proved for every port and every outcome of every system call, against contracts of the kernel that keep the state of each socket: the listener is bound to exactly the port asked for on every interface, does not block and listens, or an exception is thrown and nothing stays open; '
                     'start makes it for its port and runs no round without it; accepted sockets do not block, an empty queue is no error and every other failure is reported; client_ip gives the whole address of either family or an error.'),
    'C30': dict(units=[mainprog.units_c30], real=[rm.c30], technique=TECH, dirs=('lib', 'app/main.cpp', 'app/args.cpp', 'app/proc_ctrl.cpp', 'app/test_routes.cpp', 'app/status_page.cpp', 'app/signal_handler.cpp'),
                assume=['CLI11 fills the fields the options are bound to, and refuses what the validators refuse (C24 proves the bindings against the options given to it; the real-code layer runs the real CLI11)',
                        'spdlog writes an entry of the access logger to its file in the pattern set; prctl behaves as documented',
                        'the configuration is the one proved under C24, file_response the one of C17, the router the one of C14, the signal handler the one of C26'],
                note='Proved for every combination of options, every outcome of every step and every request and handler below the 404 page, over contracts of the parts proved elsewhere: the routes, mapping, page and log are installed exactly when their options are given, before the server is started, once, on the port given, with signals handled; '
                     'the 404 page replaces exactly the responses with status 404; privileges are given up and the log level set before the server runs; the exit status. The texts of the test routes and of the help are not covered.'),
    'C31': dict(units=[tls.units_c31], real=[rt.c31], technique=TECH,
                assume=['the OpenSSL functions used behave as documented: SSL_select_next_proto chooses an entry of the server\'s list or none, the callbacks installed are the ones called, the list a client offers is well formed'],
                note='Proved for every list of protocols offered, every outcome of the OpenSSL and file-system calls, every key-log line and file name: h2 is what is answered, from storage that outlives the call; the TLS context and the TLS object of a connection are released exactly once on every path, failed set-up included; '
                     'the object of a connection is made from the server\'s context and reads and writes its descriptor; session keys are appended, a line each, to the file SSLKEYLOGFILE names and written nowhere otherwise. OpenSSL is a contract; the real-code layer runs handshakes of the real one.'),
}
NOT_APPLICABLE = {
    'C27': 'liveness and resource bounds across connections under a hostile schedule: the code promises none (queued output and a handler\'s time are unbounded, flow control is absent), and function contracts decide safety of each function, not the delay of others',
}
