#!/usr/bin/env python3
# one-off generator of /verif/properties.jsonl
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
p("C01","HPACK integers decode exactly as RFC 7541 section 5.1 says",
 "For every octet sequence and every prefix length 1..8, decoding an HPACK integer yields exactly the value RFC 7541 section 5.1 assigns to it and consumes exactly the octets of its representation. A truncated representation, a value above 2^32-1, or a sixth continuation octet is reported as an error, never as a wrong value. Octets outside the given input are never read.",
 ["inputs"],"all octet sequences of any length, all prefix lengths 1..8",
 "Unit tests sample a dozen encodings; overflow and truncation behaviour depends on every bit of up to six octets.",
 ["lib/hpack/int_decoder.cpp","lib/hpack/byte_reader.cpp"],
 [("IntegerDecoder::decode","lib/hpack/int_decoder.cpp"),("ByteReader","lib/hpack/byte_reader.cpp")],
 ["return value of IntegerDecoder::decode and the reader position after it"])
p("C02","HPACK integers are encoded canonically and round-trip",
 "For every unsigned 32-bit value and every prefix length 1..8, the encoder emits exactly the octets of the RFC 7541 section 5.1 encoding algorithm, with the bits above the prefix zero. Decoding those octets with the same prefix gives the value back and consumes all of them. Prefix lengths outside 1..8 are refused by an exception.",
 ["inputs"],"all 2^32 values times all prefix lengths",
 "Tests check seven values; 8 * 2^32 inputs cannot be sampled to exclusion.",
 ["lib/hpack/int_encoder.cpp","lib/hpack/int_decoder.cpp"],
 [("IntegerEncoder::encode","lib/hpack/int_encoder.cpp")],["octets returned by IntegerEncoder::encode"])
p("C03","Huffman decoding accepts exactly valid strings and decodes them exactly",
 "For every octet sequence, Huffman decoding with the HPACK code returns exactly the symbols of RFC 7541 appendix B whose codes make up the input, followed by at most 7 padding bits that are all ones. Every other input (an incomplete code that is not such padding, padding longer than 7 bits, or the EOS code) is reported as an error and never yields a string. The input is never read out of bounds.",
 ["inputs"],"all octet sequences of any length",
 "Tests decode a few fixed strings; malformed paddings and the 256-code table are sampled at a handful of points.",
 ["lib/hpack/huffman_tree.cpp","lib/hpack/huffman_tree.h","lib/hpack/huffman_codes.h","lib/hpack/bit_reader.h"],
 [("HuffmanTree::decode, insert_symbol","lib/hpack/huffman_tree.cpp"),("HUFFMAN_CODES","lib/hpack/huffman_codes.h"),("BitReader","lib/hpack/bit_reader.h")],
 ["result of HuffmanTree::decode on a tree filled from the HPACK table"])
p("C04","Every string is written as a valid HPACK string literal that reads back equal",
 "For every string, of any length up to 4096 octets and with any octet values 0..255, the literal the header encoder writes is a valid RFC 7541 section 5.2 string literal (correct length prefix; when Huffman-coded, the concatenated codes padded with ones to an octet boundary), and the header decoder reads it back as the same string. A string longer than 4096 octets, plain or Huffman-coded, is refused by the decoder, and one of up to 4096 octets never is for its length.",
 ["inputs"],"all strings over the full octet alphabet",
 "Tests only use short ASCII strings.",
 ["lib/hpack/header_block_encoder.cpp","lib/hpack/header_block_decoder.cpp","lib/hpack/bit_writer.h","lib/hpack/huffman_codes.h"],
 [("HeaderBlockEncoder::write_length_and_string","lib/hpack/header_block_encoder.cpp"),("BitWriter","lib/hpack/bit_writer.h"),("HeaderBlockDecoder::read_length_and_string","lib/hpack/header_block_decoder.cpp")],
 ["bytes of HeaderBlockEncoder::encode, headers of HeaderBlockDecoder::decode"])
p("C05","The HPACK dynamic table is a size-bounded FIFO with exact accounting",
 "After any sequence of insertions and maximum-size changes, the reported size equals the sum over the entries of name length + value length + 32 and never exceeds the maximum in force. An insertion puts the entry at index 0 and evicts oldest entries only, and only as many as needed; an entry larger than the maximum leaves the table empty and is not stored; lowering the maximum evicts oldest entries only, and only as many as needed. Looking up a header or a name returns the lowest index that matches, or nothing if none does.",
 ["histories","inputs"],"all finite sequences of insert and set_max_table_size with any headers and sizes",
 "Tests run fixed sequences of two to four operations.",
 ["lib/hpack/dynamic_table.cpp","lib/hpack/dynamic_table.h"],
 [("DynamicTable::insert, set_max_table_size, find, find_name, get, size, count","lib/hpack/dynamic_table.cpp")],
 ["size(), count(), get(i), find(), find_name()"],
 [("table_","entries, newest first","lib/hpack/dynamic_table.h"),("table_size_","sum of entry sizes","lib/hpack/dynamic_table.h")])
p("C06","A header block decodes to exactly the headers RFC 7541 assigns, or to an error",
 "For every octet sequence and every dynamic table state, decoding a header block processes its representations in order as RFC 7541 section 6 defines them: static table appendix A first and then the dynamic table for indices, incremental indexing (only) inserts into the dynamic table, size updates up to 64 KiB change its maximum. Index 0 in an indexed field, an index beyond both tables, a truncated field, a malformed integer or string, or a larger size update makes the whole block an error. Decoding never reads outside the block and never has undefined behaviour.",
 ["inputs","histories"],"all octet sequences, all dynamic table contents reachable by earlier blocks",
 "Tests decode a dozen captured blocks; the decoder faces attacker-chosen octets.",
 ["lib/hpack/header_block_decoder.cpp","lib/hpack/header_field.h","lib/hpack/header_static_table.h","lib/hpack/byte_reader.cpp"],
 [("HeaderBlockDecoder::decode and its helpers","lib/hpack/header_block_decoder.cpp"),("STATIC_TABLE","lib/hpack/header_static_table.h"),("HeaderField::from_byte","lib/hpack/header_field.h")],
 ["headers or error returned, dynamic table after the call"])
p("C07","Encoded header blocks decode to the same headers throughout a connection",
 "For every sequence of header lists encoded on one connection, a conforming RFC 7541 decoder with the default table limit of 4096 octets (or the smaller one it announced) that receives the blocks in order reconstructs every list exactly: same names, same values, same order. After every block the encoder's dynamic table equals the decoder's. No block refers to a table entry that the decoder does not have.",
 ["histories","inputs"],"all sequences of header lists of any length, with any names and values",
 "Tests encode at most two lists with one or two headers; index growth past one octet, eviction and table divergence need long histories.",
 ["lib/hpack/header_block_encoder.cpp","lib/hpack/dynamic_table.cpp","lib/hpack/header_static_table.h","lib/http2_conn.h"],
 [("HeaderBlockEncoder::encode","lib/hpack/header_block_encoder.cpp"),("encoder_dynamic_table_","lib/http2_conn.h")],
 ["octets of each encoded block"])
p("C08","HTTP/2 frame structures are parsed and serialised exactly",
 "For every octet content, frame headers, settings entries, GOAWAY payloads and WINDOW_UPDATE payloads are read as the big-endian fields RFC 9113 defines, with the reserved bit of stream identifiers and window increments ignored on reading and zero on writing. Serialising any in-range field values and parsing the result gives the same values. A SETTINGS payload yields exactly its entries in order when its length is a multiple of six, and an error otherwise.",
 ["inputs"],"all field values and octet contents, all SETTINGS payload lengths",
 "Tests parse two headers and serialise none.",
 ["lib/http2_frames.h","lib/http2_frame_reader.cpp","lib/http2_frame_reader.h"],
 [("Http2FrameHeader, Http2Setting, Http2GoAwayPayload, Http2WindowUpdate","lib/http2_frames.h"),("Http2FrameReader::read_settings","lib/http2_frame_reader.cpp")],
 ["parsed structures and serialised octets"])
p("C09","No frame content makes the connection read outside the frame or misread it",
 "For every frame type, flags and payload, processing a received frame only ever looks at octets of that frame's payload. For a HEADERS frame, exactly the field block (without pad length, padding and priority fields) is decoded. A payload too short for what its type and flags require, padding that does not fit, a WINDOW_UPDATE payload not of 4 octets, a SETTINGS payload not a multiple of 6 octets or an undecodable field block is answered as a connection error and produces no response.",
 ["inputs"],"all frame headers and payloads up to the maximum frame size",
 "No unit test processes a malformed frame; an over-read is silent without a checker.",
 ["lib/http2_conn.cpp","lib/http2_frame_reader.h","lib/http2_frame_reader.cpp"],
 [("Http2Connection::process_frame","lib/http2_conn.cpp"),("Http2FrameReader::headers_block, read_settings, read_window_update","lib/http2_frame_reader.h")],
 ["octets written by the connection, result of process()"])
p("C10","Received octets are framed identically however they are segmented",
 "Whatever pieces the client's octets arrive in, the connection first requires exactly the client preface, then processes each complete frame exactly once, in order, and never acts on a frame before all of its octets have arrived. A wrong preface ends the connection and a frame announcing more than 16384 payload octets ends it as a protocol error, without waiting for that payload. At most 64 KiB of unprocessed input is ever buffered per connection.",
 ["inputs","schedules"],"all octet streams and all ways of splitting them into reads",
 "Tests send whole messages at once; splits at every position are not sampled.",
 ["lib/http2_conn.cpp"],
 [("Http2Connection::read_preface, try_read_frame, fill_read_buffer, discard_processed_buffer, internal_process","lib/http2_conn.cpp")],
 ["octets written by the connection, result of process()"],
 [("read_buffer_","received and not yet processed octets","lib/http2_conn.h")])
p("C11","Every response is framed correctly whatever its size",
 "For every response, the connection emits on the request's stream one header block followed by DATA frames whose payloads concatenate to exactly the body; no frame exceeds 16384 payload octets, so a larger header block continues in CONTINUATION frames with only the last carrying END_HEADERS. END_STREAM is set exactly once: on the header frame when the body is empty, on the last DATA frame otherwise. Frames of different responses are not interleaved.",
 ["inputs"],"all body sizes, header block sizes and stream identifiers",
 "System tests use a few body sizes; boundaries of the chunking are not sampled.",
 ["lib/http2_conn.cpp","lib/http2_frames.h"],
 [("Http2Connection::write_headers_response, write_data_response, write_frame_header","lib/http2_conn.cpp")],
 ["octets written by the connection"])
p("C12","Every request gets exactly one well-formed response that is the handler's",
 "For every decoded request the header list sent starts with :status (the only pseudo-header), followed by the handler's headers unchanged and in order, then content-length equal to the body's size when there is a body, then server identification; the body sent is the handler's. The handler called is the one routing selects for the request's first :path and :method, and it sees all request headers. A request without :path or :method is answered 400 and a handler that throws is answered 500, and the connection stays usable.",
 ["inputs"],"all request header lists, all handler results including exceptions",
 "No unit test exercises the connection; system tests use well-formed requests.",
 ["lib/http2_conn.cpp","lib/http_response.h"],
 [("Http2Connection::process_request, process_frame","lib/http2_conn.cpp")],
 ["response header list and body, handler invocations"])
p("C13","Queued output reaches the peer in order, once, across partial and blocked writes",
 "Whatever sequence of complete, partial and would-block writes the transport performs, the octets it accepts are exactly the octets queued, in order, without loss or repetition. While output is pending the connection reports that it wants to write and neither reads nor processes more input. A write that fails for another reason ends the connection instead of retrying it.",
 ["schedules","fault_sequences"],"all sequences of write outcomes",
 "Partial and blocked writes depend on socket buffers and do not occur in the tests.",
 ["lib/http2_conn.cpp","lib/transports/tcp_transport.cpp","lib/transports/tls_transport.cpp"],
 [("Http2Connection::flush_write_buffer, enqueue_write, internal_process","lib/http2_conn.cpp"),("TcpTransport::write","lib/transports/tcp_transport.cpp")],
 ["octets passed to the transport, result of process()"],
 [("write_buffer_","queued and not yet sent octets","lib/http2_conn.h")])
p("C14","A failed or finished connection is discarded and answers nothing more",
 "After a protocol error, a GOAWAY from the peer, end of input, a failed handshake or a failed write, the connection handles no further frame and is reported for disposal. On a protocol error in a frame the peer is sent one GOAWAY with code PROTOCOL_ERROR naming the highest stream on which a request was received. No input, transport result or handler exception makes processing throw to its caller.",
 ["histories","fault_sequences","inputs"],"all histories of frames and transport outcomes",
 "Tests end connections in two or three ways only.",
 ["lib/http2_conn.cpp"],
 [("Http2Connection::process, internal_process, handle_handshake, close, write_goaway, update_state","lib/http2_conn.cpp")],
 ["result of process(), octets written"],
 [("state_","connection state","lib/http2_conn.h")])
p("C15","Requests are dispatched to the right handler and through every middleware",
 "For every set of routes and static mappings, a request goes to the first registered route whose path and method both equal the request's; failing that, and only for GET and HEAD, to a static mapping whose prefix the path starts with; failing that to a handler answering 404. The chosen handler, the default one included, is always wrapped in all middleware, the one added first outermost. The handler obtained stays valid after the path and method strings used to look it up are gone.",
 ["configurations","inputs"],"all route tables, static mappings, middleware stacks and request paths and methods",
 "Tests use at most four routes and one middleware.",
 ["lib/router.cpp","lib/router.h"],
 [("Router::get_handler, add_route, add_static_handler, add_middleware","lib/router.cpp")],
 ["handler invoked and its result"])
p("C16","Static file requests never leave the configured directory",
 "For every base directory and every requested path, path resolution either refuses or returns a path that, with symbolic links and dot segments resolved, is the base directory or below it (a broken link, which names nothing, is left as it is). A base that does not exist or is not a directory is refused, and file-system errors are refusals, not exceptions. A static mapping opens only files at paths accepted in this way.",
 ["inputs","configurations"],"all request paths (with .., absolute, symlinks, repeated slashes, sibling directories sharing a prefix) and directory layouts",
 "Tests try four paths.",
 ["lib/file_reader.cpp","lib/static_file_handler.cpp"],
 [("FileReader::sanitize_path","lib/file_reader.cpp"),("StaticFileHandler::handle","lib/static_file_handler.cpp")],
 ["return value of FileReader::sanitize_path, files opened"])
p("C17","Static responses describe the file: status, type, length, HEAD equals GET",
 "For every request under a static mapping, the file is the path after the prefix without leading slash and query string (index.html when that is empty), 403 when it resolves outside, 404 when it is not a readable regular file, 500 without a body when reading it fails all the same, and otherwise 200 with the content type its extension determines. GET carries the file's exact octets; HEAD carries no body and a content-length equal to the size GET would deliver, with the same content type.",
 ["inputs"],"all request paths, file names, sizes and contents",
 "Integration tests fetch a few small files.",
 ["lib/static_file_handler.cpp","lib/file_reader.cpp"],
 [("StaticFileHandler::get_relative_path, handle, file_response, get_response, head_response","lib/static_file_handler.cpp"),("FileReader::read_file, get_file_size, get_mime_type, is_readable","lib/file_reader.cpp")],
 ["HttpResponse of StaticFileHandler::handle"])
p("C18","Connections are admitted, tracked and removed without disturbing others",
 "The server never holds more than 128 connections; a client beyond that is disconnected and no existing connection is affected. Every held connection is registered for polling, one that is done, failed or hung up is dropped and deregistered, and a blocked writer is polled for writability until it drains. No accept or connection set-up failure stops the server.",
 ["histories","fault_sequences"],"all sequences of accepts, events and failures",
 "One system test opens 129 connections once; failures are not injected.",
 ["lib/http2_server.cpp","lib/tcp_listener.cpp"],
 [("Http2Server::establish_conn, handle_incoming_connection, handle_connection_events, start","lib/http2_server.cpp"),("TcpListener::try_accept","lib/tcp_listener.cpp")],
 ["connections served, poller registrations"],
 [("connections_","live connections by descriptor","lib/http2_server.h")])
p("C19","Exactly the connections idle for more than five seconds are reaped",
 "A connection is disconnected for inactivity if and only if more than five seconds have passed since its last successful handshake step, read or write (or its creation). Every connection is examined in each round of the server loop, and reaping one leaves all others connected and registered.",
 ["histories","schedules"],"all activity histories and sets of connections",
 "Two system tests wait seven seconds once.",
 ["lib/http2_conn.cpp","lib/http2_server.cpp"],
 [("Http2Connection::has_timed_out, update_last_activity","lib/http2_conn.cpp"),("Http2Server::reap_idle_connections","lib/http2_server.cpp")],
 ["which connections are closed"],
 [("last_activity_","time of last successful I/O","lib/http2_conn.h")])
p("C20","Each request yields exactly one faithful, unforgeable access log line",
 "With access logging on, every answered request adds exactly one line in combined log format, with the client address, the request's method, path, referer and user agent (- when absent), the status and the body size sent. Whatever octets the client put into these values, the entry stays one line and its quoted fields cannot be closed early: control characters, quotes and backslashes appear escaped. With access logging off nothing is logged.",
 ["inputs"],"all request header values",
 "One system test logs one plain request.",
 ["lib/access_log.cpp","lib/http2_conn.cpp"],
 [("AccessLog::log_request","lib/access_log.cpp")],["the access log file"])
p("C21","Transport results are reported faithfully on TCP and TLS",
 "A read or write that transferred n octets reports n; one that would block is reported as retryable and never as closed or failed; end of stream on reading is reported as closed; other failures are reported as errors, a TLS protocol failure as a protocol error. An error left behind by one TLS connection is never attributed to another. A handshake succeeds only when the TLS handshake has completed.",
 ["fault_sequences","inputs"],"all results and error codes of the socket and TLS calls",
 "No unit test covers the transports; error codes other than success are not produced by tests.",
 ["lib/transports/tcp_transport.cpp","lib/transports/tls_transport.cpp"],
 [("TcpTransport::read, write","lib/transports/tcp_transport.cpp"),("TlsTransport::read, write, handshake","lib/transports/tls_transport.cpp")],
 ["std::expected results of the Transport interface"])
p("C22","Poll interests and events are translated faithfully by both pollers",
 "For every set of descriptors and interests, the kernel is asked for exactly the interests last set for each descriptor that was not removed since, and each readiness, hang-up or error condition the kernel reports is delivered for that descriptor as exactly the corresponding event. Time-out, interruption by a signal and failure are reported as such, and a burst larger than the event buffer loses no event.",
 ["inputs","histories"],"all interest sets, kernel event masks and registration histories",
 "No test covers the pollers directly.",
 ["lib/pollers/epoll_poller.cpp","lib/pollers/poll_poller.cpp","lib/pollers/poller.h"],
 [("EPollPoller::set, remove, poll","lib/pollers/epoll_poller.cpp"),("PollPoller::set, remove, poll","lib/pollers/poll_poller.cpp")],
 ["arguments of epoll_ctl/poll, PollEvents returned"])
p("C23","Every socket descriptor is closed exactly once",
 "Each socket descriptor the process owns is closed exactly once: when its last owner is destroyed, overwritten or explicitly closed. Moving ownership neither closes the descriptor nor leaves two owners, self-assignment keeps it open, and a descriptor is never used for closing after it was released.",
 ["histories","inputs"],"all sequences of construction, move, assignment, close and destruction",
 "No test covers descriptor ownership; double closes are silent.",
 ["lib/socket_fd.cpp","lib/socket_fd.h","lib/transports/tcp_transport.cpp","lib/transports/tls_transport.cpp","lib/tcp_listener.cpp"],
 [("SocketFd","lib/socket_fd.cpp"),("TcpTransport/TlsTransport move operations","lib/transports")],
 ["close(2) and SSL_free calls"])
p("C24","Without the cleartext option the server only runs with certificate and key",
 "For every combination of options, a server that is not configured for cleartext is constructed only when both a certificate path and a key path were given and exist, the files load and the key matches the certificate; otherwise construction fails with an error and nothing listens. Configured for TLS, every accepted connection uses TLS; configured for cleartext, none does. Command-line options reach the configuration unchanged, an option not given staying unset.",
 ["configurations"],"all combinations of options and certificate/key files",
 "Tests start one valid configuration.",
 ["lib/server_config.cpp","lib/http2_server.cpp","lib/transports/tls_context.cpp","app/args.cpp"],
 [("ServerConfiguration::validate","lib/server_config.cpp"),("TlsContext::TlsContext","lib/transports/tls_context.cpp"),("Http2Server constructor, create_transport","lib/http2_server.cpp"),("Args::to_server_config","app/args.cpp")],
 ["construction outcome, transport type"])
p("C25","The status page reports exact uptime, request counts and latency",
 "For every uptime the status page shows days, hours, minutes and seconds that add up to it exactly, each within its range and leading zero units omitted. Every request that passes through the server's statistics middleware is counted once in total and once under the status code it was answered with, and the middleware passes request and response through unchanged. The average latency shown is the time the answered requests took in their handlers divided by the number of requests, in milliseconds to two decimals.",
 ["inputs","histories"],"all durations and request histories",
 "One system test greps the page.",
 ["app/status_page.cpp","app/server_stats.cpp"],
 [("StatusPage::format_duration","app/status_page.cpp"),("ServerStats::middleware","app/server_stats.cpp")],
 ["page text, counters"])
p("C26","A stop request ends the server loop promptly and cleanly",
 "After SIGINT, SIGTERM or a call to stop from a signal handler at any moment, before or while the server runs, the server loop finishes its current round, begins no further one, returns, and the listening socket, the poller and (with the server) every connection are closed. No stop request is lost or taken back, and the loop never waits for more than a second, so this happens promptly when no request handler is running. Nothing but such a request ends the loop; a SIGPIPE is such a request exactly when standard output or standard error has no reader any more, so that a client that went away never stops the server.",
 ["schedules"],"all points in time at which the signal arrives",
 "System tests send one signal to an idle server.",
 ["lib/http2_server.cpp","app/signal_handler.cpp"],
 [("Http2Server::stop, start","lib/http2_server.cpp"),("SignalHandler","app/signal_handler.cpp")],
 ["process exit"])
p("C27","One slow or hostile client never delays the others without bound",
 "Whatever one client sends or fails to read, every other connected client's requests are answered within a bounded time, and the time and memory spent per client are bounded.",
 ["schedules","inputs"],"all behaviours of the other clients",
 "Liveness under adversarial scheduling cannot be sampled.",
 ["lib/http2_server.cpp","lib/http2_conn.cpp"],
 [("Http2Server::start, Http2Connection::internal_process","lib/http2_server.cpp")],
 ["response latency"])
p("C28","Every request is traced by exactly one finished span",
 "Each request (a HEADERS frame whose field block decodes) starts exactly one span, named http_request, carrying the request's method, target and client address (when it has a method and a path) and the status it is answered with. The span is current while the handler runs and while the request is logged, and is ended exactly once, after the response has been queued; whatever the frame, no span stays current or unended. A log line written through the trace id flag starts with the current span's trace id in brackets, and with nothing when no span is current.",
 ["inputs","histories"],"all requests",
 "One system test checks one request against a fake collector.",
 ["lib/http2_conn.cpp","app/trace_id_flag.cpp"],
 [("Http2Connection::process_frame","lib/http2_conn.cpp"),("TraceIdFlag::format","app/trace_id_flag.cpp")],
 ["spans started, their attributes and end"])
p("C29","A started server listens on exactly the port asked for, or fails to start",
 "For every port, starting the server opens an IPv4 TCP socket that does not block and may reuse its address at once, binds it to exactly that port on every interface and listens on it before the first round; if the system refuses any of these steps, starting fails with an exception and no descriptor stays open. A connection accepted is a socket that does not block; having none to accept (or being interrupted) is not an error, every other failure is reported. The client address of a connection is the whole address of the peer, IPv4 or IPv6, or an error when the system gives none.",
 ["inputs","fault_sequences"],"all ports, system call results and peer addresses",
 "System tests start one server on a free port; no test refuses a system call.",
 ["lib/tcp_listener.cpp","lib/socket_fd.cpp","lib/http2_server.cpp"],
 [("TcpListener::TcpListener, listen, try_accept","lib/tcp_listener.cpp"),("SocketFd::client_ip","lib/socket_fd.cpp"),("Http2Server::start","lib/http2_server.cpp")],
 ["state of the listening and accepted sockets","exceptions"])
p("C30","Every command-line option has exactly its documented effect on the server",
 "The program serves on the port given, at the log level given, and the status page, the internal test routes, the static mapping, the custom 404 page and the access log are there exactly when their options are given. With a custom 404 page every response with status 404, whatever made it, is replaced by that page with status 404 (without a body for HEAD), and every other response passes unchanged. The process gives up gaining privileges and is ready for signals before it serves, and it ends with status 0 after a normal end and with another status after a failure or refused options.",
 ["configurations","inputs"],"all combinations of options, requests and handlers",
 "System tests start the program with a few combinations of options.",
 ["app/main.cpp","app/proc_ctrl.cpp","app/test_routes.cpp"],
 [("run_server, setup_access_logs, main","app/main.cpp"),("ProcessControl::enable_no_new_privs","app/proc_ctrl.cpp"),("TestRoutes::add_test_routes","app/test_routes.cpp")],
 ["routes and mappings served","responses","exit status"])
p("C31","TLS selects HTTP/2 for every client and releases every TLS object once",
 "Whatever list of application protocols a TLS client offers, the protocol the server selects is h2 and no other, and a client that offers h2 gets a working connection. Every TLS context and every TLS object of a connection is released exactly once: when its set-up fails at any step, or with its owner. The TLS object of a connection belongs to the server's context and reads and writes that connection's descriptor. Session keys are written only when SSLKEYLOGFILE names a file: then each line is appended to it once, and what the file held stays.",
 ["inputs","fault_sequences"],"all protocol offers, set-up failures and key-log settings",
 "System tests connect with clients that offer h2; no test makes a TLS call fail.",
 ["lib/transports/tls_context.cpp","lib/transports/tls_transport.cpp"],
 [("TlsContext::alpn_callback, TlsContext, ~TlsContext, create_ssl","lib/transports/tls_context.cpp"),("TlsTransport::TlsTransport, ~TlsTransport","lib/transports/tls_transport.cpp")],
 ["protocol selected in the handshake","SSL_CTX and SSL objects made and released","key log file"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,x['id']
        f.write(json.dumps(x)+'\n')
print(len(P))
