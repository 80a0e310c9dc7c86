#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=list(over), text=" ".join(qtext.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "HPACK integers survive encoding",
 """For every 32-bit value and every prefix width from 1 to 8 bits, the integer encoder emits exactly the
 RFC 7541 section 5.1 byte sequence with the bits above the prefix clear, and the integer decoder reads that
 sequence back to the same value, consuming exactly those bytes and nothing after them.""",
 ["inputs"], "all values 0..2^32-1, all prefix widths 1..8, any bits above the prefix, any trailing bytes",
 "Tests encode and decode a dozen sample values; the boundaries (2^N-1, powers of 128, 2^32-1) times eight widths are not sampled.",
 ["lib/hpack/int_encoder.cpp", "lib/hpack/int_decoder.cpp", "lib/hpack/byte_reader.cpp"],
 [("prefix / 7-bit continuation loop", "lib/hpack/int_encoder.cpp"), ("prefix mask and shift loop", "lib/hpack/int_decoder.cpp")],
 observe=["ion::IntegerEncoder::encode", "ion::IntegerDecoder::decode"])

prop("C02", "HPACK integer decoding never yields a wrong value",
 """Given arbitrary bytes and any prefix width from 1 to 8, the integer decoder either returns the exact mathematical
 value of the encoded integer, having consumed exactly its bytes, or reports an error; it never wraps, truncates or
 reads outside the bytes it was given. It reports an error exactly when the bytes run out, when the value exceeds
 2^32-1, or when more than five continuation bytes are used.""",
 ["inputs"], "every byte string of up to 8 bytes, every prefix width 1..8",
 "Tests try a handful of sequences including one overflow; wrap-around and shift errors hide at particular bit patterns of the last continuation byte.",
 ["lib/hpack/int_decoder.cpp", "lib/hpack/byte_reader.cpp"],
 [("shift limit and overflow guard", "lib/hpack/int_decoder.cpp")], observe=["ion::IntegerDecoder::decode"])

prop("C03", "Header strings are encoded so that any peer reads the same bytes",
 """Every header name and value the server sends, whatever bytes it contains (including bytes of 0x80 and above) and
 whatever its length, is emitted as an RFC 7541 string literal (plain, or Huffman coded with the RFC code table and
 all-ones padding) with a correct length prefix, so that a conforming decoder, and ion's own decoder, recovers exactly the same bytes.""",
 ["inputs"], "all byte contents of header names and values; lengths around every encoding boundary",
 "Tests encode four short ASCII strings; they never use a byte above 0x7f, most of the 256 codes, or strings whose coded length needs a multi-byte prefix.",
 ["lib/hpack/header_block_encoder.cpp", "lib/hpack/bit_writer.h", "lib/hpack/huffman_codes.h", "lib/hpack/huffman_tree.cpp"],
 [("per-character Huffman code lookup and bit packing", "lib/hpack/header_block_encoder.cpp"), ("bit packing and padding", "lib/hpack/bit_writer.h"), ("code table", "lib/hpack/huffman_codes.h")],
 observe=["ion::HeaderBlockEncoder::encode", "ion::HeaderBlockDecoder::decode"])

prop("C04", "Huffman decoding accepts only valid encodings and decodes them exactly",
 """For arbitrary bytes, Huffman decoding either fails or returns the unique string whose RFC 7541 encoding is exactly
 those bytes; in particular padding longer than 7 bits, padding that is not all ones, and the EOS code are rejected, and every valid encoding is accepted.""",
 ["inputs"], "every byte string up to the bound, every position of a symbol relative to byte boundaries",
 "One test decodes all symbols once, one rejects a bad code in a toy tree; the space of bit strings is not sampled.",
 ["lib/hpack/huffman_tree.cpp", "lib/hpack/bit_reader.h", "lib/hpack/huffman_codes.h", "lib/hpack/header_block_decoder.cpp"],
 [("tree walk", "lib/hpack/huffman_tree.cpp"), ("tree population", "lib/hpack/header_block_decoder.cpp")],
 observe=["ion::HuffmanTree::decode", "ion::HeaderBlockDecoder::decode"])

prop("C05", "Header blocks decode as RFC 7541 says, whatever their bytes",
 """For every byte sequence received as a header block and every dynamic table state, decoding yields exactly the header
 list and the dynamic table that RFC 7541 prescribes, or fails with an error; malformed blocks (truncated, index zero,
 index past the tables, overlong or overflowing integers) always fail and never produce a header. Only literals with
 incremental indexing enter the dynamic table; never-indexed and without-indexing literals do not.""",
 ["inputs", "histories"], "arbitrary header block bytes up to the bound, over pre-populated dynamic tables; sequences of blocks",
 "Tests decode about twenty fixed blocks; malformed bytes after a valid start, index arithmetic around 61/62 and integer errors inside fields are not covered.",
 ["lib/hpack/header_block_decoder.cpp", "lib/hpack/header_field.h", "lib/hpack/header_static_table.h", "lib/hpack/dynamic_table.cpp"],
 [("representation dispatch", "lib/hpack/header_field.h"), ("index resolution", "lib/hpack/header_block_decoder.cpp")],
 state=[("dynamic table", "headers the peer may reference", "lib/hpack/dynamic_table.h")],
 observe=["ion::HeaderBlockDecoder::decode", "ion::DynamicTable"])

prop("C06", "Header compression stays in step with a conforming peer",
 """For any history of header lists sent over one connection, a conforming HPACK decoder using the protocol's default
 4096-byte table reads back every list exactly as the application supplied it, in order. This holds however many entries have been
 added, evicted or referenced, including for indices that need more than one byte.""",
 ["histories", "inputs"], "sequences of header lists with arbitrary names, values and repetitions",
 "Tests encode at most two lists with one dynamic entry; index widths, eviction and table-size disagreement only appear after many entries.",
 ["lib/hpack/header_block_encoder.cpp", "lib/hpack/dynamic_table.cpp", "lib/http2_conn.h"],
 [("static/dynamic lookup and index emission", "lib/hpack/header_block_encoder.cpp"), ("insertion and eviction", "lib/hpack/dynamic_table.cpp"), ("encoder table size", "lib/http2_conn.h")],
 state=[("encoder dynamic table", "what the encoder believes the peer's table holds", "lib/http2_conn.h")],
 observe=["ion::HeaderBlockEncoder::encode", "bytes written by ion::Http2Connection"])

prop("C07", "The dynamic table is a size-bounded FIFO with exact accounting",
 """After any sequence of insertions and maximum-size changes, the dynamic table's reported size equals the sum over its
 entries of name length + value length + 32 and never exceeds the current maximum. It holds exactly the longest most-recent
 suffix of the insertions that RFC 7541 eviction leaves, newest at index 0, and lookup by header or by name returns the
 lowest matching index or nothing.""",
 ["histories", "inputs"], "all operation sequences up to the bound with arbitrary maximum sizes and entry sizes",
 "Tests run seven fixed sequences of up to three inserts; eviction boundaries (exact fit, one over, entry larger than table) combine in ways they do not enumerate.",
 ["lib/hpack/dynamic_table.cpp", "lib/hpack/dynamic_table.h"],
 [("eviction loop", "lib/hpack/dynamic_table.cpp"), ("size update", "lib/hpack/dynamic_table.cpp")],
 state=[("table size", "sum of entry sizes", "lib/hpack/dynamic_table.h")], observe=["ion::DynamicTable"])

prop("C08", "A peer cannot make header decoding exceed its resource limits",
 """Whatever a peer sends, no header name or value longer than 4096 bytes (measured after Huffman decoding) sent as a literal is accepted
 while literals of up to 4096 bytes are, a dynamic table size update above 65536 is refused while one of up to 65536 is honoured, and the decoder's dynamic table never
 holds more than 65536 bytes by RFC accounting.""",
 ["inputs", "histories"], "literal lengths around the limit in plain and Huffman form; all size-update values; histories of large insertions",
 "One test sends one over-long string and one over-large size update; off-by-one, the Huffman expansion path and accumulated insertions are not reached.",
 ["lib/hpack/header_block_decoder.cpp", "lib/hpack/dynamic_table.cpp", "lib/hpack/dynamic_table.h"],
 [("string length limit", "lib/hpack/header_block_decoder.cpp"), ("hard table limit", "lib/hpack/dynamic_table.h")],
 observe=["ion::HeaderBlockDecoder::decode", "ion::DynamicTable::size"])

prop("C09", "HTTP/2 frame fields survive serialisation",
 """Serialising then parsing a frame header, a setting, a GOAWAY payload or a WINDOW_UPDATE payload gives back every field
 value that fits its wire width, in network byte order at the offsets of RFC 9113, with the reserved bit sent as zero
 and ignored on receipt; a SETTINGS payload yields exactly its entries in order, and is refused when its length is not a multiple of six.""",
 ["inputs"], "all field values; all byte contents; all SETTINGS payload lengths up to the bound",
 "Two fixed frame headers are parsed in tests; serialisation is never tested.",
 ["lib/http2_frames.h", "lib/http2_frame_reader.cpp", "lib/http2_frame_reader.h"],
 [("big-endian load/store helpers", "lib/http2_frames.h")],
 observe=["ion::Http2FrameHeader", "ion::Http2Setting", "ion::Http2GoAwayPayload", "ion::Http2WindowUpdate", "ion::Http2FrameReader"])

prop("C10", "Malformed frames are refused and optional HEADERS fields never leak",
 """A frame whose payload is too short for its type and flags (WINDOW_UPDATE not 4 bytes, GOAWAY under 8 bytes, HEADERS shorter than the
 priority fields or padding it declares, SETTINGS not a multiple of six) ends the connection without reading outside the
 frame. A well-formed HEADERS frame produces the same request whether or not it carries padding and priority fields.""",
 ["inputs"], "every frame type, every flag byte, every stream id, payload lengths 0..bound, arbitrary payload bytes",
 "Tests parse two valid frames; no test feeds the connection a malformed frame of any type.",
 ["lib/http2_conn.cpp", "lib/http2_frame_reader.h", "lib/http2_frame_reader.cpp"],
 [("frame dispatch", "lib/http2_conn.cpp"), ("payload accessors", "lib/http2_frame_reader.h")],
 observe=["ion::Http2Connection::process", "ion::Http2FrameReader"])

prop("C11", "No bytes a peer sends can crash the server or exhaust its buffers",
 """For any byte stream, processing a connection ends each step by asking to read, asking to write, or discarding
 the connection: no memory access outside live objects, no undefined operation, no escaping exception and no endless loop, and never more than
 64 KiB of received data is held unprocessed.""",
 ["inputs", "histories"], "arbitrary bytes after any prefix of a valid session, in arbitrary read sizes",
 "The connection is not exercised by the tests that run; a crash needs one particular malformed byte in one particular state.",
 ["lib/http2_conn.cpp", "lib/http2_frame_reader.h", "lib/hpack/header_block_decoder.cpp"],
 [("buffer limits and frame loop", "lib/http2_conn.cpp")],
 state=[("read buffer", "received, unprocessed bytes", "lib/http2_conn.h")],
 observe=["ion::Http2Connection::process with a scripted ion::Transport"])

prop("C12", "How the input is segmented does not change the conversation",
 """For a given stream of received bytes, the sequence of requests delivered to handlers, the bytes sent back and whether the
 connection is ended are the same however the bytes are split across reads and however often a read would block in between.
 When the connection goes back to waiting for input, no complete frame is left unprocessed.""",
 ["schedules", "inputs"], "all splittings of the input into reads, with would-block results in between",
 "TCP segmentation is chosen by the network; tests deliver whole frames.",
 ["lib/http2_conn.cpp"],
 [("frame reassembly in the read buffer", "lib/http2_conn.cpp")],
 state=[("read buffer", "partial frames", "lib/http2_conn.h")],
 observe=["ion::Http2Connection::process", "bytes written"])

prop("C13", "Nothing is served before the exact HTTP/2 preface",
 """No frame is processed and no byte is sent until the transport handshake has completed and the exact 24-byte client preface has arrived; any other first
 24 bytes discard the connection without a response. Once the preface is accepted the first frame sent is a single
 non-ACK SETTINGS frame on stream 0 announcing the maximum frame size of 16384 that the server enforces.""",
 ["inputs", "schedules"], "all 24-byte openings, all handshake outcomes and read splits",
 "No running test performs the preface exchange; a comparison that skips or shortens a byte would go unnoticed.",
 ["lib/http2_conn.cpp"], [("preface check and initial SETTINGS", "lib/http2_conn.cpp")],
 state=[("connection state", "handshake, preface, frames, closing", "lib/http2_conn.h")],
 observe=["ion::Http2Connection::process", "bytes written"])

prop("C14", "Every SETTINGS frame is acknowledged exactly once",
 """For any sequence of frames, the connection sends exactly one empty SETTINGS ACK on stream 0 for each well-formed non-ACK SETTINGS
 frame received, in order, and none for ACKs, for malformed SETTINGS or for other frame types. Frames of unknown type and
 flow-control updates produce no output.""",
 ["inputs", "histories"], "sequences of frames of arbitrary type, flags, settings identifiers and values",
 "No running test exchanges SETTINGS.",
 ["lib/http2_conn.cpp", "lib/http2_frame_reader.cpp"], [("SETTINGS handling", "lib/http2_conn.cpp")],
 observe=["bytes written by ion::Http2Connection"])

prop("C15", "Each request gets exactly one complete, well-formed response",
 """For every HEADERS frame that decodes to a request, exactly one response is sent on that request's stream, in request
 order: one HEADERS frame with END_HEADERS carrying the handler's status and headers, then DATA frames, each non-empty and of
 at most 16384 bytes, whose payloads concatenate to exactly the handler's body. END_STREAM appears once, on the last frame of the response, and
 content-length, when the body is not empty, equals the body's length.""",
 ["inputs", "histories"], "all status codes, body contents, body lengths around frame boundaries, stream ids, several requests per connection",
 "End-to-end tests are not run here and use four fixed bodies; chunk-boundary and END_STREAM errors need particular lengths.",
 ["lib/http2_conn.cpp", "lib/http2_frames.h"],
 [("response writing and chunking", "lib/http2_conn.cpp"), ("request processing", "lib/http2_conn.cpp")],
 observe=["bytes written by ion::Http2Connection"])

prop("C16", "A protocol violation ends the connection and nothing after it is served",
 """After a frame longer than 16384 bytes is announced, or a header block fails to decode, or a malformed SETTINGS frame or a GOAWAY is received,
 the connection is discarded once output already owed has been flushed: no later byte of input reaches a handler or produces a response frame.
 An oversized frame is refused from its header alone, without waiting for its payload.""",
 ["inputs", "histories"], "every violating frame at every position in a sequence, followed by arbitrary further frames",
 "Tests of the decoder check single error returns; what the connection does with them is untested here.",
 ["lib/http2_conn.cpp"], [("error state transitions", "lib/http2_conn.cpp")],
 state=[("connection state", "ProtocolError / ClientClosed", "lib/http2_conn.h")],
 observe=["ion::Http2Connection::process"])

prop("C17", "Queued output is delivered exactly once and in order",
 """Whatever sequence of full writes, partial writes and would-block results the transport gives, the bytes accepted by the
 transport are a prefix of the response byte stream without loss, duplication or reordering. The connection asks for
 write readiness exactly while bytes remain unsent, reads no further input meanwhile, and after a fatal write error it is discarded and writes nothing more.""",
 ["schedules", "fault_sequences"], "all patterns of write results over several process steps",
 "Kernel buffer exhaustion cannot be scheduled by tests; none of those that run writes to a socket.",
 ["lib/http2_conn.cpp", "lib/transports/tcp_transport.cpp"],
 [("write buffer flush", "lib/http2_conn.cpp"), ("partial write result", "lib/transports/tcp_transport.cpp")],
 state=[("write buffer", "bytes not yet accepted by the transport", "lib/http2_conn.h")],
 observe=["ion::Http2Connection::process with a scripted transport", "ion::TcpTransport::write"])

prop("C18", "A failing handler or incomplete request costs only that request",
 """A handler that throws anything yields a 500 response and a request without a method or path yields a 400 response, each carrying its
 :status header; in both cases the connection stays usable, later requests on it are answered normally, and no
 exception leaves the server.""",
 ["inputs", "histories"], "requests with every subset of pseudo-headers and handlers that return or throw, in sequence",
 "No running test has a throwing handler or a request without a path.",
 ["lib/http2_conn.cpp"], [("request processing and exception mapping", "lib/http2_conn.cpp")],
 observe=["bytes written by ion::Http2Connection"])

prop("C19", "Idle connections time out, active ones do not",
 """A connection is reported as timed out exactly when more than five seconds have passed since it was created or since it last completed its
 handshake, received bytes or managed to send bytes, whichever is latest. Attempts that transfer nothing do not extend its life.""",
 ["schedules", "histories"], "all clock advances between all sequences of transport outcomes",
 "Tests would have to sleep; the boundary and the non-events that must not count are not exercised.",
 ["lib/http2_conn.cpp"], [("activity timestamp", "lib/http2_conn.cpp")],
 state=[("last activity", "time of last progress", "lib/http2_conn.h")], observe=["ion::Http2Connection::has_timed_out"])

prop("C20", "The server bounds and accounts for its connections",
 """At no time are more than 128 client connections served; a client beyond that is accepted and closed at once without affecting the others, and
 each discarded, failed, hung-up or idle connection frees its place and its socket so that a new client can be
 served. Every socket accepted is closed exactly once, and only sockets of live connections remain registered for readiness.""",
 ["histories", "schedules"], "all interleavings of arrivals, readiness events, failures and timeouts up to the bound",
 "Needs over a hundred clients and particular event orders; no running test starts a server.",
 ["lib/http2_server.cpp", "lib/pollers/epoll_poller.cpp", "lib/socket_fd.cpp"],
 [("connection map and capacity check", "lib/http2_server.cpp"), ("idle reaping", "lib/http2_server.cpp")],
 state=[("connection map", "live connections by descriptor", "lib/http2_server.h")],
 observe=["socket and epoll system calls made by ion::Http2Server::start"])

prop("C21", "A failing client or transient accept error never stops the server",
 """Whatever a client or the network does (resets, malformed data, hang-ups, failed handshakes, aborted or refused accepts, exhausted descriptors, interrupted calls), the server
 keeps running and keeps serving its other connections. It leaves its serving loop only because a stop was requested.""",
 ["fault_sequences", "histories"], "every errno of accept, read, write, epoll_wait and getpeername at every point",
 "Fault injection at system-call level is not part of the test suite.",
 ["lib/http2_server.cpp", "lib/tcp_listener.cpp", "lib/http2_conn.cpp"],
 [("accept error handling", "lib/tcp_listener.cpp"), ("event loop", "lib/http2_server.cpp")],
 observe=["ion::Http2Server::start"])

prop("C22", "A stop request ends the serving loop promptly",
 """Once a stop is requested, at any point, the server leaves its serving loop without waiting for clients: it starts no further
 wait for events after the current one, and releases the listening socket and all client sockets exactly once when it is destroyed.
 SIGINT and SIGTERM request a stop; SIGPIPE does so only when standard output or error is broken.""",
 ["schedules"], "the stop arriving during any step of the loop; every outcome of the standard-stream probes",
 "Signal timing cannot be controlled by tests; none of those that run starts the server.",
 ["lib/http2_server.cpp", "app/signal_handler.cpp"],
 [("termination flag", "lib/http2_server.cpp"), ("signal handlers", "app/signal_handler.cpp")],
 observe=["ion::Http2Server::start", "SignalHandler"])

prop("C23", "The readiness pollers report and register exactly what was asked",
 """For every sequence of set and remove calls, with descriptors being closed and reused in between, each poller watches exactly the descriptors currently set with exactly the
 requested read/write interest. Every event reported by the system for them is delivered exactly once with readable, writable,
 hang-up and error conditions mapped one to one, and time-outs, interruptions and failures are reported as such.""",
 ["histories", "inputs"], "all sequences of operations up to the bound, all event masks, all poll results",
 "Pollers have no tests at all.",
 ["lib/pollers/epoll_poller.cpp", "lib/pollers/poll_poller.cpp", "lib/pollers/poller.h"],
 [("interest bookkeeping", "lib/pollers/epoll_poller.cpp"), ("event mapping", "lib/pollers/poll_poller.cpp")],
 state=[("registered descriptors", "what the poller believes is registered", "lib/pollers/epoll_poller.h")],
 observe=["ion::EPollPoller", "ion::PollPoller"])

prop("C24", "The cleartext transport reports socket results faithfully",
 """A read or write on a cleartext connection passes the caller's buffer to the socket once, and reports exactly the number of bytes the
 system moved, would-block when nothing could be moved now, end of stream when the peer closed, and an error otherwise. A short
 write is reported as progress, never as a failure.""",
 ["inputs", "fault_sequences"], "every return value and errno of read and write",
 "Transports have no tests; short writes and errno values cannot be provoked on demand.",
 ["lib/transports/tcp_transport.cpp"], [("result mapping", "lib/transports/tcp_transport.cpp")],
 observe=["ion::TcpTransport"])

prop("C25", "The TLS transport reports TLS results faithfully and in isolation",
 """A TLS read, write or handshake reports success with exactly the bytes moved, would-block when TLS wants more I/O, closure when
 the peer closed, and failure otherwise, according to that operation alone. An error left behind by an earlier operation, on this or any other connection, never makes
 a healthy connection fail.""",
 ["fault_sequences", "histories"], "every TLS library result and error class, with every earlier error still queued",
 "Needs specific failures of one peer followed by I/O on another; no running test uses TLS.",
 ["lib/transports/tls_transport.cpp", "lib/transports/tls_context.cpp"],
 [("TLS result mapping", "lib/transports/tls_transport.cpp")],
 state=[("error queue", "per-thread errors of the TLS library", "OpenSSL")], observe=["ion::TlsTransport"])

prop("C26", "Descriptors and TLS sessions are released exactly once",
 """Over any sequence of construction, move, assignment, explicit close and destruction of socket, transport and TLS session
 owners, each descriptor is closed exactly once and each TLS session freed exactly once, never while another owner still
 uses it, and never leaked.""",
 ["histories"], "all sequences of ownership operations over several objects, including self-moves",
 "Double close is silent in tests and only bites when the number has been reused.",
 ["lib/socket_fd.cpp", "lib/transports/tcp_transport.cpp", "lib/transports/tls_transport.cpp"],
 [("move operations and destructors", "lib/socket_fd.cpp")], observe=["close and SSL_free calls"])

prop("C27", "Static serving never escapes the configured directory",
 """Whatever path a client requests (dot-dot, absolute, doubled slashes, symbolic links, sibling directories sharing a name
 prefix, embedded NUL or query strings), the file opened for it, after resolving links, lies inside the configured directory; otherwise the
 request is refused and no file is opened.""",
 ["inputs", "configurations"], "all request paths up to the bound over a file tree with links, siblings and files outside; several forms of the configured directory",
 "Four fixed paths are tested; escapes depend on particular combinations of segments and links.",
 ["lib/file_reader.cpp", "lib/static_file_handler.cpp"],
 [("path canonicalisation and component comparison", "lib/file_reader.cpp"), ("URL to path mapping", "lib/static_file_handler.cpp")],
 observe=["ion::StaticFileHandler::handle", "ion::FileReader::sanitize_path", "paths opened"])

prop("C28", "Static responses carry exactly the file's bytes",
 """A GET for a readable regular file under the static prefix returns 200 with exactly the file's bytes and a content type derived from its
 extension; a HEAD returns the same status and type with a content-length equal to the GET body's size and no body; a
 missing, unreadable or non-regular target gives 404 and a failed read an error status. A query string never changes which file is served, and the bare prefix (with or without a slash) serves
 index.html.""",
 ["inputs", "fault_sequences"], "file sizes and contents, request paths and query strings, read failures",
 "Integration tests are not run here and use two files.",
 ["lib/static_file_handler.cpp", "lib/file_reader.cpp"],
 [("file response construction", "lib/static_file_handler.cpp"), ("file reading", "lib/file_reader.cpp")],
 observe=["ion::StaticFileHandler::handle"])

prop("C29", "Requests are routed by exact path and method, first match first",
 """For any set of registered routes and static mappings, a request is answered by the first registered route whose path and method both equal the
 request's. Failing that, a GET or HEAD under a static prefix is answered by a static mapping and anything else gets 404;
 the handler obtained stays valid independently of the strings used to look it up.""",
 ["inputs", "configurations"], "arbitrary route tables and request paths/methods",
 "Three lookups are tested in a fixed table, none with static mappings.",
 ["lib/router.cpp", "lib/router.h"], [("lookup loop", "lib/router.cpp")], observe=["ion::Router::get_handler"])

prop("C30", "Middleware wraps every request, in registration order",
 """Every request, whether served by a route, a static mapping or the 404 fallback, passes through every registered
 middleware exactly once, the first registered being outermost; a middleware may replace the response or not call
 the next one, and the response finally returned is the outermost one's.""",
 ["histories", "configurations"], "any number of middlewares up to the bound with arbitrary behaviours, any route kind",
 "Two tests use a single middleware on the fallback handler.",
 ["lib/router.cpp"], [("chain composition", "lib/router.cpp")], observe=["ion::Router::get_handler", "ion::Router::add_middleware"])

prop("C31", "Each request is one faithful access-log line",
 """Each answered request appends exactly one line to the access log in combined log format, with the client address, method, path, status, body
 length, referrer and user agent of that request (a dash when absent). No header content chosen by a client can add a line
 break or other control character to it.""",
 ["inputs"], "arbitrary header values including control characters and quotes",
 "No running test looks at the access log; injection needs control bytes in header values.",
 ["lib/access_log.cpp", "lib/http2_conn.cpp"], [("log entry formatting", "lib/access_log.cpp")], observe=["access logger output"])

prop("C32", "A TLS server never starts without certificate and key",
 """A server configured for TLS refuses to start unless both a certificate path and a key path were given, and one
 configured for cleartext starts without either; command-line options map to that configuration unchanged, an option not given being
 left unset.""",
 ["configurations"], "all combinations of options",
 "No running test covers configuration.",
 ["lib/server_config.cpp", "app/args.cpp"], [("validation", "lib/server_config.cpp"), ("option mapping", "app/args.cpp")],
 observe=["ion::ServerConfiguration::validate", "Args::to_server_config"])

prop("C33", "Server statistics count every request and its status",
 """With the status page enabled, after any sequence of routed requests the request counter equals the number of requests handled and
 the per-status counters equal the numbers of responses of each status (500 when the handler failed), their sum never exceeding the request counter, and the responses themselves
 are unchanged. The displayed uptime denotes exactly the elapsed seconds.""",
 ["histories", "inputs"], "sequences of requests with arbitrary statuses; all durations",
 "Statistics have no tests.",
 ["app/server_stats.cpp", "app/status_page.cpp"], [("counting middleware", "app/server_stats.cpp"), ("duration formatting", "app/status_page.cpp")],
 observe=["ServerStats", "/_ion/status"])

prop("C34", "TLS protocol negotiation always settles on h2 within the offered bytes",
 """For any protocol list a client offers during the TLS handshake, negotiation selects the two-byte protocol name h2,
 never fails the handshake, and reads only the bytes offered.""",
 ["inputs"], "arbitrary ALPN protocol lists up to the bound",
 "No running test performs a TLS handshake.",
 ["lib/transports/tls_context.cpp"], [("ALPN callback", "lib/transports/tls_context.cpp")], observe=["ALPN selection callback"])

prop("C35", "The program does what its command line asks and nothing else",
 """Started from its command line, the server listens on the port given (8443 when none is), serves the static directory under the
 prefix given, writes the access log to the file given, and offers the status page and the internal test routes exactly when asked
 to; it gives up gaining privileges before it serves anybody. With a custom 404 page every 404 answer carries that file's bytes with
 status 404 (none for HEAD) and all other answers are unchanged. Log levels are accepted in any case; a command line that is not valid ends
 the program with an error before it listens.""",
 ["configurations", "inputs"], "all combinations of options; all port numbers and level spellings",
 "No running test starts the program.",
 ["app/main.cpp", "app/args.cpp", "app/test_routes.cpp", "app/proc_ctrl.cpp"], [("wiring of options", "app/main.cpp"), ("option parsing", "app/args.cpp")],
 observe=["main()", "responses on a connection"])

prop("C36", "TLS secrets are written only where SSLKEYLOGFILE says",
 """The secrets of TLS sessions are written nowhere unless the environment variable SSLKEYLOGFILE is set; when it is, each key log line is appended
 to that file, whole and in order, what was in the file before stays, and failing to write it disturbs nothing.""",
 ["inputs", "faults"], "arbitrary lines, file contents and file errors",
 "No running test performs a TLS handshake or sets the variable.",
 ["lib/transports/tls_context.cpp"], [("key log callback", "lib/transports/tls_context.cpp")], observe=["key log file"])

prop("C37", "Handlers receive exactly the request the client sent",
 """For every HEADERS frame that decodes to a complete request, the handler chosen, and every middleware, receives exactly the method and path sent and the
 complete list of header fields, byte for byte and in the order sent, whatever their representation (literal or indexed, plain or Huffman
 coded), their number and length within the limits, or the padding, priority fields and flags of the frame; nothing of another request or of other frames is in it.""",
 ["inputs", "histories"], "arbitrary methods, paths, field names and values; every representation; sequences of requests sharing the dynamic table",
 "No running test sends a request through a connection.",
 ["lib/http2_conn.cpp", "lib/http2_frame_reader.h", "lib/hpack/header_block_decoder.cpp", "lib/router.cpp"], [("building of the request", "lib/http2_conn.cpp"), ("header block of a frame", "lib/http2_frame_reader.h")],
 observe=["HttpRequest given to handlers and middleware"])

prop("C38", "What happens on one connection does not depend on any other",
 """For any interleaving of the traffic of several connections, each connection sends exactly the bytes and ends exactly when it would if it were the only
 one; header compression state, unsent output, failures and the memory or descriptor number of an earlier connection never carry over to another.""",
 ["schedules", "histories"], "every interleaving of the pieces of two or three conversations, including ones that fail; connections replaced by later ones",
 "Tests never have two connections.",
 ["lib/http2_conn.cpp", "lib/http2_server.cpp", "lib/hpack/header_block_decoder.cpp", "lib/hpack/header_block_encoder.cpp", "lib/hpack/dynamic_table.cpp"], [("per-connection state", "lib/http2_conn.h")],
 observe=["bytes sent on each connection"])

prop("C39", "Each request is traced as one span",
 """Unless OTEL_SDK_DISABLED is exactly "true", traces are exported for the service ion-server, and each request with a decodable header block is one span
 named http_request in a trace of its own, over when the request has been answered even if its handler failed; for a request with method and path it carries that method, target, client
 address and response status. Messages logged for a request, and only those, carry its trace id. When telemetry is disabled nothing is exported and requests are
 answered all the same.""",
 ["inputs", "histories", "configurations"], "arbitrary requests of every outcome in any sequence, on several connections; all values of the variable",
 "Tracing has no running tests.",
 ["lib/http2_conn.cpp", "app/telemetry.cpp", "app/trace_id_flag.cpp", "app/main.cpp"], [("span of a request", "lib/http2_conn.cpp"), ("set-up of the exporter", "app/telemetry.cpp"), ("log flag", "app/trace_id_flag.cpp")],
 observe=["spans given to OpenTelemetry", "log lines"])

prop("C40", "A server that cannot start says so and leaves nothing behind",
 """If any system call needed to create, configure, bind, listen on or watch the listening socket fails, starting the server fails with a std::exception (the program
 ends with a failure status) before any client is served and without waiting; every descriptor opened by then is closed exactly once, and a later start on the same server object
 can succeed. A start that meets no failure serves.""",
 ["faults"], "a failure of every start-up system call with every error number",
 "No running test starts a server; failures of these calls need fault injection.",
 ["lib/http2_server.cpp", "lib/tcp_listener.cpp", "lib/pollers/epoll_poller.cpp", "app/main.cpp"], [("creation of the listener", "lib/tcp_listener.cpp"), ("creation of the poller", "lib/pollers/epoll_poller.cpp")],
 observe=["Http2Server::start", "exit status"])

prop("C41", "Over TLS a client is served exactly as in cleartext",
 """For every division of a client's bytes into TLS records, of the records into network arrivals, and for any blocking of output, a TLS client receives as plaintext exactly
 the bytes it would receive in cleartext, and its connection ends exactly when it would; a handshake the client completes is completed, however it is
 divided; the server never goes back to waiting for the network while decrypted data is unread.""",
 ["inputs", "schedules"], "every division of bytes into records and arrivals, every point of blocking",
 "No running test opens a TLS connection.",
 ["lib/transports/tls_transport.cpp", "lib/http2_conn.cpp", "lib/http2_server.cpp"], [("TLS transport", "lib/transports/tls_transport.cpp"), ("handshake", "lib/http2_conn.cpp"), ("draining of pending data", "lib/http2_server.cpp")],
 observe=["plaintext received over TLS", "cleartext bytes received"])

prop("C42", "Closing a connection delivers what is owed and says goodbye once",
 """After Http2Connection::close() the client still receives everything queued before, then exactly one GOAWAY on stream 0 without error,
 and nothing after it; the sending side is shut down once, only when all of that is delivered, and the connection is then reported finished. Nothing the client sends after the closing is
 served, and closing again changes nothing.""",
 ["schedules", "histories"], "a close at any point of any conversation, with any blocking of output and anything arriving afterwards",
 "No running test closes a connection.",
 ["lib/http2_conn.cpp", "lib/http2_frame_writer.cpp", "lib/transports/tcp_transport.cpp", "lib/transports/tls_transport.cpp"], [("close and delivery", "lib/http2_conn.cpp"), ("shutdown of the transport", "lib/transports")],
 observe=["bytes sent on the connection", "shutdown of the sending side"])

prop("C43", "Memory does not grow with the service given",
 """The memory a server holds does not grow with the number of frames, requests or clients it has served, and everything held for a connection is given back when the
 connection ends, however it ends; a client that takes no output can make the server hold only a bounded amount.""",
 ["histories"], "conversations of any length, connections of any number, every way of ending",
 "Growth shows only over long histories.",
 ["lib/http2_conn.cpp", "lib/http2_server.cpp", "lib/hpack/dynamic_table.cpp", "lib/transports", "lib/pollers"], [("connection state", "lib/http2_conn.h"), ("server's table of connections", "lib/http2_server.cpp")],
 observe=["memory allocated"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
