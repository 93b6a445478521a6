#!/usr/bin/env python3
"""Writes properties.jsonl from the definitions below (the single place they are edited)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,obs,state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))
I="inputs";S="schedules";H="histories";CFG="configurations";F="fault_sequences";CR="crash_points"

p("C01","HTTP/1 server delimits requests exactly as the framing rules say",
"For every byte stream a peer sends to an HTTP/1 server connection, the requests handed to the service (method, target, version, header fields, body bytes, trailers) are exactly those an RFC 9112 reader finds, in order, up to the first malformed or closing message. Messages whose length is ambiguous or illegal (Transfer-Encoding on HTTP/1.0 or not ending in chunked, differing or malformed Content-Length, Content-Length next to Transfer-Encoding, broken chunk sizes or chunk terminators) are rejected or read by the one safe interpretation with no later request taken from the same connection, so bytes of one message are never delivered as part of another.",
[I,H],"every byte stream (pipelined, malformed, mutated) in any segmentation",
"The parser tests feed a few dozen fixed heads and chunk strings; request boundaries depend on combinations of version, method, repeated headers, chunk syntax and what follows on the same connection.",
["src/proto/h1/role.rs","src/proto/h1/decode.rs","src/proto/h1/conn.rs","src/headers.rs"],
[("Server::parse decides the DecodedLength from TE/CL/version","src/proto/h1/role.rs"),("ChunkedState machine","src/proto/h1/decode.rs"),("Conn::poll_read_head / read_keep_alive","src/proto/h1/conn.rs")],
["requests seen by the service","error responses and connection result"],
[("Reading","where the connection is inside the current message","src/proto/h1/conn.rs")])

p("C02","HTTP/1 client delimits responses exactly as the framing rules say",
"For every byte stream a peer sends to an HTTP/1 client connection, each response delivered for a request (status, version, header fields, body bytes, trailers) is exactly what an RFC 9112 reader computes for that request's method: no body for HEAD, 204, 304 and 2xx to CONNECT, chunked over Content-Length, otherwise delimited by Content-Length or by the end of the connection. Malformed or ambiguous responses (conflicting Content-Length, Transfer-Encoding on HTTP/1.0, broken chunks) give an error for that request and never a wrong body, and bytes after the end of a response are never part of it.",
[I,H],"every response byte stream, per request method, on fresh and reused connections",
"Fixed response strings in client tests cover single framing choices; the rule is a product of method, status, version, repeated/conflicting headers and reuse of the connection.",
["src/proto/h1/role.rs","src/proto/h1/decode.rs","src/proto/h1/conn.rs","src/headers.rs"],
[("Client::parse / Client::decoder","src/proto/h1/role.rs"),("Decoder (length, chunked, eof)","src/proto/h1/decode.rs")],
["response futures and bodies of the client","fate of the connection"])

p("C03","HTTP/1 results do not depend on segmentation or transport readiness",
"For a fixed byte stream, service behaviour and configuration, an HTTP/1 server or client connection delivers the same messages and writes the same bytes however the input is cut into reads, whenever reads, writes and flushes are not ready, however few bytes each write accepts, and whether or not the transport or configuration uses vectored writes.",
[S,I,CFG],"all read segmentations, Pending patterns, short-write patterns and write strategies",
"Tests deliver input in one or two reads over loopback or a mock and never vary write acceptance; partial parsing, partial vectored writes and buffer reuse only show at particular cut points.",
["src/proto/h1/io.rs","src/proto/h1/conn.rs","src/proto/h1/dispatch.rs","src/proto/h1/decode.rs","src/proto/h1/encode.rs","src/common/buf.rs"],
[("Buffered::parse / poll_read_from_io / poll_flush","src/proto/h1/io.rs"),("WriteBuf flatten and queue strategies","src/proto/h1/io.rs"),("BufList / Cursor","src/common/buf.rs")],
["bytes written to the transport","messages observed by service and client"])

p("C04","A truncated message is never presented as complete",
"If the transport ends or fails before the framing of a message says it is finished (inside the head, a fixed-length body, a chunked body or its trailers, or an HTTP/2 stream without its end), or the connection is dropped meanwhile, then the receiving side reports an error for that message and never a clean end of body; the data delivered before the error is a prefix of what was sent. A message that did arrive completely is delivered without an error.",
[CR,F,I],"a cut, reset or dropped connection at every byte position of every message form, both roles, HTTP/1 and HTTP/2",
"Tests cut a handful of messages at one place each; the guarantee is for every cut point and framing and for drops of the connection task.",
["src/proto/h1/decode.rs","src/proto/h1/conn.rs","src/proto/h1/dispatch.rs","src/body/incoming.rs","src/proto/h2/client.rs","src/proto/h2/server.rs"],
[("Decoder returns IncompleteBody / UnexpectedEof","src/proto/h1/decode.rs"),("Conn::read_eof, poll_read_body","src/proto/h1/conn.rs"),("Sender drop guard","src/proto/h1/dispatch.rs"),("Incoming poll_frame for H2","src/body/incoming.rs")],
["frames and errors from Incoming","response future result"])

p("C05","HTTP/1 server writes each response as one well-formed message",
"Whatever response a service returns (status, version 1.0, 1.1 or 2, headers, reason phrase, body of known or unknown size), the bytes written parse with an independent reader as exactly one response carrying that status, those header fields and exactly those body bytes, with framing headers that match the body. HEAD, 204, 304 and successful CONNECT responses carry no body bytes, an HTTP/1.0 peer is never sent chunked coding, never more body bytes than the declared Content-Length are written, and responses that cannot be sent correctly (1xx from the service, illegal framing headers) become an error instead of a corrupt stream. Unless it has one or that is switched off, a response gets a Date field with the current time.",
[I,CFG],"every response a service can construct, against every request version/method and connection option",
"The encoder tests assert a few exact heads; correctness is a relation between request, response headers, body size hint, frames and options.",
["src/proto/h1/role.rs","src/proto/h1/encode.rs","src/proto/h1/conn.rs","src/proto/h1/dispatch.rs"],
[("Server::encode_headers","src/proto/h1/role.rs"),("Encoder","src/proto/h1/encode.rs"),("Conn::write_head / enforce_version / fix_keep_alive","src/proto/h1/conn.rs")],
["bytes written to the transport"])

p("C06","HTTP/1 client writes each request as one well-formed message",
"Whatever request a user sends (method, target, version, headers, body of known or unknown size), the bytes written parse with an independent reader as exactly one request with that method, target, header fields and body bytes, with framing headers that match the body: no framing header is invented for body-less requests, a body of unknown size is chunked on HTTP/1.1 (or, for HTTP/1.0 and for methods documented not to send one, not sent), and never more bytes than a declared Content-Length are written.",
[I,CFG],"every request a user can construct, per configuration, on fresh and reused connections",
"Client tests compare a few literal requests; the encoder's choice depends on method, user headers, version, body size hint and end-of-stream flag together.",
["src/proto/h1/role.rs","src/proto/h1/encode.rs","src/proto/h1/conn.rs","src/proto/h1/dispatch.rs","src/headers.rs"],
[("Client::encode / set_length","src/proto/h1/role.rs"),("Encoder","src/proto/h1/encode.rs")],
["bytes written to the transport"])

p("C07","HTTP/1 trailers are delivered intact and only where they are allowed",
"Trailer fields received after a chunked body reach the application exactly as sent (names, values, repetitions, order of values), after all data and once; malformed trailers give an error. Trailers a user attaches to a body are written only on chunked messages, only for names announced in the Trailer header, never for forbidden fields (framing, routing, authentication, control), by a server only if the request said TE: trailers, and the stream stays well-formed whether they are written or dropped.",
[I,CFG],"every trailer block and every combination of Trailer / TE headers, both directions and roles",
"Tests cover one or two trailer fields with matching announcements; the filter is a product of announcement, permission, framing and field name.",
["src/proto/h1/encode.rs","src/proto/h1/decode.rs","src/proto/h1/conn.rs","src/proto/h1/dispatch.rs","src/headers.rs"],
[("Encoder::encode_trailers","src/proto/h1/encode.rs"),("decode_trailers","src/proto/h1/decode.rs"),("Conn::write_trailers","src/proto/h1/conn.rs")],
["bytes on the wire","trailers frame of the receiving body"])

p("C08","Connection reuse follows what both sides declared",
"An HTTP/1 connection serves another message after an exchange exactly when both messages permit it: HTTP/1.1 unless either side said Connection: close, HTTP/1.0 only if keep-alive was agreed, never after a close-delimited body, an error or keep-alive being disabled. When the connection will not be reused the last message sent says so where its version requires it, no later request on that connection is processed or sent, and the transport is shut down after the last byte of the last message has been written.",
[I,H,CFG],"every sequence of requests and responses with every combination of versions, Connection headers, body framing and options, both roles",
"Tests check single combinations; reuse is a joint decision over both messages, body consumption and configuration at every step of a history.",
["src/proto/h1/conn.rs","src/proto/h1/role.rs","src/headers.rs","src/proto/h1/dispatch.rs"],
[("KA state and Conn::try_keep_alive / fix_keep_alive","src/proto/h1/conn.rs"),("connection_keep_alive / connection_close","src/headers.rs")],
["requests reaching the service","wire output","shutdown of the transport"],
[("KA","keep-alive state of the connection","src/proto/h1/conn.rs")])

p("C09","Pipelined requests get one response each, in order",
"For any sequence of pipelined HTTP/1 requests on a server connection and any timing of the service (immediate, delayed, reading none, part or all of the request body, streaming its response), the service sees the requests one at a time in order and the wire carries exactly one complete response per request, in the same order, never interleaved, with request bodies never leaking into following requests.",
[S,H,I],"every pipelined request sequence, service timing and transport schedule, with and without pipeline flush",
"Tests pipeline two or three fixed requests; ordering and body skipping depend on how service progress, body consumption and input arrival interleave.",
["src/proto/h1/dispatch.rs","src/proto/h1/conn.rs","src/proto/h1/io.rs"],
[("Dispatcher::poll_loop / poll_read / poll_write","src/proto/h1/dispatch.rs"),("Conn::poll_drain_or_close_read","src/proto/h1/conn.rs")],
["order and content of requests at the service","responses on the wire"])

p("C10","Every client request gets exactly one outcome, and only its own response",
"On an HTTP/1 client connection every submitted request resolves exactly once, with the response that the peer sent to that very request or with an error; after cancellations, peer errors, unsolicited bytes, early responses or connection loss no response or body byte ever reaches another request. A request reported as not sent is handed back unmodified and none of its bytes were written, and a request whose bytes were written is never handed back for retry.",
[H,S,F],"all histories of sends, cancellations, body reads, peer responses, faults and drops",
"Tests fix a few cancellation points; response association is a property of the whole history and its interleaving.",
["src/client/dispatch.rs","src/proto/h1/dispatch.rs","src/proto/h1/conn.rs","src/client/conn/http1.rs"],
[("Callback / Envelope drop behaviour","src/client/dispatch.rs"),("Client dispatch recv_msg / poll_ready","src/proto/h1/dispatch.rs"),("Conn::require_empty_read / mid_message_detect_eof","src/proto/h1/conn.rs")],
["results of send_request / try_send_request","wire output"])

p("C11","Size limits on messages are enforced at their documented values",
"An HTTP/1 endpoint accepts heads and trailers within its limits (configured or default header count, buffer size, URI length) and refuses anything beyond them with a too-large error: a server answers 431 for too many or too large headers and 414 for an over-long target, and closes. Chunk extensions and trailers of a chunked body are limited in total, across chunks, and no limit is affected by how input was segmented.",
[I,CFG,S],"sizes around every limit, for all configured limits and segmentations, both roles",
"Tests probe single default limits; boundaries must hold for every configured value, accumulation over chunks and segmentation.",
["src/proto/h1/role.rs","src/proto/h1/io.rs","src/proto/h1/decode.rs","src/server/conn/http1.rs","src/client/conn/http1.rs"],
[("max_headers and MAX_URI_LEN","src/proto/h1/role.rs"),("max_buf_size checks","src/proto/h1/io.rs"),("CHUNKED_EXTENSIONS_LIMIT / TRAILER_LIMIT","src/proto/h1/decode.rs")],
["accept or reject, response status, error kind"])

p("C12","HTTP/1 connections apply back-pressure instead of buffering without bound",
"If the application does not take an incoming body, an HTTP/1 connection stops reading from its transport after a bounded amount; if the transport does not accept output, it stops pulling data from the outgoing body after a bounded amount; pipelined input is not read ahead without bound. Bounds follow the configured buffer size and do not grow with message size or count, and once the stalled side resumes all data arrives.",
[S,I,CFG],"every amount and shape of data, with either side stalled at any point and resumed",
"Tests use small bodies and responsive peers; unbounded buffering appears only with large data and a stalled side.",
["src/proto/h1/io.rs","src/proto/h1/conn.rs","src/proto/h1/dispatch.rs","src/body/incoming.rs"],
[("Buffered::can_buffer, ReadStrategy","src/proto/h1/io.rs"),("Sender::poll_ready / want","src/body/incoming.rs"),("Conn::can_write_body / can_read_body","src/proto/h1/conn.rs")],
["bytes taken from the transport and from bodies while stalled"])

p("C13","Malformed HTTP/1 input is refused cleanly and never crashes",
"For every byte stream, configuration and fault, an HTTP/1 server or client connection neither panics nor spins: it ends with a result once input ends. A request head that cannot be parsed never reaches the service and is answered with a single well-formed 4xx response followed by closing the connection; anything written to the transport is always a prefix of a sequence of well-formed messages.",
[I,CFG,F],"arbitrary and mutated byte streams, all options, with read/write/flush/shutdown faults",
"Fuzz targets in the repository are not run by tests; unit tests cover chosen malformed inputs only.",
["src/proto/h1/role.rs","src/proto/h1/decode.rs","src/proto/h1/conn.rs","src/proto/h1/io.rs","src/proto/h1/dispatch.rs"],
[("Server::on_error","src/proto/h1/role.rs"),("Conn::on_read_head_error / on_parse_error","src/proto/h1/conn.rs")],
["panics, output bytes, connection result"])

p("C14","HTTP/1 graceful shutdown finishes the exchange in flight and nothing more",
"When graceful shutdown of an HTTP/1 server connection is requested at any moment, an exchange whose request the service has already received completes with its full response and with the request body the service still reads (an upload left to a background task after its response is complete may be cut, never shown as complete), responses begun afterwards say the connection closes, no further request is taken from the connection (only a first request whose head had already begun to arrive may still be served), and the connection then closes its transport and resolves without an error; an idle connection closes at once.",
[S,CR,H],"shutdown requested at every step of every exchange history, service timing and transport schedule",
"Tests request shutdown at three or four fixed moments; it must be right at every poll of every exchange.",
["src/proto/h1/conn.rs","src/proto/h1/dispatch.rs","src/server/conn/http1.rs"],
[("Conn::disable_keep_alive","src/proto/h1/conn.rs"),("Dispatcher::disable_keep_alive","src/proto/h1/dispatch.rs")],
["requests at the service, wire output, transport shutdown, connection result"])

p("C15","HTTP/1 upgrades hand over the byte stream exactly",
"After an HTTP/1 upgrade (101 response or CONNECT success) on either role, the bytes readable from the upgraded stream are exactly the peer's bytes following the message head, including those already read with the head, with none lost, duplicated or reordered, and bytes written to it follow the head on the wire; the same holds for the leftover buffer returned when taking the connection apart. If no upgrade happens the waiting side gets an error, never a stream.",
[I,S],"every split between head and following bytes, every read size and schedule, both roles, automatic and manual upgrades",
"Tests send the upgraded bytes separately or in one piece; loss at the hand-over depends on how much was read ahead and on read sizes.",
["src/upgrade.rs","src/common/io/rewind.rs","src/proto/h1/conn.rs","src/proto/h1/dispatch.rs","src/server/conn/http1.rs","src/client/conn/http1.rs"],
[("Rewind","src/common/io/rewind.rs"),("Pending::fulfill / manual","src/upgrade.rs"),("Conn::into_inner","src/proto/h1/conn.rs")],
["bytes read from and written to Upgraded / Parts"])

p("C16","100 Continue is sent when and only when it is due",
"An HTTP/1.1 server sends one interim 100 Continue, before any other byte of the response, exactly when the request asked for it with Expect: 100-continue, has a body, and the service starts reading that body before its response is begun; never for HTTP/1.0 requests, body-less requests, or after the final response started. The exchange and the connection stay correctly framed in every case.",
[I,S],"every combination of expectation, body framing, service behaviour and arrival schedule",
"Tests cover two timings; the decision depends on the order of body polls, response start and input arrival.",
["src/proto/h1/conn.rs","src/proto/h1/role.rs","src/proto/h1/dispatch.rs","src/body/incoming.rs"],
[("Reading::Continue / poll_read_body","src/proto/h1/conn.rs"),("expect_continue parsing","src/proto/h1/role.rs"),("WANT_PENDING / WANT_READY","src/body/incoming.rs")],
["interim responses on the wire"])

p("C17","The header read timeout bounds the wait for a request head",
"With a timer configured, an HTTP/1 server connection closes with a timeout error when a request head is not complete within the header read timeout counted from the moment it starts waiting for that head, and never before that time; time spent in the service, in receiving a request body, or in producing and writing the response to a request that was received completely never counts, a head that completes in time is served, and with the timeout disabled it never fires.",
[S,H,CFG],"all arrival times of request bytes relative to the deadline across a connection's history, all timeout settings",
"Tests use real sleeps for three cases; the deadline must be restarted and cleared correctly in every history.",
["src/proto/h1/conn.rs","src/server/conn/http1.rs","src/common/time.rs"],
[("h1_header_read_timeout_fut handling in poll_read_head","src/proto/h1/conn.rs")],
["virtual time at which the connection errors"])

p("C18","HTTP/1 exchanges always make progress: no lost wake-ups, no spinning",
"When a hyper HTTP/1 client and server talk over a transport that eventually accepts and delivers every byte, and application code eventually acts, every exchange completes whatever the order of polls, readiness and wake-ups, driven only by the wake-ups hyper and the transport issue; buffered output is always flushed without waiting for unrelated events. A connection with nothing to do is not polled again by its own wake-ups without bound.",
[S,H],"all schedules of task polls, transport readiness and application steps",
"Integration tests run on multi-threaded tokio with real sockets that wake often; a missing wake-up needs a particular order of events.",
["src/proto/h1/dispatch.rs","src/proto/h1/conn.rs","src/proto/h1/io.rs","src/body/incoming.rs","src/client/dispatch.rs","src/common/watch.rs"],
[("Dispatcher::poll_loop yield and want loop","src/proto/h1/dispatch.rs"),("Conn::maybe_notify","src/proto/h1/conn.rs"),("watch / mpsc / want wakers","src/common/watch.rs")],
["completion under wake-driven deterministic scheduling; number of polls"])

p("C19","HTTP/2 exchanges deliver every message intact under any interleaving",
"When hyper's HTTP/2 client and server talk over a working transport (one that buffers at least a few hundred bytes) with any number of concurrent streams, window, frame and buffer settings, every request reaches the service and every response its caller with the same method, target, status, header fields, body bytes and trailers that were sent, no stream receives another stream's data, and all exchanges complete driven only by issued wake-ups.",
[S,I,CFG],"all sets of concurrent exchanges, body shapes, flow-control settings and schedules",
"Tests run a few streams with default windows over tokio; stalls and mix-ups need small windows, many streams and specific orders.",
["src/proto/h2/mod.rs","src/proto/h2/server.rs","src/proto/h2/client.rs","src/body/incoming.rs","src/client/dispatch.rs"],
[("PipeToSendStream","src/proto/h2/mod.rs"),("ClientTask / ConnTask","src/proto/h2/client.rs"),("H2Stream","src/proto/h2/server.rs")],
["messages at both ends"])

p("C20","HTTP/2 failures and cancellations stay within their stream",
"Cancelling a request, dropping a body, an error in a request or response body, an error or reset from the service or the peer on one HTTP/2 stream is signalled to the other end of that stream as an error or reset (never as a complete message, save that a peer's RST_STREAM with NO_ERROR ends a body of undeclared length), and every other stream on the connection, and later new streams, proceed unaffected. A request that was never sent is handed back unchanged by try_send_request.",
[H,S,F],"all histories mixing cancellations, body errors, service errors and resets over concurrent streams",
"Tests cancel or fail single streams in isolation; interference shows only with other streams in flight.",
["src/proto/h2/client.rs","src/proto/h2/server.rs","src/proto/h2/mod.rs","src/client/dispatch.rs"],
[("send_reset / cancel on drop","src/proto/h2/client.rs"),("H2Stream error to RST_STREAM","src/proto/h2/server.rs"),("PipeToSendStream poll_reset","src/proto/h2/mod.rs")],
["frames seen by a raw peer; results of other streams"])

p("C21","HTTP/2 bodies obey flow control in both directions",
"An HTTP/2 endpoint never makes a peer send more unread body data on a stream or connection than its configured windows allow while the application is not reading, never holds more than a bounded amount of an outgoing body the peer has not granted window for, and releases window for everything read, discarded or reset so that neither the stream nor the connection ever starves. With adaptive windows the configured windows only ever grow.",
[S,I,CFG],"all window sizes, body shapes, reading patterns and stalls over many streams",
"Default windows are larger than test bodies; leaks of window accumulate only over long histories or dropped bodies.",
["src/body/incoming.rs","src/proto/h2/mod.rs","src/proto/h2/server.rs","src/proto/h2/client.rs"],
[("release_capacity in Incoming::poll_frame","src/body/incoming.rs"),("reserve_capacity/poll_capacity in PipeToSendStream","src/proto/h2/mod.rs")],
["bytes transferred while stalled; completion after resume; raw peer's window"])

p("C22","HTTP/2 messages never carry connection-specific headers and stay well-formed",
"Whatever headers a user puts on an HTTP/2 request or response, the header block on the wire, trailers included, contains no connection-specific field (Connection and every field it names, Keep-Alive, Proxy-Connection, Transfer-Encoding, Upgrade, TE other than trailers), all other fields arrive unchanged, and Content-Length, when present, matches the body: added when the size is known and meaningful, never altered when the user set it; responses to HEAD and 204 or 304 responses carry no body. A Date field with the current time is added to responses unless present or disabled.",
[I,CFG],"all header maps and body size hints, both roles",
"Tests try a handful of headers one at a time.",
["src/proto/h2/mod.rs","src/proto/h2/server.rs","src/proto/h2/client.rs","src/headers.rs"],
[("strip_connection_headers","src/proto/h2/mod.rs"),("set_content_length_if_missing","src/headers.rs")],
["headers received by a raw HTTP/2 peer"])

p("C23","HTTP/2 graceful shutdown completes accepted streams and admits no more",
"When graceful shutdown of an HTTP/2 server connection is requested at any moment, including before the handshake finished, all streams the server has accepted complete with their full bodies, the peer is told that no new streams are accepted and later ones are not served, and the connection then ends without an error; without it the connection stays open.",
[S,CR,H],"shutdown requested at every step of every history and schedule",
"Tests cover two moments with one stream.",
["src/proto/h2/server.rs","src/server/conn/http2.rs"],
[("Server::graceful_shutdown and close_pending","src/proto/h2/server.rs")],
["frames at a raw peer, service calls, connection result"])

p("C24","HTTP/2 keep-alive pings detect dead peers and spare live ones",
"With keep-alive configured, an HTTP/2 connection sends a ping after each interval without received frames (a client only when streams are open unless while-idle is set), closes the connection with a timeout error within interval plus timeout of a peer going silent, failing all pending streams (a client's connection future may then end without an error, its requests with a timeout), and never closes a connection whose peer answers pings in time or has keep-alive disabled.",
[S,H,CFG],"all intervals, timeouts, activity patterns and peer delays in virtual time",
"Tests use real time with one silent and one live peer.",
["src/proto/h2/ping.rs","src/proto/h2/client.rs","src/proto/h2/server.rs"],
[("KeepAlive state machine, Ponger","src/proto/h2/ping.rs")],
["virtual time of pings and closure at a scripted peer"])

p("C25","HTTP/2 CONNECT tunnels carry bytes exactly",
"After a successful CONNECT (or extended CONNECT) over HTTP/2, bytes written to either end of the upgraded stream are read at the other end unchanged and in order, write acceptance respects flow control, shutting one end down (or dropping it once the other direction is over) is seen at the other as end of stream after all accepted bytes, an end dropped earlier is never left waited for, a reset other than NO_ERROR and CANCEL and a lost connection are seen as errors, a declined CONNECT fails the upgrade and carries an ordinary response, any 2xx opens the tunnel, and other streams on the connection are unaffected.",
[S,I,H],"all sequences of reads, writes, flushes, shutdowns and resets on both ends under all schedules and windows",
"Tests echo one short message.",
["src/proto/h2/upgrade.rs","src/proto/h2/client.rs","src/proto/h2/server.rs","src/upgrade.rs"],
[("H2Upgraded poll_read/poll_write/poll_shutdown","src/proto/h2/upgrade.rs"),("UpgradedSendStreamTask","src/proto/h2/upgrade.rs")],
["bytes at both ends of the tunnel"])

p("C26","Header fields, their spelling and reason phrases survive as configured",
"Header fields pass through HTTP/1 in both directions with all repetitions, value bytes and the order of equal names preserved; with title-casing or case preservation enabled names are spelled as configured or as received on the other leg of a proxy, otherwise in lower case; a non-standard reason phrase is exposed on responses received and written on responses sent, and the parser leniency options (spaces after header names, folded headers, ignored invalid lines, multiple spaces in the request line, HTTP/0.9) change exactly what they document.",
[I,CFG],"all header maps, spellings, reason phrases and option combinations",
"Tests exercise each option with one literal message.",
["src/proto/h1/role.rs","src/ext/mod.rs","src/ext/h1_reason_phrase.rs","src/client/conn/http1.rs","src/server/conn/http1.rs"],
[("write_headers_original_case / title_case","src/proto/h1/role.rs"),("HeaderCaseMap","src/ext/mod.rs"),("ReasonPhrase","src/ext/h1_reason_phrase.rs")],
["wire bytes and header maps"])

p("C27","Interim responses never end or disturb an exchange",
"A client that receives any number of 1xx responses before the final one resolves the request with the final response only, on HTTP/1 and HTTP/2; on HTTP/1 each interim response is passed to the callback registered on that request, if any, once and in order, with its status, version and headers, and on either version none reaches the callback of another request. 101 is final only as an upgrade.",
[I,H,S],"all sequences of interim and final responses, with and without callbacks, on reused connections and concurrent streams",
"Tests send a single interim response.",
["src/proto/h1/role.rs","src/proto/h1/conn.rs","src/ext/informational.rs","src/proto/h2/client.rs"],
[("Client::parse loop skipping 1xx","src/proto/h1/role.rs"),("OnInformational","src/ext/informational.rs")],
["callback invocations and resolved responses"])

p("C28","Body size hints and end flags of received bodies are truthful",
"At every moment while a received body is read, its size hint brackets the number of data bytes still to come (exactly when the length was declared), it reports end of stream only when nothing (data, trailers or error) follows, a body-less message reports end at once, and after the end no further frame is produced (an HTTP/2 stream reset with NO_ERROR before a declared length was reached counts as ended).",
[I,S],"all message framings, lengths and reading patterns, both roles, HTTP/1 and HTTP/2",
"Tests look at hints of untouched bodies only.",
["src/body/incoming.rs","src/body/length.rs","src/proto/h1/conn.rs","src/proto/h2/server.rs","src/proto/h2/client.rs"],
[("Incoming::size_hint / is_end_stream","src/body/incoming.rs"),("DecodedLength","src/body/length.rs")],
["size_hint and is_end_stream after every frame"])

p("C29","Hostile HTTP/2 peers cannot crash, wedge or confuse a connection",
"For every sequence of HTTP/2 frames or bytes a peer may send, in any order and cut anywhere, a hyper HTTP/2 client or server connection does not panic or spin, ends with a result once the transport ends, resolves every pending request, and hands the application only messages justified by frames received on one stream: the head that was sent, a prefix of its data, and a clean end only after the stream's end (or a reset with NO_ERROR), with a body length equal to any declared Content-Length; a correct peer's exchanges are complete whatever ignorable frames, padding and header-block splits it uses.",
[I,F,H],"arbitrary frame sequences, mutated frames and truncated byte streams, both roles",
"Tests play a few scripted misbehaviours.",
["src/proto/h2/server.rs","src/proto/h2/client.rs","src/proto/h2/mod.rs","src/body/incoming.rs"],
[("poll_server error handling","src/proto/h2/server.rs"),("ClientTask::poll","src/proto/h2/client.rs")],
["panics, connection results, messages delivered"])

p("C30","An outgoing body that fails is never framed as complete",
"When an application's outgoing body ends early, yields an error, or yields fewer bytes than its declared length, the HTTP/1 peer never sees a complete message: the connection is closed without the final chunk or the missing bytes, nothing of another message follows, and the local side reports the failure. If the body is fine the message is always terminated properly.",
[F,I,S],"failure at every frame of every body shape and framing, both roles, under all transport schedules",
"Tests fail one body in one place.",
["src/proto/h1/dispatch.rs","src/proto/h1/conn.rs","src/proto/h1/encode.rs"],
[("Conn::end_body / on body error","src/proto/h1/conn.rs"),("Encoder::end NotEof","src/proto/h1/encode.rs"),("Dispatcher::poll_write","src/proto/h1/dispatch.rs")],
["bytes on the wire, connection result"])

p("C31","Transport buffers and adapters keep the reader's contract",
"For every sequence of operations on the read buffer hyper hands to transports (filling, advancing, initialising, taking cursors), the filled region holds exactly the bytes put there, bounds are respected, and initialised memory is never reported where none was written; boxed, borrowed and pinned transports behave exactly like the transport itself, including vectored writes.",
[I,H],"all operation sequences and buffer sizes",
"Doc tests show one use each.",
["src/rt/io.rs","src/common/io/compat.rs","src/common/io/rewind.rs"],
[("ReadBuf / ReadBufCursor","src/rt/io.rs"),("Compat","src/common/io/compat.rs")],
["filled bytes, remaining counts, data through adapters"])

p("C32","The C API performs exchanges with the same results as the Rust client",
"For every request built through the C API and every peer byte stream and I/O schedule, the request on the wire and the response seen through the C API (status, version, reason phrase, header fields with original spelling, body bytes, interim responses) are the same as with the Rust client; invalid arguments give an error code, every task completes once, and objects are released without use after free, double free or leak.",
[I,S,H],"all requests, responses, option settings and I/O schedules through the C API",
"The C examples are only compiled and two unit tests exist.",
["src/ffi/body.rs","src/ffi/client.rs","src/ffi/http_types.rs","src/ffi/task.rs","src/ffi/io.rs","src/ffi/error.rs"],
[("hyper_executor","src/ffi/task.rs"),("hyper_request / hyper_response / hyper_headers","src/ffi/http_types.rs"),("UserBody","src/ffi/body.rs")],
["wire bytes and values returned by the C API"])

p("C33","HTTP/2 connections announce and keep their configured limits",
"Whatever sequence of builder calls configured it, an HTTP/2 connection announces exactly the resulting settings (initial stream window, connection window, frame size, header list size, header table size, concurrent streams, extended CONNECT, no push) and keeps to them: frames and header lists within the limits are accepted and beyond them refused without harm to other streams or, where the protocol demands it, with a connection error; a server never has more requests at work than it announced and refuses the excess, a client never has more requests open than its peer allows at the time (or its own initial limit before the peer said anything) and sends the others as soon as it may; resets and errors caused by the peer end the connection only beyond the configured numbers. Adaptive windows are measured only while switched on.",
[I,S,H],"all sequences of builder calls, numbers of streams and sizes around each limit, settings changing during a connection",
"The integration tests set single options to one value; the mapping from options to the HTTP/2 layer is plain copying code in three places that no test compares.",
["src/proto/h2/server.rs","src/proto/h2/client.rs","src/server/conn/http2.rs","src/client/conn/http2.rs"],
[("Server::new builder","src/proto/h2/server.rs"),("new_builder / new_ping_config","src/proto/h2/client.rs"),("Builder setters","src/client/conn/http2.rs")],
["SETTINGS, WINDOW_UPDATE, RST_STREAM and GOAWAY frames, calls of the service, results of requests"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
