#!/usr/bin/env python3
"""The properties, which scenarios decide each, and what is real in them.
Run as a script: rewrites properties.jsonl and MANIFEST.json from this table."""
import json, os

V = os.path.dirname(os.path.abspath(__file__))
TECH = "deterministic simulation with seeded schedule and fault search"

NET_REAL = ["fitoria http_server, router, routes, extractors, request/response, body streams", "Boost.Asio reactor, timers, strands and coroutines", "Boost.Beast parser, serializer and stream timeouts"]
NET_STUB = ["sockets, epoll, eventfd, timerfd, clocks, thread scheduling, getrandom (simulated kernel)", "HTTP clients (own encoder and parser)"]
GROUP_NOTES = {
    "http": {"real": NET_REAL, "stub": NET_STUB},
    "ws": {"real": NET_REAL + ["fitoria websocket extractor and context, Boost.Beast websocket stream"], "stub": NET_STUB + ["WebSocket clients (own frame encoder and decoder)"]},
    "wss": {"real": NET_REAL + ["fitoria websocket extractor and context, Boost.Beast websocket stream", "OpenSSL on both ends"], "stub": NET_STUB + ["WebSocket clients (own frame encoder and decoder)", "OpenSSL's random generator (seeded)"]},
    "files": {"real": NET_REAL + ["fitoria static_file, file streams, range and validator headers", "Boost.Asio io_uring file service"], "stub": NET_STUB + ["io_uring and the file system behind it (in memory, with injected errors, short transfers and delays)"]},
    "codec": {"real": NET_REAL + ["fitoria gzip, deflate and brotli body streams and the decompress middleware", "zlib, brotli and Boost.Beast's zlib port"], "stub": NET_STUB + ["decoding of what the server compressed (zlib and brotli called directly)"]},
    "app": {"real": NET_REAL + ["fitoria scopes, middlewares, states, router and extractors", "Boost.JSON, Boost.URL and Boost.Regex"], "stub": NET_STUB},
    "log": {"real": ["fitoria async_logger, filters, formatters, registry, async file and stdout writers", "Boost.Asio system_context, concurrent_channel and io_uring file service"], "stub": ["threads' scheduling, futexes, clocks, epoll, io_uring and the file system behind it (simulated kernel)", "probe writers that wait and throw"]},
    "bind": {"real": NET_REAL, "stub": NET_STUB + ["the kernel's table of addresses, ports and socket files"]},
    "https": {"real": NET_REAL + ["OpenSSL on both ends"], "stub": NET_STUB + ["OpenSSL's random generator (seeded)"]},
}

SIM_ASSUME = ["the simulated kernel behaves like Linux for the calls the server makes (stream sockets, epoll, timerfd, eventfd)",
              "threads are pre-empted at intercepted calls and synchronisation operations only, not between arbitrary instructions",
              "Boost 1.83 with a compatibility overlay for the few names newer Boost versions added; compiled with clang++ and AddressSanitizer"]

SRV = "include/fitoria/web/http_server.hpp"


def P(id, title, statement, over, text, why, files, mech, scenarios, observe, level_note, assumptions=SIM_ASSUME, **kw):
    return id, dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, scenarios=scenarios,
                    observe=observe, level_note=level_note, assumptions=assumptions, **kw)


NOTE = ("Seeded random search over schedules, fault sequences, workloads and configurations of the real code on a simulated kernel; "
        "a clean run is evidence for the executions sampled, not a proof. Trusts the simulated kernel, the independent client and the expectation model in sim/.")

PROPS = dict([
    P("H01", "Each request gets exactly its own response, in order, from its handler",
      "On every connection the server answers requests in the order they were sent, each complete request with exactly one final response, produced by running the handler registered for its method and path exactly once with that request's own method, headers, path and query parameters and peer address. "
      "Requests matching no route, or whose target is invalid, get the server's own 404 or 400 without any handler running, and no response is ever delivered to another request or connection. "
      "This holds for any number of concurrent connections, pipelining, any segmentation and delay of the byte stream, and one or several threads running the executor.",
      ["schedules", "inputs", "fault_sequences", "configurations"],
      "every mix of sequential, pipelined and overlapped requests on 1-5 connections, every segmentation, delay, EINTR/EAGAIN, short read or write, and every interleaving of up to three threads",
      "tests run one request at a time over an in-memory stream or a quiet loopback socket; no interleaving, segmentation or pipelining is controlled",
      [SRV, "include/fitoria/web/router.hpp", "include/fitoria/web/path_matcher.hpp", "include/fitoria/web/request.hpp", "include/fitoria/web/query_map.hpp", "include/fitoria/web/connect_info.hpp"],
      [("session loop", SRV), ("route lookup and path parameters", "include/fitoria/web/router.hpp")],
      [("http", 3), ("https", 1)], ["responses parsed by the simulated clients, tagged with the id of their request", "what each handler invocation saw"], NOTE),
    P("H02", "A handler sees exactly the request body that was sent, or an error",
      "A handler that reads the request body, whole or piece by piece, obtains exactly the bytes the client sent, whatever the framing (Content-Length or chunked with extensions and trailers), segmentation, timing and size. "
      "A body that is cut short by close, reset or timeout, is malformed, or exceeds the limit is always reported to the reader as an error and never as a complete body.",
      ["inputs", "schedules", "fault_sequences"],
      "every body size and framing, every split of the bytes into segments and reads, and a connection loss at any byte",
      "tests send a handful of small bodies in one piece over an undisturbed stream",
      ["include/fitoria/web/async_message_parser_stream.hpp", "include/fitoria/web/async_read_until_eof.hpp", "include/fitoria/web/from_request.hpp", SRV],
      [("body stream over the parser", "include/fitoria/web/async_message_parser_stream.hpp")],
      [("http", 3), ("https", 1)], ["body, completeness and error as seen by handlers", "echoed bodies"], NOTE),
    P("H03", "Responses are framed so that the client gets exactly the handler's response",
      "For every response a handler returns (no body, sized body, or a body stream yielding any pieces, including empty ones) the client receives exactly its status and body under valid HTTP/1.1 framing: Content-Length for sized bodies, chunked for streams of unknown size, no body for HEAD, 204 and 304, and at most one interim 100 when it was asked for. "
      "If the body stream fails part-way the response is left visibly incomplete and the connection ends; a truncated body never looks complete.",
      ["inputs", "schedules", "fault_sequences"],
      "every body kind, size and piece sequence, slow streams, failure at any piece, slow readers and small or failing socket writes",
      "tests decode responses with the library's own client over a stream without backpressure, for a few fixed bodies",
      [SRV, "include/fitoria/web/async_write_chunks.hpp", "include/fitoria/web/any_body.hpp", "include/fitoria/web/response.hpp"],
      [("response writers per body kind", SRV), ("chunk writer", "include/fitoria/web/async_write_chunks.hpp")],
      [("http", 3), ("https", 1)], ["bytes received by the simulated clients, decoded by an independent strict parser"], NOTE),
    P("H04", "Connections persist exactly as negotiated and never lose message boundaries",
      "After a response the connection stays usable for the next request if the request allowed persistence, and is closed after a response that says so otherwise; a response after which the server closes carries Connection: close. "
      "Message boundaries are never lost: bytes of one request (for instance a body the handler did not read) are never taken for another request, so no handler ever runs for a request no client sent.",
      ["inputs", "schedules", "histories"],
      "every sequence of requests on a connection, HTTP/1.0 and 1.1, with and without Connection headers, bodies read, partly read or not read at all",
      "tests use a new connection per request",
      [SRV], [("keep-alive decision and session loop", SRV)],
      [("http", 3), ("https", 1)], ["requests seen by handlers compared with requests sent", "close and Connection headers seen by clients"], NOTE),
    P("H05", "Header and body limits are enforced and never reject what is within them",
      "A request whose header section is within the configured limit is served and one far beyond it is refused with a 400 response and a closed connection, without running a handler. "
      "A body within the configured limit is delivered, and a handler never obtains a complete body larger than the limit, however the bytes are framed and segmented. A disabled limit rejects nothing.",
      ["inputs", "configurations", "schedules"],
      "header and body sizes around every configured limit, with Content-Length and chunked framing, any segmentation",
      "tests check one oversized header and one oversized body with fixed framing",
      [SRV], [("parser limits and the header_limit reply", SRV)],
      [("http", 3), ("https", 1)], ["statuses seen by clients", "body sizes seen by handlers"],
      NOTE + " Boost.Beast applies the header limit per parsing step, so between the limit and twice the limit either outcome is accepted."),
    P("H06", "Idle and slow connections end at the timeout and never before",
      "With a request timeout, a connection on which the client stalls (before, inside or between requests, inside the TLS handshake, or by not reading the response) ends once the timeout has passed and not much later, and a connection that keeps making complete exchanges within the timeout is never ended by it. "
      "Without a timeout a stalled connection is kept.",
      ["schedules", "fault_sequences", "configurations"],
      "stalls at any byte of any request or response, any timeout configuration, slow handlers and slow readers",
      "a test waits for one real timeout on one idle connection",
      [SRV, "include/fitoria/core/net.hpp"], [("per-request deadline", SRV), ("handshake deadline", SRV)],
      [("http", 2), ("https", 2)], ["virtual time between accept, handler ends and close of every connection"], NOTE),
    P("H07", "No client and no fault takes the service away from the others",
      "Whatever a client sends or fails to send, whatever exception a handler throws, and whatever accept, read or write error the system reports on one connection, the server keeps accepting and serving every other connection correctly, and a fresh request succeeds once the faults stop. "
      "A failing connection ends without a response that could be mistaken for success and is reported to the exception handler, never escaping from it.",
      ["fault_sequences", "schedules", "inputs"],
      "malformed input, resets, half-closes, stalls, handler exceptions, accept failures (EMFILE, ECONNABORTED, ...), socket errors, in any combination on any connection",
      "tests never inject an error into accept, read or write and never disturb one connection while watching another",
      [SRV, "include/fitoria/core/net.hpp"], [("accept loop", SRV), ("session error path to the exception handler", SRV)],
      [("http", 3), ("https", 1)], ["expectations of undisturbed connections while others fail", "probe request after the faults"], NOTE),
    P("H08", "Every connection's resources are released, and stopping leaves nothing behind",
      "Once a connection has ended, for whatever reason, its socket is closed and its handler frames, body streams and buffers are destroyed. "
      "Stopping and destroying the server and its context at any moment, with requests in flight at any stage, neither crashes nor touches freed memory nor leaves a descriptor, handler frame or stream alive.",
      ["schedules", "crash_points", "fault_sequences"],
      "every way a connection can end and a stop at any instant of any run",
      "tests end the process instead of checking what is left, and never stop a server in the middle of an exchange",
      [SRV, "include/fitoria/core/net.hpp", "include/fitoria/web/async_message_parser_stream.hpp"], [("ownership of streams by session coroutines", SRV)],
      [("http", 3), ("https", 1)], ["simulated descriptor table", "live handler frames and body streams", "AddressSanitizer"], NOTE),
    P("H09", "TLS listeners serve the same as plain ones",
      "A server bound with a TLS context (TCP or local socket) satisfies over TLS what it does over plain connections: each request gets its own response, exact bodies both ways, correct persistence; an orderly end is announced with close_notify. "
      "A handshake that is malformed, cut off or stalled ends that connection alone and never runs a handler.",
      ["schedules", "inputs", "fault_sequences"],
      "any segmentation of TLS records, stalls, cuts and resets inside handshake, requests or shutdown",
      "tests make one undisturbed TLS request",
      [SRV, "include/fitoria/core/net.hpp"], [("handshake, session and shutdown over the TLS stream", SRV)],
      [("https", 1)], ["plaintext seen by independent OpenSSL clients", "handler observations"], NOTE),
    P("H10", "Binding listens where asked, on every endpoint, or reports why, and leaves nothing behind",
      "After bind() or bind_local() succeeds, requests sent to that endpoint are served by this server's routes and those of every other bound endpoint of the server likewise, plain or over TLS as asked; a client never meets an endpoint nobody bound. "
      "If the endpoint cannot be had (the address is in use or not local, its port is privileged, the path is too long or occupied, or a system call fails) the call reports an error instead of throwing, ending the process or pretending to have succeeded, what had been bound before goes on serving, and no descriptor stays behind. "
      "Once the server and its context are gone its addresses can be bound again, also while old connections linger in TIME_WAIT.",
      ["configurations", "histories", "fault_sequences"],
      "every sequence of binds of TCP, IPv6 and local endpoints with conflicts, lingering connections, occupied paths and failing socket, setsockopt, bind and listen calls, over several generations of servers",
      "tests bind a free port once per test and look at success only",
      [SRV, "include/fitoria/core/net.hpp"], [("bind, bind_local and their TLS forms", SRV), ("acceptors", SRV)],
      [("bind", 1)], ["results of the bind calls", "the simulated kernel's table of addresses and descriptors", "responses to clients of every endpoint"], NOTE),
    P("W01", "WebSocket messages arrive whole, unaltered and in order in both directions",
      "In an upgraded session the callback reads exactly the messages the client sent, each with its kind (text or binary) and bytes, once and in order, however they are fragmented, interleaved with control frames and segmented; the client receives exactly the messages the callback wrote, in order. "
      "Pings are answered with their payload while the callback reads, and no message is lost ahead of an orderly close.",
      ["inputs", "schedules", "fault_sequences"],
      "every message size, fragmentation, interleaving of control frames, segmentation and delay, reading and writing in turn or concurrently, over plain and TLS connections",
      "tests exchange a few short unfragmented messages over an undisturbed stream",
      ["include/fitoria/web/websocket.hpp", "include/fitoria/core/dynamic_buffer.hpp", SRV],
      [("async_read, async_write_text and async_write_binary", "include/fitoria/web/websocket.hpp")],
      [("ws", 3), ("wss", 1)], ["messages read by the callbacks", "frames decoded by independent clients"], NOTE),
    P("W02", "Only valid upgrades become sessions; every other request gets an ordinary response",
      "A valid handshake accepted by the handler is answered with 101, the right Sec-WebSocket-Accept and the header fields the handler put into its response, and its callback runs exactly once. "
      "A request that is not a valid handshake (missing or wrong Upgrade, Connection, Sec-WebSocket-Key or version, wrong HTTP version or method) or that the handler refuses gets an ordinary HTTP response, 426 with the supported version where only the version is wrong, no callback runs, and the connection goes on as its headers say.",
      ["inputs", "histories", "schedules"],
      "every combination of present, missing and malformed handshake headers, any sequence of refused upgrades, ordinary requests and a final upgrade on one connection",
      "tests cover single handshakes on fresh connections and do not go on afterwards",
      ["include/fitoria/web/websocket.hpp", SRV], [("handshake validation", "include/fitoria/web/websocket.hpp"), ("upgrade branch of the session loop", SRV)],
      [("ws", 3), ("wss", 1)], ["status, headers and bodies received by clients", "callback invocations"], NOTE),
    P("W03", "A WebSocket session ends exactly when it should and leaves nothing behind",
      "A session ends when its callback returns or throws, on the closing handshake by either side, on a protocol violation, a broken connection, or its idle or handshake timeout, and neither before nor long after. "
      "The callback learns of an orderly close as a close message and of any other end as an error, async_close sends its code, and once the session is over its connection is closed and its callback frame and socket are released, without disturbing other sessions.",
      ["schedules", "fault_sequences", "configurations"],
      "every way a session can end at every point of its exchange, idle timeout and keep-alive settings, stops of the server at any instant",
      "tests end sessions by an orderly close only",
      ["include/fitoria/web/websocket.hpp", SRV], [("session lifetime", "include/fitoria/web/websocket.hpp"), ("connection end after a session", SRV)],
      [("ws", 3), ("wss", 1)], ["virtual time of callback begin, last read and end, and of the connection's close", "live callback frames and descriptors", "AddressSanitizer"], NOTE),
    P("F01", "A served file arrives exactly, in full or as the range asked for, or visibly broken",
      "A file served by static_file or as a stream arrives byte for byte under valid framing. With a single byte range exactly that range is sent as 206 with a Content-Range that names it, a range that ends beyond the file is clamped or refused, a suffix longer than the file means all of it, and one outside the file is answered 416 with the file's size; a range in another unit never yields part of the file. "
      "A matching If-None-Match is answered 304 without a body and one that names another version is not, also while files are replaced, and one validator never stands for two contents that differ in length or in the second they were modified. If the disk fails or the file shrinks while it is read, the response is visibly incomplete, never a short body that looks complete, and the file is closed and never modified.",
      ["inputs", "schedules", "fault_sequences"],
      "every file size around the block size, every form of Range and If-None-Match, disk errors, short reads and delays at any read, files that change while they are served, clients that go away",
      "tests serve one small file from a quiet disk and look at a few fixed ranges",
      ["include/fitoria/web/static_file.hpp", "include/fitoria/web/async_readable_file_stream.hpp", "include/fitoria/http/header/range.hpp", "include/fitoria/http/header/if_none_match.hpp", SRV],
      [("range and validators", "include/fitoria/web/static_file.hpp"), ("file as body stream", "include/fitoria/web/async_readable_file_stream.hpp")],
      [("files", 1)], ["responses parsed by the simulated clients, compared with the simulated disk", "open files"], NOTE),
    P("F02", "An upload reported as stored is stored exactly",
      "When a handler streams a request body to a file and reports success, the file holds exactly the bytes the client sent, however they were framed, segmented and however the disk split its writes; a body that is cut short or too large, or a disk that fails or fills up, is reported as an error and never as success.",
      ["inputs", "schedules", "fault_sequences"],
      "every body size around the block size, both framings, connection loss at any byte, disk errors, full disk and short writes at any write",
      "tests write one small body to a real, healthy disk",
      ["include/fitoria/web/async_read_into_stream_file.hpp", "include/fitoria/web/async_message_parser_stream.hpp", "include/fitoria/core/dynamic_buffer.hpp"],
      [("body stream to file", "include/fitoria/web/async_read_into_stream_file.hpp")],
      [("files", 1)], ["content of the simulated disk compared with what was sent", "result seen by the handler"], NOTE),
    P("C01", "A compressed request body is decoded exactly or rejected",
      "With the decompress middleware a handler reads exactly the original bytes of a body sent as gzip, deflate, brotli or any chain of them, whatever the compressor's settings, the framing and the segmentation, and no longer sees Content-Encoding. "
      "A body that is truncated, corrupt, followed by further bytes, or in an encoding that is not supported is reported as an error and never read as a complete body, and decoding always ends.",
      ["inputs", "schedules", "fault_sequences"],
      "every content size and compressibility, compressor level, flush pattern and chain of encodings, damage and truncation at any byte, any segmentation, readers of any buffer size",
      "tests decode a few short, intact bodies that arrive in one piece",
      ["include/fitoria/web/middleware/decompress.hpp", "include/fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp", "include/fitoria/web/middleware/detail/async_inflate_stream.hpp", "include/fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp"],
      [("inflating streams", "include/fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp"), ("Content-Encoding chain", "include/fitoria/web/middleware/decompress.hpp")],
      [("codec", 1)], ["body and error seen by handlers", "answers received by clients"], NOTE),
    P("C02", "A compressed stream decodes to exactly what went in",
      "Whatever a body stream yields (any pieces, of any size, with pauses), the gzip, deflate and brotli compressing streams over it produce one complete stream that an independent decoder turns back into exactly those bytes; if the source fails, so does the compressed stream.",
      ["inputs", "schedules", "fault_sequences"],
      "every content size and compressibility, every division into pieces including large and empty ones, slow sources and readers of any buffer size",
      "tests compress a few short texts given in one piece",
      ["include/fitoria/web/middleware/detail/async_gzip_deflate_stream.hpp", "include/fitoria/web/middleware/detail/async_deflate_stream.hpp", "include/fitoria/web/middleware/detail/async_brotli_deflate_stream.hpp"],
      [("compressing streams", "include/fitoria/web/middleware/detail/async_gzip_deflate_stream.hpp")],
      [("codec", 1)], ["compressed bodies received by clients, decoded with zlib and brotli directly"], NOTE),
    P("M01", "Middlewares wrap exactly the routes they were given to, in order, and keep requests apart",
      "A request passes the middlewares of its enclosing scopes and route outermost first, each in the order defined by its registration, reaches the handler only if every one of them forwards it, and the response passes them back in reverse. "
      "What a middleware changes (headers, query, body, the response) is exactly what the next one sees, everything else is left as it was, and no change reaches another request. "
      "The exception handler turns an exception of anything it encloses into a 500 response and lets everything else through; an exception outside it ends only its own connection.",
      ["schedules", "inputs", "configurations"],
      "every combination of forwarding, blocking, replacing, delaying and throwing at every level, on overlapping requests of several connections",
      "tests chain one or two middlewares that always forward, one request at a time",
      ["include/fitoria/web/to_middleware.hpp", "include/fitoria/web/scope.hpp", "include/fitoria/web/route.hpp", "include/fitoria/web/request.hpp", "include/fitoria/web/middleware/exception_handler.hpp"],
      [("composition of services", "include/fitoria/web/scope.hpp"), ("request builder", "include/fitoria/web/request.hpp"), ("exception handler", "include/fitoria/web/middleware/exception_handler.hpp")],
      [("app", 1)], ["order in which middlewares and handlers ran", "requests as handlers saw them", "responses received"], NOTE),
    P("M02", "A handler sees the state of its nearest scope, shared by all requests",
      "For each type a handler sees the state set on its route, otherwise on the nearest enclosing scope that sets one, otherwise none; state set on one route or scope is never visible to a sibling or through a builder it was derived from. "
      "All requests, connections and routes below the place where a state was set share one instance of it.",
      ["configurations", "histories", "schedules"],
      "nested scopes and routes that set, shadow and omit states, builders that branch, requests in any order and overlap",
      "tests set up one or two scopes and make one request each",
      ["include/fitoria/web/state_storage.hpp", "include/fitoria/web/scope.hpp", "include/fitoria/web/route.hpp", "include/fitoria/web/state_of.hpp", SRV],
      [("state maps", "include/fitoria/web/state_storage.hpp")],
      [("app", 1)], ["states seen by handlers", "sequence of a shared counter"], NOTE),
    P("X01", "Extractors give the handler the request's own values or refuse the request",
      "Path parameters, query, form and JSON extractors deliver exactly the values the client encoded (percent-encoding, plus signs, numbers at the limits of their type, every JSON string escape), and a request whose values are missing, surplus (query and form fields), malformed or out of range gets a client error and never runs the handler, whatever the encoding, framing and segmentation. "
      "Direct extractors (headers, version, connection and path information, raw body) deliver those of the same request.",
      ["inputs", "schedules", "fault_sequences"],
      "arbitrary values, valid and invalid encodings, content types and number forms, bodies in any framing and segmentation, overlapping requests",
      "tests extract a few fixed, well-formed values",
      ["include/fitoria/web/from_request.hpp", "include/fitoria/web/path_of.hpp", "include/fitoria/web/query_of.hpp", "include/fitoria/web/form_of.hpp", "include/fitoria/web/json_of.hpp", "include/fitoria/web/detail/as_form.hpp", "include/fitoria/web/query_map.hpp"],
      [("extraction", "include/fitoria/web/from_request.hpp"), ("conversion of values", "include/fitoria/web/detail/as_form.hpp")],
      [("app", 1)], ["values seen by handlers compared with those encoded by the clients", "answers received"], NOTE),
    P("X02", "What a handler and its middlewares return is what the client gets",
      "Whatever a handler returns (a response built by any sequence of builder operations, text, bytes, JSON, a variant or an expected of these), and however middlewares around it then rebuild the response, the client receives the status, every header with all its values in order, and the body that result describes, with the media type of its kind and Content-Length or chunked as chosen. "
      "Headers are found, replaced and repeated regardless of the case of their names, and what is not touched stays as it was.",
      ["inputs", "schedules", "histories"],
      "random sequences of status, header and body operations in handler and middlewares, every kind of result and body, over overlapping connections with errors and delays",
      "tests build a few responses and look at one or two of their headers",
      ["include/fitoria/web/response.hpp", "include/fitoria/web/to_response.hpp", "include/fitoria/web/handler.hpp", "include/fitoria/web/any_body.hpp", "include/fitoria/http/header_map.hpp", "include/fitoria/http/status_code.hpp"],
      [("builder", "include/fitoria/web/response.hpp"), ("conversion of results", "include/fitoria/web/to_response.hpp")],
      [("app", 1)], ["answers received compared with a model of the operations", "values seen by handlers"], NOTE),
    P("R01", "Routing depends on the set of routes, not on the order of registration",
      "A request is served by a registered route whose pattern matches its path and method, with exactly the path parameters it has there; where several match, a literal segment is preferred to a parameter, and a parameter to a wildcard, at the leftmost place they differ. "
      "A path that no pattern matches is answered 404, characters of a pattern outside parameters stand for themselves, a parameter is never empty and never spans segments, two routes with the same pattern and method are refused at registration, and none of this depends on the order in which routes were registered or on other routes.",
      ["configurations", "inputs", "histories"],
      "random sets of overlapping patterns registered in random order, and paths derived from them by every small change",
      "tests register fixed sets of routes in one order and look up a few paths",
      ["include/fitoria/web/router.hpp", "include/fitoria/web/path_matcher.hpp", "include/fitoria/web/path_parser.hpp"],
      [("route tree", "include/fitoria/web/router.hpp"), ("pattern matching", "include/fitoria/web/path_matcher.hpp")],
      [("app", 1)], ["which route's handler ran with which parameters, compared with an independent matcher"], NOTE),
    P("L01", "Every record that passes the filter reaches every writer once and in order, before the logger is gone",
      "Each record logged at a level the filter allows reaches every writer exactly once, with its own level, message, time and source position, and no other record does. Records that one thread logs, or that were logged one after the other by different threads, are written in that order, the same for all writers, and a writer is never given a record before it is done with the previous one. "
      "A writer that throws or is slow affects neither the other writers nor later records. Destroying the logger first writes everything logged before, does not wait when nothing is left to write, and gives up after 30 seconds without touching freed memory.",
      ["schedules", "fault_sequences", "configurations", "crash_points"],
      "every interleaving of up to three logging threads with the writer, slow and throwing writers, any channel size and filter, destruction at any instant",
      "tests log from one thread and sleep until everything has been written",
      ["include/fitoria/log/async_logger.hpp", "include/fitoria/log/filter.hpp", "include/fitoria/log/registry.hpp", "include/fitoria/log/log.hpp"],
      [("channel from callers to the writing coroutine", "include/fitoria/log/async_logger.hpp"), ("destruction", "include/fitoria/log/async_logger.hpp")],
      [("log", 1)], ["records given to probe writers", "virtual time taken by destruction", "AddressSanitizer"], NOTE),
    P("L02", "Log files hold whole lines, in the order of the records, after what they held before",
      "The asynchronous file and stdout writers append one formatted line per record, in the order of the records, whole and unmixed however the system splits the writes; what a file held before is kept. A disk error costs at most the line it happens in, and the writers and records after it are not affected.",
      ["schedules", "fault_sequences"],
      "short writes, errors, full disk and delays at any write, several writers, reopening of the same file",
      "tests write a few lines to a healthy disk",
      ["include/fitoria/log/basic_async_stream_file_writer.hpp", "include/fitoria/log/async_stream_file_writer.hpp", "include/fitoria/log/async_stdout_writer.hpp", "include/fitoria/log/formatter.hpp"],
      [("file writer", "include/fitoria/log/basic_async_stream_file_writer.hpp")],
      [("log", 1)], ["content of the simulated disk and of the simulated standard output"], NOTE),
    P("L03", "Every request and every exception is recorded once, as it was",
      "With a default logger registered, the logging middleware writes exactly one record for every request whose response passes through it, with that request's peer, method, path, user agent and response status and the time its handling took; the exception-handling middleware answers 500 and records every exception it stops once, with its text. "
      "Records of concurrent requests are never mixed up, lost or doubled, nothing a client sends is taken for a format, and without a logger, or with a filter that excludes them, nothing is written and the responses are the same.",
      ["schedules", "inputs", "configurations"],
      "any concurrent requests over several connections and threads, handlers that wait, throw or answer any status, any path and user agent",
      "tests look at the response only, never at what is recorded",
      ["include/fitoria/web/middleware/logger.hpp", "include/fitoria/web/middleware/exception_handler.hpp", "include/fitoria/log/log.hpp", "include/fitoria/log/registry.hpp"],
      [("access records", "include/fitoria/web/middleware/logger.hpp"), ("exception records", "include/fitoria/web/middleware/exception_handler.hpp")],
      [("app", 1)], ["records given to a probe writer, compared with the requests the clients sent"], NOTE),
])

NA_PROPS = []


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for pid, p in list(PROPS.items()) + NA_PROPS:
            f.write(json.dumps({
                "id": pid, "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None},
            }) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "python3 build.py all",
        "checks": [{
            "property": pid,
            "quick_cmd": "python3 check.py %s --tier quick" % pid,
            "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
            "technique": TECH, "level": "exploration", "level_note": p["level_note"],
        } for pid, p in PROPS.items()],
        "not_applicable": [{"property": pid, "reason": p["reason"]} for pid, p in NA_PROPS],
        "notes": "No hooks were needed in /repo: every source of nondeterminism is intercepted below the code, at the C library boundary. See DESIGN.md.",
    }
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
