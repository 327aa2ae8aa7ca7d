#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
I = "/repo/include/HXLibs/".replace("/repo/", "")
def P(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": [I + f for f in files],
         "mechanism": [{"name": n, "where": I + w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": I + w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a}
L = []
add = lambda *a, **k: L.append(P(*a, **k))

# ---------------------------------------------------------------- network: HTTP
add("N01", "Request heads parse the same however the bytes arrive",
    "For every well-formed HTTP/1.x request head (distinct field names, lines that fit the 16 KB receive buffer), and for every way its bytes are split across reads, the server-side request reports exactly the method, target, path without query, protocol version, query parameters (split at & and at the first =) and header fields that were sent (header names compared case-insensitively). A peer that closes before the head is complete is reported as a closed connection, never as a parsed request.",
    ["inputs", "schedules"], "all request heads built from the grammar of method/target/version/header fields, times all fragmentations of their bytes into socket reads, times all truncation points",
    "The tests send a few fixed requests through one loopback write each; they never choose where the bytes are cut, nor vary the head.",
    ["net/protocol/http/Request.hpp", "net/socket/IO.hpp", "container/ArrayBuf.hpp", "net/protocol/http/Http.hpp", "utils/StringUtils.hpp"],
    [("parserReqHead / incremental line parser", "net/protocol/http/Request.hpp"), ("ArrayBuf carry-over", "container/ArrayBuf.hpp"), ("HeaderHashMap", "net/protocol/http/Http.hpp")])
add("N02", "Request bodies are delivered byte-exact under either framing",
    "For every request body framed by Content-Length or by chunked transfer coding, every chunking and every split of the bytes across reads, reading the body into memory or saving it to a file yields exactly the bytes that were sent and nothing that precedes or follows them. A body cut short by the peer is reported as a failure, never as a complete body, and leaves no file open.",
    ["inputs", "schedules", "crash_points"], "all bodies (0 bytes to several I/O buffers), chunk partitions, fragmentations of the wire bytes and peer-close positions",
    "Tests upload one or two files with one framing; chunk boundaries falling inside a read, between CR and LF, or bodies larger than the buffer are not enumerated.",
    ["net/protocol/http/Request.hpp", "container/ArrayBuf.hpp", "utils/FileUtils.hpp", "net/socket/IO.hpp"],
    [("parseBody / saveToFile", "net/protocol/http/Request.hpp"), ("chunk-size line parser", "net/protocol/http/Request.hpp")])
add("N03", "Responses parse byte-exact on the client however they arrive",
    "For every well-formed HTTP/1.1 response (distinct field names) with a Content-Length, chunked or empty body, and every split of its bytes across reads, the client-side response reports exactly the status code, header fields and body bytes that were sent. A response cut short by the peer is reported as a failure rather than as a complete response.",
    ["inputs", "schedules", "crash_points"], "all responses from the grammar, all fragmentations, all truncation points, and sequences of responses on one connection",
    "Tests only parse what this library's own server produces on loopback; other chunkings, header spellings and fragmentations never occur.",
    ["net/protocol/http/Response.hpp", "container/ArrayBuf.hpp", "net/socket/IO.hpp"],
    [("parserRes / parserResHead / parseBody", "net/protocol/http/Response.hpp")])
add("N04", "Requests sharing a connection are isolated from each other",
    "For every sequence of requests on one kept-alive connection, whether sent one at a time or pipelined and whether or not each handler reads its body, every request is dispatched exactly once, in order, with its own method, target, headers, parameters and body, and its response is exactly what it would be on a fresh connection. Requests that ask for the connection to be closed, or a peer that closes, end the connection after the response in progress.",
    ["histories", "inputs", "schedules"], "all request sequences (methods, bodies, framings, body-reading and body-ignoring handlers) and all fragmentations of the combined byte stream",
    "Tests reuse connections with a fixed script, one outstanding request at a time; leftovers in the buffers from a previous request are never varied.",
    ["net/server/ConnectionHandler.hpp", "net/protocol/http/Request.hpp", "net/protocol/http/Response.hpp", "container/ArrayBuf.hpp"],
    [("per-connection request loop", "net/server/ConnectionHandler.hpp"), ("request/response clear()", "net/protocol/http/Request.hpp")])
add("N05", "Arbitrary bytes from a peer never break the server side",
    "Whatever bytes a client sends to a connection, the connection ends or is answered without memory errors, undefined behaviour, escaping exceptions or endless work, no handler runs for a request whose head was never completed, and later connections to the same server are still served correctly.",
    ["inputs", "fault_sequences"], "all byte strings, in particular mutations of valid requests, and all disconnect points",
    "Unit tests never send malformed input.",
    ["net/protocol/http/Request.hpp", "net/server/ConnectionHandler.hpp", "container/ArrayBuf.hpp", "utils/StringUtils.hpp"],
    [("request parser", "net/protocol/http/Request.hpp"), ("connection handler error path", "net/server/ConnectionHandler.hpp")])
add("N06", "Every message sent is exactly one well-formed HTTP message",
    "Whatever method, target, status, headers and body the application sets, the bytes put on the wire by a request or response form exactly one HTTP/1.1 message that an independent parser decodes back to the same start line, header fields and body, with a Content-Length equal to the body size, for any body size and however slowly the peer drains the socket.",
    ["inputs", "schedules"], "all methods, targets, status codes, header maps and bodies up to many socket buffers, with any reader pacing",
    "Tests only read messages with the library's own parser, for a handful of small bodies.",
    ["net/protocol/http/Request.hpp", "net/protocol/http/Response.hpp", "net/socket/IO.hpp", "net/protocol/http/Status.hpp"],
    [("sendHttpReq", "net/protocol/http/Request.hpp"), ("sendRes", "net/protocol/http/Response.hpp"), ("fullySend", "net/socket/IO.hpp")])
add("N07", "Routing picks the handler the documented priority selects",
    "For every set of registered routes and every request path, the router selects the route whose pattern matches with literal segments preferred over single-segment parameters, those over a trailing wildcard, segment by segment from the left with backtracking, and independent of registration order; if none matches for the method, the not-found handler runs. The path parameters and the wildcard remainder handed to the handler are exactly the corresponding parts of the path.",
    ["inputs", "histories"], "all route tables over literal, parameter and wildcard segments, all methods and all request paths, with and without query strings",
    "Tests check a fixed table with some fixed paths; the interaction of overlapping patterns is combinatorial.",
    ["net/router/Router.hpp", "net/router/RouterTree.hpp", "container/RadixTree.hpp", "net/router/RequestParsing.hpp"],
    [("addEndpoint / getEndpoint", "net/router/Router.hpp"), ("segment tree", "net/router/RouterTree.hpp")])
add("N08", "Interceptors wrap the handler in order and can veto it",
    "For every list of interceptors attached to an endpoint (the not-found handler included), the before hooks run in registration order up to the first that returns false; the handler runs exactly when none did; then, also after a veto, the after hooks run in registration order up to the first that returns false. Each runs at most once per request and none runs for another endpoint's request.",
    ["inputs", "configurations"], "all interceptor lists (before, after, both), all allow/veto outcomes and request sequences",
    "Tests use one endpoint with one chain where everything is allowed.",
    ["net/router/Router.hpp"], [("interceptor chain built by addEndpoint", "net/router/Router.hpp")])
add("N09", "Text to number conversion is exact or refused",
    "For every integer, floating-point number, boolean or string written in a path segment, converting the path parameter to a type that can hold it yields exactly that value, and a segment that is not a number of that type or is out of its range is refused with an exception, never turned into some other value.",
    ["inputs"], "all texts and all target types offered by the path-parameter API",
    "Tests convert two or three small numbers.",
    ["net/router/RequestParsing.hpp", "reflection/deserialization/Numer.hpp", "utils/StringUtils.hpp"],
    [("PathParam conversions", "net/router/RequestParsing.hpp")])
add("N10", "Files sent with chunked coding arrive byte-exact",
    "For every file, sending it as a chunked response or uploading it as a chunked request puts on the wire one well-formed chunked message, terminated exactly once, whose decoded body equals the file and whose content type follows from the file name; a following message on the same connection is unaffected.",
    ["inputs", "schedules"], "all file sizes around 0, the file buffer and the socket buffer, all contents, and any reader pacing",
    "Tests transfer one or two existing files of fixed size.",
    ["net/protocol/http/Response.hpp", "net/protocol/http/Request.hpp", "utils/FileUtils.hpp", "net/protocol/http/MimeType.hpp"],
    [("useChunkedEncodingTransferFile", "net/protocol/http/Response.hpp"), ("sendChunkedReq", "net/protocol/http/Request.hpp")])
add("N11", "Range responses carry exactly the requested bytes",
    "For every file and every byte-range request, a response without a Range header carries the whole file with 200; a satisfiable single range (first-last, open-ended or suffix, clamped to the file) carries exactly those bytes with 206 and matching Content-Range and Content-Length; several satisfiable ranges are each carried exactly once, in order, in a well-formed multipart message; and an unsatisfiable or malformed range is refused with 416. HEAD requests carry the headers without the body.",
    ["inputs"], "all file sizes and all Range header texts (single, open, suffix, multiple, out of bounds, malformed)",
    "Tests download one file through two or three fixed ranges.",
    ["net/protocol/http/Response.hpp", "net/protocol/http/Request.hpp", "utils/FileUtils.hpp"],
    [("useRangeTransferFile", "net/protocol/http/Response.hpp"), ("getRangeRequestView", "net/protocol/http/Request.hpp")])
add("N25", "A file that changes while it is sent never corrupts the connection",
    "However a file is appended to, truncated, rewritten, removed or replaced by a directory before or while it is sent (whole, as one or several ranges, with chunked coding, or as a chunked upload), the message that announces it is either completed under its own framing with bytes the file held at those positions and followed by the next message, or the connection ends right there; it is completed whenever the file never became too short, no descriptor stays open, and a peer that leaves in the middle only ends its own connection.",
    ["inputs", "schedules", "crash_points"], "all files, all moments and kinds of change, all paces of the reader",
    "Tests only send files that stay as they are.",
    ["net/protocol/http/Response.hpp", "net/protocol/http/Request.hpp", "utils/FileUtils.hpp", "net/server/ConnectionHandler.hpp"],
    [("useRangeTransferFile", "net/protocol/http/Response.hpp"), ("useChunkedEncodingTransferFile", "net/protocol/http/Response.hpp"), ("sendChunkedReq", "net/protocol/http/Request.hpp")])
add("N26", "Servers serve exactly what was registered, from start to stop",
    "For every set of endpoints registered on a server directly or through controllers with injected dependencies (any methods, all of them when none is named, with or without interceptors): init() runs once, before anything listens, every thread listens once the start returns and a second start is refused; each request is then answered by the endpoint registered for its method and path (404 if none), HEAD with the head alone; and however the server is stopped (synchronously, asynchronously, by destruction, from a handler), every request already being handled is answered in full before it counts as stopped, afterwards nothing listens and the injected objects are released.",
    ["histories", "schedules", "configurations"], "all sets of endpoints and ways to register them, all request histories, all ways and moments to stop a server",
    "Tests start a server once with a few fixed endpoints and hardly stop it while requests are under way.",
    ["net/server/HttpServer.hpp", "net/Api.hpp", "net/ApiMacro.hpp", "net/server/Acceptor.hpp", "net/server/ConnectionHandler.hpp"],
    [("HttpServer::addEndpoint / addController / asyncRun / syncStop / asyncStop", "net/server/HttpServer.hpp"), ("ConnectionHandler::start", "net/server/ConnectionHandler.hpp"), ("HEAD answers", "net/protocol/http/Response.hpp")])
add("N27", "Whatever a server sends, a client call ends with its own answer or an error",
    "Whatever bytes a server sends to a plain call, an event stream, a WebSocket or a proxy connection, the operation ends with a result or an error, without memory errors, undefined behaviour, escaping exceptions or endless work; interim (1xx) answers are skipped, answers without a body (to HEAD, or with status 204 or 304) end with their head whatever length they announce; over any sequence of calls only a whole answer to that very call is returned (bytes behind an answer are never taken for the next one), a call whose whole answer was sent on a live connection succeeds, it is sent at most once more (when reconnecting is enabled), and after a failure the client can be used again.",
    ["inputs", "histories", "schedules"], "all byte streams and their fragmentations, all sequences of calls and of whole, interim, bodiless, damaged, cut or stalled answers",
    "Tests only let this library's own server answer, which sends neither interim answers nor damaged ones.",
    ["net/protocol/http/Response.hpp", "net/client/HttpClient.hpp", "net/protocol/websocket/WebSocket.hpp", "net/protocol/proxy/HttpProxy.hpp", "net/protocol/proxy/Socks5Proxy.hpp"],
    [("parserRes / parserResHead / parserSseStrem", "net/protocol/http/Response.hpp"), ("exchange", "net/client/HttpClient.hpp"), ("WebSocketFactory::connect", "net/protocol/websocket/WebSocket.hpp")])
# ---------------------------------------------------------------- WebSocket / SSE
add("N28", "Every form of client call sends what it was given and honours its timeout",
    "For every sequence of client calls in any form (GET, POST, other methods, chunked upload, event stream, WebSocket; directly, through a pool, or as a coroutine), each request carries exactly the method, target, headers, content type and body of its own call and nothing of earlier calls, and its answer is delivered whole. When the server stalls at any point of its answer, the call fails no earlier than the timeout it was given and without waiting indefinitely, and later calls of the same client work. The caller's own arguments are left as they were unless they are moved.",
    ["inputs", "histories", "fault_sequences"], "all sequences of calls of every form, with generated targets, headers, content types and bodies, and all stall positions in the answers",
    "Tests make a few calls of single forms with fixed arguments to a server that answers.",
    ["net/client/HttpClient.hpp", "net/client/HttpClientPool.hpp", "net/client/HttpClientOptions.hpp", "net/protocol/http/Request.hpp"],
    [("HttpBaseClient", "net/client/HttpClient.hpp"), ("HttpBaseClientPool", "net/client/HttpClientPool.hpp")])
add("N12", "WebSocket messages round-trip between both ends",
    "For every sequence of text and binary messages of any length, from either role, what one end sends the other end receives once, in order, with the same type and bytes, for any split of the bytes across reads; client frames are masked and server frames are not, and lengths use the shortest encoding.",
    ["inputs", "schedules", "histories"], "all message sequences with lengths around 0, 125/126, 65535/65536 and beyond, both roles, all mask keys and fragmentations",
    "Tests exchange a few short strings on loopback, so multi-byte lengths, split frame headers and masks are barely touched.",
    ["net/protocol/websocket/WebSocket.hpp", "net/socket/IO.hpp", "utils/ByteUtils.hpp"],
    [("sendPacket / recvPacket", "net/protocol/websocket/WebSocket.hpp")])
add("N13", "WebSocket reception follows RFC 6455 framing rules",
    "For every frame sequence from a peer, fragmented messages are reassembled exactly, control frames interleaved among the fragments are answered or absorbed without disturbing the message (a ping is answered by a pong with the same payload), a close frame is answered with a close and reported as the end of the connection, and frames that violate the protocol (wrong masking for the role, reserved bits or opcodes, fragmented or oversized control frames, a stray continuation, a new message inside a fragmented one) are reported as errors, never delivered as data.",
    ["inputs", "histories"], "all frame sequences over opcode, FIN, mask and payload length, valid and invalid, and any fragmentation of the bytes",
    "The library never sends fragmented or invalid frames itself, so its own tests cannot reach the reassembly or rejection code.",
    ["net/protocol/websocket/WebSocket.hpp"], [("recv state machine", "net/protocol/websocket/WebSocket.hpp")])
add("N14", "WebSocket handshakes validate and lose no bytes",
    "For every upgrade request, the server accepts exactly those that carry an Origin, a Sec-WebSocket-Key, an Upgrade field naming websocket and a Connection field naming Upgrade (in any letter case, possibly in a list), answers the others with an error status, and replies to an accepted one with 101 and the accept key derived from the client's key; the client accepts only a 101 reply with Upgrade, Connection and the matching accept key; and frame bytes arriving together with the handshake on either side are delivered as the first frames.",
    ["inputs", "schedules"], "all keys, header spellings and missing or wrong fields, and all positions at which handshake and first frames are split across reads",
    "Tests perform the handshake with this library on both ends and only send frames later.",
    ["net/protocol/websocket/WebSocket.hpp", "net/protocol/codec/SHA1.hpp", "net/protocol/codec/Base64.hpp"],
    [("WebSocketFactory accept / connect", "net/protocol/websocket/WebSocket.hpp")])
add("N15", "Server-sent events round-trip in order",
    "For every sequence of events written by this library's server (with or without a single-line id, event name, retry, and single- or multi-line data without CR or NUL), and for every well-formed event stream of another server (LF or CRLF line ends, a blank after the colon or none, comments, unknown fields), a client reading the stream receives the same events with the same fields in the same order, for any split of the bytes across reads.",
    ["inputs", "schedules", "histories"], "all event sequences and fragmentations",
    "Tests push a handful of fixed events over loopback.",
    ["net/protocol/http/Response.hpp"], [("SSE writer makeSseStream and reader parserSseStrem", "net/protocol/http/Response.hpp")])
add("N16", "URLs are decomposed into their parts",
    "For every URL scheme://[user[:password]@]host[:port][/path][?query], the extracted scheme, credentials, host, port (or scheme default) and path with query are exactly the corresponding parts, whatever characters legal in one part look like delimiters of another.",
    ["inputs"], "all URLs of that grammar", "Tests parse a few ordinary URLs.",
    ["net/protocol/url/UrlParse.hpp"], [("URL extraction helpers", "net/protocol/url/UrlParse.hpp")])
add("N17", "Base64, Base64url and SHA-1 agree with the standards",
    "For every byte string, the Base64 and Base64url encoders and the SHA-1 digest produce the standard result, and Base64url decoding inverts its encoding and refuses text outside the alphabet or of impossible length.",
    ["inputs"], "all byte strings, all lengths modulo the block sizes, all texts for decoding",
    "Tests check a couple of known strings.",
    ["net/protocol/codec/Base64.hpp", "net/protocol/codec/Base64Url.hpp", "net/protocol/codec/SHA1.hpp"],
    [("codecs", "net/protocol/codec")])
add("N18", "Tokens round-trip and reject any tampering",
    "For every payload and key, a token decodes under its own key to exactly the payload that was encoded; under a different key, after any change to the token text, or for arbitrary text, decoding fails and never yields a payload, and two encodings of one payload do not repeat.",
    ["inputs"], "all payloads, keys, single and multiple modifications of a token, and arbitrary texts",
    "Tests encode and decode one payload.",
    ["net/token/Token.hpp", "net/token/tools/Aes256Gcm.hpp", "net/protocol/codec/Base64Url.hpp"],
    [("Token encode/decode", "net/token/Token.hpp"), ("AES-256-GCM wrapper", "net/token/tools/Aes256Gcm.hpp")])
add("N19", "Client and server agree end to end over real connections",
    "For every sequence of client calls (methods, headers, bodies, file uploads) against a running multi-threaded server, including after the server or the network drops the connection between or within requests, each call returns the response to that very request with the echoed data intact, or an error; on an intact connection each request reaches the server exactly once; concurrent clients never see each other's data; a call that cannot connect fails without harming later ones; and the server stops cleanly when asked.",
    ["histories", "fault_sequences", "schedules"], "all call sequences, client counts, server thread counts and disconnect points between requests",
    "Tests run one scripted sequence per feature.",
    ["net/client/HttpClient.hpp", "net/client/HttpClientPool.hpp", "net/server/HttpServer.hpp", "net/server/Acceptor.hpp", "net/server/ConnectionHandler.hpp"],
    [("HttpClient request path and reconnect", "net/client/HttpClient.hpp"), ("server accept loop", "net/server/Acceptor.hpp")])
add("N20", "Proxy handshakes send and accept exactly the specified bytes",
    "For every target and credential pair, connecting through a SOCKS5 or HTTP proxy sends exactly the handshake the protocol specifies, consumes exactly the proxy's replies so that later bytes belong to the tunnelled stream, and reports a refusal, an authentication failure or an unsupported method as an error.",
    ["inputs", "schedules", "fault_sequences"], "all host names, ports, credentials, proxy replies (success and every failure) and splits of the replies across reads",
    "No test drives a proxy.",
    ["net/protocol/proxy/Socks5Proxy.hpp", "net/protocol/proxy/HttpProxy.hpp", "net/protocol/proxy/Proxy.hpp"],
    [("Socks5Proxy", "net/protocol/proxy/Socks5Proxy.hpp"), ("HttpProxy", "net/protocol/proxy/HttpProxy.hpp")])
add("N21", "HTTPS carries the same bytes as plain HTTP",
    "For every exchange of messages, of any size and in either direction, the TLS transport delivers to the peer exactly the bytes written, in order, for any fragmentation of the encrypted stream, and a connection whose handshake fails or whose stream is cut or corrupted reports an error or end of stream, never altered data. Where verification of the peer is configured, no data passes in either direction unless the peer shows a certificate that chains to a trusted authority and is valid now (a server told to verify demands one); the configured certificate is the one shown to the peer, and a certificate and key that cannot be used together are refused.",
    ["inputs", "schedules", "fault_sequences"], "all message sizes around the record, BIO and socket buffer sizes, fragmentations and cut points",
    "Tests fetch one small page over TLS.",
    ["net/protocol/https/Https.hpp", "net/socket/IO.hpp", "net/protocol/https/Context.hpp"],
    [("HttpsIO", "net/socket/IO.hpp"), ("SSL state machine", "net/protocol/https/Https.hpp")])
add("N22", "Timeouts fire for stalled peers and never early",
    "For every read with a timeout, a peer that stalls at any byte position makes the operation fail no earlier than the timeout and without waiting indefinitely, and a peer that finishes in time is never cut off; after a timeout nothing is delivered as complete data.",
    ["schedules", "fault_sequences"], "all stall positions in head, body and frames, and all stall lengths relative to the timeout",
    "Tests wait on one stalled read.",
    ["net/socket/IO.hpp", "coroutine/task/AioTask.hpp", "net/protocol/http/Request.hpp"],
    [("recvLinkTimeout", "net/socket/IO.hpp")])
add("N23", "The OpenAI client sends the request it was given and delivers every chunk",
    "For every chat request (messages with text or parts, tools, options set or not) and every history of plain and streamed calls on one OpenAiClient over HTTP, the endpoint receives exactly one POST to the base URL's path followed by /chat/completions, with the API key as bearer token, content type JSON and a JSON body that denotes exactly the members that were set, with stream true for streamed and false for plain calls. A plain call yields the status and body that were answered. A streamed call hands every chunk of the event stream to the callback once, in order and with the values it was spelled from (any JSON spelling, members left out or null, any fragmentation, pings in between), passes over [DONE] markers, stops at the first chunk that is malformed or whose callback throws, reports that exception, and leaves the client usable for further calls.",
    ["inputs", "schedules", "histories"], "all requests from the grammar, all streams of chunks, spellings and fragmentations, all short histories of calls on one client",
    "The example is disabled in the test run and nothing else exercises the client, its requests or its stream.",
    ["ai/openai.hpp", "net/client/HttpClient.hpp", "net/protocol/http/Response.hpp", "reflection/json/JsonWrite.hpp", "reflection/json/JsonRead.hpp"],
    [("OpenAiClient::chat / coChat", "ai/openai.hpp"), ("coSseLoop", "net/client/HttpClient.hpp"), ("parserSseStrem", "net/protocol/http/Response.hpp")])
add("N24", "Address resolution and listening sockets are exact",
    "For every numeric IPv4 or IPv6 host and every port or service name, given as views that need not be terminated and resolved any number of times on one resolver (moved in between, failing resolutions interleaved), resolution yields only addresses of exactly that host and port, and reports an unknown service as an error naming what was asked for. A socket made, bound and listening for such a result, plain or the server's acceptor, is reachable at that address, which several may share; one that cannot be bound is reported as an error and leaves no descriptor open, and nothing is leaked. The helpers that turn system results into values or errors report exactly the failing results, with their error code.",
    ["inputs", "histories"], "all hosts, ports, services and surrounding bytes, all histories of calls on one resolver",
    "Tests bind fixed loopback ports and resolve literals.",
    ["net/socket/AddressResolver.hpp", "net/server/Acceptor.hpp", "exception/ErrorHandlingTools.hpp"],
    [("AddressResolver", "net/socket/AddressResolver.hpp"), ("makeServerFd", "net/server/Acceptor.hpp"), ("ErrorHandlingTools", "exception/ErrorHandlingTools.hpp")])

# ---------------------------------------------------------------- coroutines / concurrency
add("A01", "A thread pool runs every task once and delivers its outcome",
    "For every history of submissions from any number of threads to a fixed or elastic pool, each submitted task runs exactly once while the pool lives, its future becomes ready only after the task finished and yields exactly the value it returned or the exception it threw, and destroying the pool never hangs, runs a task twice or leaves one running; a pool with the default strategy keeps its worker count within the configured bounds.",
    ["schedules", "histories"], "all submission histories, task outcomes (value, void, exception), pool sizes and strategies, and thread interleavings",
    "Tests submit a few tasks with one pool size.",
    ["container/ThreadPool.hpp", "container/FutureResult.hpp", "container/SafeQueue.hpp", "container/MoveOnlyFunction.hpp"],
    [("ThreadPool", "container/ThreadPool.hpp"), ("FutureResult", "container/FutureResult.hpp")])
add("A02", "Future continuations observe exactly one outcome",
    "For every chain of continuations attached to a future, whether attached before or after it becomes ready and whether consumed by a continuation, by a blocking get, or by awaiting it on an event loop, each continuation runs exactly once with the previous outcome, a value or exception it produces becomes the outcome of the next link, nothing is lost or duplicated, and an awaiting coroutine goes on in its event loop's thread while timers and I/O on that loop keep working.",
    ["schedules", "histories"], "all continuation chains over returning, throwing, void and wrapped-result callbacks, and attach/complete interleavings",
    "Tests chain one or two callbacks that succeed.",
    ["container/FutureResult.hpp", "container/Try.hpp"],
    [("thenTry / via / await", "container/FutureResult.hpp")])
add("A03", "Waiting for all collects every outcome in position",
    "For every set of coroutines awaited together, finishing in any order, immediately or after timers, each with a value, void or an exception, waiting for all resumes once, after all have finished, with each outcome in its own position.",
    ["schedules", "inputs"], "all combinations of task kinds, completion orders and outcomes",
    "Tests wait on two or three timers.",
    ["coroutine/awaiter/WhenAll.hpp"], [("whenAll", "coroutine/awaiter/WhenAll.hpp")])
add("A04", "Waiting for any yields the first finisher once",
    "For every set of coroutines raced together in one awaiting expression, the race resumes exactly once, with the index and value of the coroutine that finished first (or its exception), and the losers neither run the winner's continuation again nor corrupt or leak state.",
    ["schedules", "inputs"], "all combinations of task kinds, delays and outcomes, nested races included",
    "Tests race two timers.",
    ["coroutine/awaiter/WhenAny.hpp"], [("whenAny", "coroutine/awaiter/WhenAny.hpp")])
add("A05", "Coroutine tasks propagate values, exceptions and order",
    "For every tree of coroutine calls, results and exceptions travel to exactly the awaiting caller, generators yield their values in order, statements execute in the order sequential code would, and every object living in a coroutine frame is destroyed exactly once.",
    ["programs"], "all call trees with values, references, move-only results, exceptions, generators and early destruction",
    "Tests run a few fixed coroutines.",
    ["coroutine/task/Task.hpp", "coroutine/promise/Promise.hpp", "coroutine/task/RootTask.hpp", "coroutine/loop/EventLoop.hpp"],
    [("promise result storage and final suspend", "coroutine/promise/Promise.hpp")])
add("A06", "Timers fire in deadline order, never early, and nothing starves",
    "For every set of concurrently started sleeps and yields on an event loop, each sleep resumes once, not before its deadline, in order of deadline with ties in start order, the loop finishes when all are done, and yielding coroutines alternate fairly and make progress while timers or I/O are pending, and vice versa.",
    ["schedules", "histories"], "all mixtures of sleeps, absolute deadlines, yields and pending I/O",
    "Tests sleep two or three fixed durations.",
    ["coroutine/loop/TimerLoop.hpp", "coroutine/loop/EventLoop.hpp", "coroutine/loop/ThreadLoop.hpp"],
    [("timer tree and yield queue", "coroutine/loop/TimerLoop.hpp")])
add("A07", "Serial executors run sections one at a time in FIFO order",
    "For every set of coroutines submitting sections to a SerialExecutor on one event loop, sections never overlap, run once each in submission order, each submitter continues only after its own section has finished and receives its own section's exception if that threw and no other, and after a section throws the executor keeps serving later submissions.",
    ["schedules", "histories"], "all submission histories, suspending and non-suspending sections, values and exceptions",
    "Tests use sections that all succeed.",
    ["coroutine/executor/SerialExecutor.hpp"],
    [("SerialExecutor queue", "coroutine/executor/SerialExecutor.hpp")])
add("A08", "Asynchronous files behave like a byte array with a cursor",
    "For every sequence of opens in any mode, reads, writes, seeks of the read position, read-alls and closes on a file, through the asynchronous or the synchronous API, the data returned and the file left on disk are those of a plain byte-array model of the file.",
    ["histories", "inputs"], "all operation sequences, sizes around the I/O buffer, and open modes",
    "Tests write and read one file.",
    ["utils/FileUtils.hpp", "platform/LocalFdApi.hpp", "coroutine/task/AioTask.hpp"],
    [("AsyncFile", "utils/FileUtils.hpp")])
# ---------------------------------------------------------------- reflection / JSON / log
add("R01", "JSON serialisation round-trips and is valid JSON",
    "For every value of every supported reflected type, the JSON written for it is a valid JSON document denoting that value to an independent parser, and reading it back into the same type yields an equal value.",
    ["inputs", "programs"], "all values of nested aggregates, containers, optionals, smart pointers, enums, variants, tuples, strings with any Unicode text, integers and finite floats",
    "Tests print a few fixed structs.",
    ["reflection/json/JsonWrite.hpp", "reflection/json/JsonRead.hpp", "reflection/MemberName.hpp", "reflection/EnumName.hpp"],
    [("toJson", "reflection/json/JsonWrite.hpp"), ("fromJson", "reflection/json/JsonRead.hpp")])
add("R02", "JSON reading accepts every spelling and rejects the rest safely",
    "For every spelling of a JSON document (whitespace, member order, escapes, number notation), reading it into an object of a matching type, whatever that held before, yields the value it denotes; a value of another kind or out of range, an unknown member, a misspelt literal, an unpaired surrogate or broken \\u escape, damaged brackets, commas or colons, and in particular any truncation of a document, is reported as an error, without memory errors or reads beyond the input.",
    ["inputs"], "all spellings of documents of the supported shapes, all truncations and mutations of them",
    "Tests parse a few hand-written documents.",
    ["reflection/json/JsonRead.hpp", "reflection/deserialization/Numer.hpp"],
    [("fromJson", "reflection/json/JsonRead.hpp")])
add("R03", "Log formatting renders every value faithfully",
    "For every supported value, its textual rendering (compact or pretty, to a string or to a stream) is the documented nesting of its elements in order, the string and stream forms agree, and the members of a reflected type appear by name, each exactly once, with their values.",
    ["inputs", "programs"], "all values of nested containers, aggregates, optionals, variants, tuples, pointers, strings and numbers",
    "Tests print a few values and look at them.",
    ["log/serialize/ToString.hpp", "log/serialize/FormatString.hpp", "log/serialize/CustomToString.hpp", "log/Log.hpp"],
    [("toString", "log/serialize/ToString.hpp"), ("FormatString", "log/serialize/FormatString.hpp")])
add("R05", "Log lines come out whole and in order",
    "For every sequence of log calls made by any number of threads, standard output consists of exactly one line for each call: its level's tag and the rendering of every argument, whatever bytes it contains, followed by a space. No line is interrupted by another, and the lines of one thread appear in the order of its calls.",
    ["inputs", "schedules"], "all argument lists including texts with NUL, percent signs, escapes and thousands of bytes, and all interleavings of several threads",
    "Tests look at the printed text of single calls from one thread.",
    ["log/Log.hpp", "log/serialize/FormatString.hpp"],
    [("hxLog", "log/Log.hpp")])
add("R04", "Reflection reports the true shape of a type",
    "For every reflectable aggregate and enum, member count, member names, member order, name lookup, member-pointer to name and index mappings, and enum value to name and name to value conversions agree with the declaration, and visiting members reads and writes exactly those members.",
    ["programs", "inputs"], "all generated aggregates (member counts, types, names) and enums (values within the documented range)",
    "Tests check a few hand-written structs.",
    ["reflection/MemberName.hpp", "reflection/MemberCount.hpp", "reflection/MemberPtr.hpp", "reflection/EnumName.hpp", "reflection/TypeName.hpp", "reflection/ReflectionMacro.hpp"],
    [("compile-time reflection", "reflection/MemberName.hpp")])
# ---------------------------------------------------------------- containers / utils
add("K01", "Compile-time maps and vectors behave like their models",
    "For every content, the constant hash map finds exactly the stored keys with their values and reports every other key as absent, the fixed-capacity vector and the radix tree hold exactly what was inserted, and iteration visits every element exactly once.",
    ["inputs", "histories"], "all key sets and queries, all insert sequences within capacity",
    "Tests look up a few keys.",
    ["container/CHashMap.hpp", "container/CPmhTable.hpp", "container/CPmhBucket.hpp", "container/CVector.hpp", "container/RadixTree.hpp", "meta/Hash.hpp"],
    [("CHashMap", "container/CHashMap.hpp"), ("CVector", "container/CVector.hpp"), ("RadixTree", "container/RadixTree.hpp")])
add("K02", "Value holders construct and destroy exactly once and keep values",
    "For every sequence of constructions, assignments, emplacements, swaps, moves, resets and failing constructions on the variant, the uninitialised holder and the value-or-exception holder, the reported alternative and value are those of a model, and every contained object is constructed and destroyed exactly once.",
    ["histories"], "all operation sequences over trivially and non-trivially copyable, move-only and throwing element types",
    "Tests run a few fixed sequences without counting objects.",
    ["container/UninitializedNonVoidVariant.hpp", "container/Uninitialized.hpp", "container/Try.hpp", "container/NonVoidHelper.hpp"],
    [("UninitializedNonVoidVariant", "container/UninitializedNonVoidVariant.hpp"), ("Uninitialized", "container/Uninitialized.hpp"), ("Try", "container/Try.hpp")])
add("K03", "Coroutine-local shared pointers count references exactly",
    "For every sequence of copies, moves, assignments, swaps and resets of shared pointers, the reported use count is the number of live owners, the object is destroyed exactly once, when the last owner goes, and access always reaches the same object.",
    ["histories"], "all operation sequences over several pointers and objects",
    "Tests run one fixed scenario.",
    ["container/CoSharedPtr.hpp"], [("CoSharedPtr", "container/CoSharedPtr.hpp")])
add("K04", "Deferred calls, queues and buffers hand over their contents exactly once",
    "For every callable and list of arguments, the preserved argument tuple, moveApply and the move-only function call the callable on exactly the arguments given: references reach the caller's objects, values are moved and never copied, and everything held is destroyed exactly once. For every history on the thread-safe queue, every element put in comes out exactly once and in the order put in (the order of each producer when several threads use it), and its size and emptiness agree with a model. For every sequence of writes, cuts and moves to the head, the array buffer holds exactly what was written to it.",
    ["histories", "inputs", "schedules"], "all argument kinds, all operation sequences over elements of every size, interleavings of several producers and consumers",
    "Tests print a few results and count no copies, moves or destructions.",
    ["container/MoveApply.hpp", "container/MoveOnlyFunction.hpp", "container/SafeQueue.hpp", "container/ArrayBuf.hpp"],
    [("moveApply", "container/MoveApply.hpp"), ("MoveOnlyFunction", "container/MoveOnlyFunction.hpp"), ("SafeQueue", "container/SafeQueue.hpp"), ("ArrayBuf", "container/ArrayBuf.hpp")])
add("U01", "String utilities agree with their reference definitions",
    "For every input, splitting, case conversion, trimming and joining helpers, number-base conversion and fixed-string operations give the result of a straightforward reference definition, conversions that have an inverse round-trip, and dates name the moment at which they are made in the stated format.",
    ["inputs"], "all strings, delimiters, numbers and bases, and all moments",
    "Tests check a few strings.",
    ["utils/StringUtils.hpp", "utils/NumericBaseConverter.hpp", "utils/ByteUtils.hpp", "meta/FixedString.hpp", "utils/TimeNTTP.hpp"],
    [("string helpers", "utils/StringUtils.hpp"), ("base converter", "utils/NumericBaseConverter.hpp")])
# ---------------------------------------------------------------- database
add("D01", "Stored rows read back equal",
    "For every table of the supported column types (signed integers, floating point numbers, text, blobs, user-converted types, optionals of these) and every row of values, inserting it (as an object, with or without its key, or by columns), updating it and selecting it back yields equal values on this connection and on any other, including empty and arbitrary strings, extreme numbers and absent optionals; auto-increment keys and defaults are filled as declared, RETURNING gives the stored row, a statement that breaks a declared constraint fails and changes nothing, and rows survive closing and reopening the database.",
    ["inputs", "programs"], "all values of the supported column types and all statement histories over seven tables covering every column type and constraint",
    "Tests insert a few rows of one or two tables.",
    ["db/sqlite3/SqliteStmt.hpp", "db/sqlite3/SqliteDB.hpp", "db/sqlite3/MakeCreateDbSql.hpp", "db/sql/ColumnResult.hpp", "db/sql/CustomType.hpp"],
    [("bind / column read", "db/sqlite3/SqliteStmt.hpp")])
add("D02", "Queries and changes return what the expression means",
    "For every table content and every built query, update or deletion (conditions over columns, parameters and constants with comparison, logical and arithmetic operators, membership lists, pattern and null tests, grouping, aggregates, ordering, limits, joins), the rows returned or changed are those the expression denotes over a relational model, and repeating a statement with other parameters gives the result for those parameters.",
    ["inputs", "programs", "histories"], "all row sets, parameter values and statement sequences over a family of statement shapes covering every operator",
    "Tests compare the generated SQL text of a few statements or count rows of one query.",
    ["db/sql/Expression.hpp", "db/sql/Dml.hpp", "db/sql/Column.hpp", "db/sql/Aggregate.hpp", "db/sql/Param.hpp", "db/sql/Stmt.hpp", "db/sql/DataBase.hpp"],
    [("expression rendering and binding", "db/sql/Expression.hpp"), ("statement builder and cache", "db/sql/Dml.hpp")])
add("D03", "Storage failures are reported and leave no partial effect",
    "Whatever fails underneath a statement (reads, writes, a full disk, locks held by other connections, page limits, read-only mode, refused opens, violated constraints), the library either performs the whole statement and returns its full result, or reports a failure and the stored rows are those from before it; a query never reports success with some of its rows; and once the cause is gone the same statement object works again, also when it was its preparation that failed.",
    ["histories", "crash_points", "inputs"], "all histories of statements and all points at which the storage layer can refuse a call, in rollback-journal and WAL mode",
    "Tests run statements only against healthy storage.",
    ["db/sql/Dml.hpp", "db/sqlite3/SqliteStmt.hpp", "db/sqlite3/SqliteDB.hpp", "db/sql/DataBase.hpp"],
    [("selectForEach", "db/sqlite3/SqliteStmt.hpp"), ("returningForEach", "db/sqlite3/SqliteStmt.hpp"), ("resetGuard", "db/sql/Dml.hpp"), ("createDatabase", "db/sqlite3/SqliteDB.hpp")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in L:
        assert len(p["title"]) <= 80, p["title"]
        for fn in p["anchors"]["files"]:
            assert os.path.exists("/repo/" + fn), fn
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(L), "properties")
