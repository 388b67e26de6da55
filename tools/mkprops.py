#!/usr/bin/env python3
# Writes properties.jsonl (the list is easier to maintain here than as one-line JSON).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["bytes on the client's connection"]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

TESTS = "The unit tests call single functions (frame, header, config, string, allocation, socket, plugin loading) on one thread; no test runs the server, a worker thread or a connection"
prop("C01", "Echo: every message comes back exactly once, intact and in order",
  "A client using the echo subprotocol gets back every complete text or binary message it sends exactly once, in the order sent, with the same bytes and the same type. This holds however the messages are split into WebSocket fragments, interleaved with control frames, cut up or merged by the transport, and however slowly the client reads. A Close sent after them is answered only after all their echoes.",
  ["inputs", "schedules", "fault_sequences"], "all message sequences, fragmentations and transport segmentations; all interleavings of event loop, workers and cleanup thread; short, interrupted and would-block reads and writes",
  TESTS + ", so reassembly across reads, hand-over between workers and partial writes are never exercised.",
  ["src/worker.c", "src/frame.c", "src/message.c", "src/ringbuf.c", "src/event.c", "subprotocols/echo/echo.c"],
  [("read, split into frames, reassemble and dispatch", "src/worker.c WSS_read, handle_frame, handle_dispatch, handle_payload"), ("frame parser and writer", "src/frame.c"), ("outgoing queue and partial write bookkeeping", "src/worker.c WSS_write, src/ringbuf.c"), ("one-shot readiness and re-arming", "src/event.c")])
prop("C02", "Broadcast: everyone else gets each message once, in the sender's order",
  "A message sent with the broadcast subprotocol reaches every other client that was connected with that subprotocol when it was sent and stays connected, exactly once, unaltered and with its type. Messages of one sender arrive at each receiver in the order sent. The sender itself and clients of other subprotocols never receive it, and nothing that was not sent is delivered.",
  ["schedules", "inputs", "fault_sequences"], "all interleavings of several senders served by different workers with receivers joining, reading slowly and leaving; write faults",
  TESTS + "; delivery to another session from a worker that does not own it never happens in a test.",
  ["subprotocols/broadcast/broadcast.c", "src/message.c", "src/session.c", "src/worker.c", "src/ringbuf.c"],
  [("iteration over the sessions of a subprotocol", "src/session.c WSS_session_all, subprotocols/broadcast/broadcast.c"), ("enqueue on a foreign session", "src/message.c WSS_message_send"), ("multi-producer ring buffer", "src/ringbuf.c")])
prop("C03", "The stream to each client is always a well-formed WebSocket stream",
  "After the handshake everything the server sends to a client is a sequence of complete, unmasked frames with defined opcodes, minimal length encoding and only negotiated reserved bits; control frames are unfragmented and at most 125 bytes, and fragments of different messages never mix. This holds when several threads send to the same client at once and when writes are short, interrupted or would block. At most one Close frame is sent, nothing follows it, and the connection is then ended. Only a connection that is being ended because it timed out or vanished may break off within its last frame.",
  ["schedules", "fault_sequences", "inputs"], "all interleavings of concurrent senders, replies, pings and closes on one connection; every cut of every write",
  TESTS + "; interleaving of two writers on one connection, or a write cut at any byte, is out of their reach.",
  ["src/message.c", "src/worker.c", "src/frame.c", "src/ringbuf.c", "src/socket.c"],
  [("single consumer per session while flushing", "src/worker.c WSS_flush, WSS_write"), ("frame construction and fragmentation", "src/frame.c WSS_create_frames"), ("queueing of a whole message", "src/message.c")])
prop("C04", "Handshakes are answered correctly however the request arrives",
  "A valid WebSocket upgrade request is answered with 101, the accept value derived from its key, the first requested subprotocol that is available (and no other), and only extensions that were both requested and available; a request that breaks the protocol or the configured host, path, query and origin policy is answered with the matching HTTP error status and a body of the announced length, and never upgraded. The answer does not depend on how the request is divided into reads, on header order, header case or optional white space, or on what other connections do.",
  ["inputs", "schedules", "fault_sequences", "configurations"], "request variants (missing, malformed, duplicate and empty headers; methods, versions, paths, origins) times segmentations, interleavings and read faults, under several policies",
  "test_header parses a few complete header strings; no test sends a request in pieces, and none checks a response.",
  ["src/worker.c", "src/header.c", "src/http.c", "src/b64.c", "src/sha1.c", "src/subprotocols.c", "src/extensions.c"],
  [("collecting the request", "src/worker.c WSS_read"), ("request and header parsing", "src/header.c"), ("policy and response", "src/http.c, src/worker.c handshake")])
prop("C05", "Protocol violations close that connection with the right code, only that one",
  "A client that breaks the WebSocket protocol gets a Close frame with the status code the protocol prescribes (protocol error 1002, unknown opcode 1002 or 1003, invalid UTF-8 1007, too big 1009) and its connection is ended. Messages completed before the violation are still answered, nothing sent after it is delivered, and other connections are not affected.",
  ["inputs", "schedules", "fault_sequences"], "kinds of violation times position in the stream times segmentation and interleaving with other clients' traffic",
  "test_frame feeds a handful of single frames to the parser; the reaction of the server to a violation within a stream is never tested.",
  ["src/worker.c", "src/frame.c", "src/utf8.c"],
  [("frame validation", "src/worker.c handle_frame, WSS_read"), ("UTF-8 validation of messages and close reasons", "src/utf8.c, src/worker.c"), ("closing handshake", "src/worker.c, src/frame.c WSS_closing_frame")])
prop("C06", "Every ping is answered by exactly one pong with the same data",
  "Every ping a client sends is answered by one pong carrying exactly the ping's application data, in the order of the pings, also when the ping sits between the fragments of a message or arrives cut into pieces or merged with other frames. Unsolicited pongs from the client have no effect.",
  ["inputs", "schedules", "fault_sequences"], "ping positions, sizes 0-125, segmentations, interleavings with data traffic, write faults",
  TESTS + ", so no ping is ever answered in a test.",
  ["src/worker.c", "src/frame.c"], [("control frame handling", "src/worker.c handle_frame / handle_ping"), ("pong construction", "src/frame.c WSS_pong_frame")])
prop("C07", "A client may vanish at any point: all it used is reclaimed, others go on",
  "Whatever a client was doing when it disconnects (resets, half-closes or closes, during the handshake, between fragments, in the middle of a frame, or while the server is sending to it), its descriptor and all memory held for it are released after a bounded time. Every other client keeps being served, and a new client that gets the same descriptor is not affected by the old one.",
  ["crash_points", "schedules", "histories", "fault_sequences"], "disconnect kinds at every step of a connection's life, with other traffic directed at the vanishing client and descriptor reuse",
  TESTS + "; a disconnect racing with a worker, a broadcast or the cleanup thread cannot be produced.",
  ["src/worker.c", "src/session.c", "src/event.c", "src/message.c"],
  [("disconnect", "src/worker.c WSS_disconnect"), ("job counting and deferred free", "src/session.c WSS_session_jobs_*"), ("hang-up events", "src/worker.c WSS_work, src/event.c")])
prop("C08", "Subprotocols see a correct life cycle for every connection",
  "For every upgraded connection a subprotocol gets one connect event, then message events for exactly the complete messages of that client, in order and one at a time, with the client's real address and path, and finally one close event, after which it hears nothing about that connection. Connections that were not upgraded cause no event, and subprotocols are initialised once, with their own configuration, before any event and destroyed once, while still loaded, after the last.",
  ["schedules", "histories", "crash_points", "fault_sequences"], "connection histories including disconnects and shutdown at every step, interleaved over several workers",
  "test_subprotocols only loads and finds plugins; no callback is ever invoked by an event.",
  ["src/worker.c", "src/subprotocols.c", "src/message.c", "src/server.c"],
  [("connect, message and close callbacks", "src/worker.c"), ("plugin set-up and teardown", "src/subprotocols.c")], observe=["callbacks of a recording subprotocol plugin"])
prop("C09", "The server never touches memory it does not own",
  "Whatever bytes clients send, whenever they connect, stall or leave, and however threads interleave, the server never reads or writes freed, unallocated or out-of-bounds memory, never frees anything twice, and never misuses a lock or other synchronisation object (unlocking one it does not hold, using or destroying one that is gone or in use).",
  ["schedules", "inputs", "fault_sequences", "crash_points"], "all client behaviours of the other properties mixed, random byte streams, all interleavings including at single memory accesses",
  "The tests run single-threaded calls on well-formed data without a memory checker.",
  ["src/worker.c", "src/session.c", "src/message.c", "src/frame.c", "src/header.c", "src/http.c", "src/ringbuf.c", "src/pool.c", "extensions/permessage-deflate/permessage-deflate.c"],
  [("session reference counting", "src/session.c"), ("bounds in parsers", "src/frame.c, src/header.c"), ("locks", "src/session.c, src/worker.c")], observe=["every load, store, allocation and lock operation of the server"])
prop("C10", "No client can stop the server from serving the others",
  "As long as the operating system lets threads run, every well-behaved client gets its handshake answered, its messages echoed and its Close answered within a bounded time, no matter that other clients stall, do not read, flood, send half requests or vanish. The server never deadlocks and no thread spins without end.",
  ["schedules", "histories", "fault_sequences"], "misbehaving clients of all kinds next to well-behaved ones, with fewer workers than misbehaving clients, and all interleavings",
  TESTS + ", hence no deadlock, lost wake-up or starvation can show.",
  ["src/event.c", "src/worker.c", "src/pool.c", "src/session.c", "src/message.c"],
  [("one-shot events and re-arming", "src/event.c"), ("non-blocking writes", "src/worker.c WSS_write"), ("job queue", "src/pool.c")])
prop("C11", "Idle connections are pinged and reclaimed on time, active ones are left alone",
  "With a client timeout and a number of pings configured, an idle client is pinged at the configured intervals; one that stays silent, handshake completed or not, is closed once the timeout (counted from its last data, or from when data sent to it first had to wait) and the following cleanup interval have passed, and all its resources are released. A client that answers the pings or otherwise stays active is never closed for inactivity.",
  ["schedules", "histories", "fault_sequences", "configurations"], "timeouts, ping counts, activity patterns on virtual time, pauses of the process, interleavings of the cleanup thread with workers",
  "No test runs the cleanup thread, and real timeouts take minutes.",
  ["src/server.c", "src/session.c", "src/message.c", "src/frame.c"],
  [("cleanup thread", "src/server.c cleanup_session"), ("ping frames", "src/frame.c WSS_ping_frame"), ("activity time stamps", "src/worker.c, src/session.c")])
prop("C12", "Read and write timeouts end only connections that really stalled",
  "With a read or write timeout configured, a connection on which an incomplete request or frame, or data waiting to be sent, has been pending for longer than the timeout is ended when it next becomes active, and its resources are released. A connection that makes progress within the timeout is never ended because of it, and other connections are unaffected.",
  ["schedules", "histories", "fault_sequences", "configurations"], "timeouts on virtual time, gaps shorter and longer than the timeout at every position of requests, frames and writes",
  "No test runs a connection, let alone one that stalls for a configured time.",
  ["src/worker.c", "src/session.c"], [("time-out check on events", "src/worker.c WSS_work"), ("event and time stamp of a session", "src/session.c")])
prop("C13", "Compressed connections carry exactly the same messages",
  "When a client negotiates permessage-deflate, with any acceptable combination of parameters, an acceptable offer is accepted wherever it stands in the request, offers with unknown, repeated or invalid parameters are declined, the answer contains only parameters that offer allows, and every message it sends compressed or not is delivered exactly as sent; what the server sends compressed decompresses to exactly the message, in every context take-over mode and window size. Clients without the extension never receive compressed data.",
  ["inputs", "histories", "schedules", "configurations"], "offers, configurations, message sequences (empty, tiny, incompressible, larger than the buffers), fragmentations and interleavings of several connections",
  "test_extensions only loads the plugin; nothing is ever negotiated or compressed in a test.",
  ["extensions/permessage-deflate/permessage-deflate.c", "src/extensions.c", "src/worker.c", "src/message.c"],
  [("negotiation", "permessage-deflate.c onOpen / parse"), ("compress and decompress", "permessage-deflate.c inFrame(s), outFrame(s)"), ("extension calls", "src/worker.c, src/message.c")])
prop("C14", "A stop request at any moment ends the server cleanly",
  "When the server is interrupted, during start-up, while idle or while clients connect, send, receive or leave, it stops within a bounded time and reports success. All threads have ended, all sockets and files are closed and all memory is released.",
  ["crash_points", "schedules", "histories"], "signal at any scheduling point of start-up and operation, delivered to any thread, with any number of clients in any state",
  "No test starts or stops the server.",
  ["src/server.c", "src/main.c", "src/pool.c", "src/event.c", "src/session.c"],
  [("signal handler and state", "src/server.c WSS_server_interrupt / set_state"), ("joining threads and freeing", "src/server.c WSS_server_start, WSS_server_free"), ("pool shutdown", "src/pool.c threadpool_destroy")], observe=["return value of main, simulated descriptors, heap and threads"])
prop("C15", "The thread pool runs every accepted task exactly once",
  "Every task the pool accepts is run exactly once, by one worker, even when tasks are added from several threads at once; a task is refused only when the queue is full or the pool is shutting down. Accepted tasks start while a worker is free, so as many run at once as there are workers, never more. A graceful shutdown runs everything accepted before it, an immediate one ends after the running tasks, and in both cases every worker has ended and nothing is left allocated when it returns.",
  ["schedules", "histories", "fault_sequences"], "concurrent add and destroy calls, spurious wake-ups, thread creation and allocation failures, all interleavings",
  "There is no test of the thread pool.",
  ["src/pool.c"], [("bounded queue with mutex and condition", "src/pool.c threadpool_add, threadpool_thread"), ("shutdown", "src/pool.c threadpool_destroy")], observe=["tasks run, return values of the pool's functions"])
prop("C16", "The ring buffer loses, duplicates, tears and reorders nothing",
  "With any number of concurrent producers and one consumer, every range a producer acquires is its own until released, never overlaps another live range and lies inside the buffer; the consumer gets every produced range exactly once, completely written, and the ranges of each producer in order. Acquisition fails only when there is no room, and space released by the consumer becomes available again.",
  ["schedules", "histories"], "all interleavings at single memory accesses of several registered and temporary producers with the consumer, across many wrap-arounds of small buffers",
  "There is no test of the ring buffer; its races need preemption between two instructions.",
  ["src/ringbuf.c", "include/ringbuf.h"], [("lock-free offset reservation", "src/ringbuf.c ringbuf_acquire"), ("stable offsets and wrap lock", "src/ringbuf.c stable_nextoff"), ("consume and release", "src/ringbuf.c ringbuf_consume, ringbuf_release")], observe=["acquire, produce, consume and release calls"])
prop("C17", "Configured size limits are enforced exactly",
  "A frame longer than the configured frame size, a message of more fragments than configured, a request target longer than the configured maximum or request headers larger than the configured maximum is refused with the matching Close code or HTTP status, before the server buffers the excess. Everything up to and including the limit is accepted and handled completely.",
  ["inputs", "configurations", "schedules"], "sizes just below, at and above every limit, configurations of the limits, segmentations and interleavings",
  "test_header checks one over-long request in one piece; frame and fragment limits are never tested.",
  ["src/worker.c", "src/header.c", "src/frame.c"], [("frame size check", "src/worker.c WSS_read"), ("fragment count", "src/worker.c"), ("header and uri limits", "src/header.c, src/worker.c")])
prop("C18", "Running out of memory hurts at most the connections concerned",
  "If any allocation fails while the server is serving, the server keeps running, touches no invalid memory, does not deadlock, and at most connections being served at that moment are refused or ended. Memory and descriptors of those connections are released, no client receives wrong data, and clients connecting later are served normally.",
  ["fault_sequences", "schedules", "crash_points"], "one or several failing allocations at any point of any connection's life",
  "test_alloc checks the allocation wrappers; no test makes an allocation fail.",
  ["src/worker.c", "src/session.c", "src/message.c", "src/frame.c", "src/header.c", "src/http.c", "extensions/permessage-deflate/permessage-deflate.c"],
  [("error paths after every allocation", "src/*.c"), ("closing with an internal error", "src/worker.c")])
prop("C19", "Failing system calls are survived and never corrupt a stream",
  "System calls that are interrupted, would block, transfer less than asked or fail temporarily (accepting, reading, writing, waiting for events, sleeping) change nothing a client can observe except timing. A call that fails for good ends at most the connection it was made for, whose resources are released, and the server goes on serving.",
  ["fault_sequences", "schedules"], "injected errors, interruptions and short transfers at every system call of a serving server, alone and in combination",
  "Tests make real system calls that succeed.",
  ["src/worker.c", "src/event.c", "src/socket.c", "src/session.c", "src/server.c"], [("retry loops", "src/worker.c, src/event.c"), ("error handling of accept", "src/worker.c WSS_connect")])
prop("C20", "TLS connections behave exactly like plain ones",
  "Over TLS the echo, handshake, ping, close and violation behaviour promised for plain connections is the same, however the TLS handshake and records are cut up by the transport and however often reads and writes would block, and a finished closing handshake is followed by the TLS close_notify unless the client stopped reading. A client that breaks or abandons the TLS handshake costs nothing permanent and does not disturb others.",
  ["inputs", "schedules", "fault_sequences", "crash_points"], "segmentation of TLS records, would-block on every TLS operation, disconnects during the handshake, interleavings",
  "No test performs a TLS handshake.",
  ["src/ssl.c", "src/worker.c"], [("non-blocking TLS handshake", "src/ssl.c WSS_ssl_handshake"), ("TLS reads and writes", "src/ssl.c")])
prop("C21", "Start-up either succeeds completely or fails cleanly",
  "If anything fails while the server starts (reading its files, creating threads, sockets or other resources, allocating memory), it either starts and serves as configured or exits with a failure status, in bounded time, having released everything. A configuration that cannot be read (missing, truncated or malformed) makes it exit with a failure status rather than serve something else, as do TLS settings that cannot be applied; connections of an earlier server that still linger on its ports do not hinder it. It never hangs half started and never touches invalid memory on these paths.",
  ["fault_sequences", "configurations", "crash_points"], "one or several failures at any call made during start-up, in several configurations",
  "test_config loads a few files; no test makes start-up fail.",
  ["src/main.c", "src/server.c", "src/config.c", "src/socket.c", "src/pool.c", "src/event.c", "src/subprotocols.c", "src/extensions.c"],
  [("start-up error paths", "src/server.c WSS_server_start, src/main.c"), ("resource release", "src/server.c WSS_server_free")], observe=["return value of main, simulated descriptors, heap and threads"])
prop("C24", "The guarantees hold in every build configuration",
  "Built with the poll() back end instead of epoll, without OpenSSL, without rpmalloc, or for processors without AVX-512, without AVX or without any vector instructions, the server keeps the same promises: messages are echoed and broadcast intact, in order and exactly once, streams are well formed, handshakes and violations are answered as specified, text is validated and unmasked correctly, idle and vanished connections are reclaimed, start and stop are clean, and failing allocations and system calls hurt at most the connections concerned.",
  ["inputs", "schedules", "fault_sequences", "configurations"], "the scenario spaces of C01-C05, C07, C09, C11, C13, C14 and C17-C21 in three more build configurations",
  "The tests are built and run in one configuration only, and never run the event loop.",
  ["src/event.c", "src/frame.c", "src/utf8.c", "src/b64.c", "src/sha1.c", "src/ssl.c", "src/alloc.c"],
  [("poll back end", "src/event.c, USE_POLL"), ("accept key without OpenSSL", "src/ssl.c WSS_base64_encode_sha1, src/sha1.c, src/b64.c"), ("vector and portable codecs", "src/frame.c unmask, src/utf8.c")])
prop("C25", "TLS connections are made only as the configuration allows",
  "A server with TLS serves a client only over a connection that satisfies its configuration: it shows the configured certificate, negotiates only ciphers and suites from the configured lists, choosing the first of its own that the client also offers, and uses the configured Diffie-Hellman group; when a peer certificate is required, only a client showing a valid certificate for client use that chains to the configured certificate authority is served, any other gets no byte of application data and is disconnected. No session is resumed, so every connection is checked. TLS settings that cannot be applied make start-up fail instead of serving with weaker ones, also when memory runs out at that moment. Permitted clients are served normally.",
  ["inputs", "configurations", "schedules", "fault_sequences"], "cipher, certificate and authority configurations, clients with every kind of certificate and offer, TLS 1.2 and 1.3, segmentation, failing allocations during start-up",
  "No test performs a TLS handshake or looks at the negotiated parameters.",
  ["src/ssl.c", "src/server.c", "src/config.c"], [("TLS context set-up", "src/ssl.c WSS_http_ssl"), ("TLS handshake", "src/ssl.c WSS_ssl_handshake, src/worker.c"), ("TLS settings", "src/config.c")])
prop("C26", "The memory allocator hands out memory that is free, aligned and zeroed",
  "The bundled allocator and the server's wrappers around it never hand out memory that overlaps a block still in use, whichever threads allocate and free and however their operations interleave, also when a block is freed by another thread than the one that got it and when threads come and go. Blocks are aligned and at least as large as asked for, keep their content until freed and across reallocation, are zeroed where promised, and lie in mapped memory. A request fails only when the system gives no memory, in which case nothing else is harmed and later requests succeed again; freed memory is used again, and when everything has been freed, shutting down returns all of it to the system.",
  ["inputs", "schedules", "histories", "fault_sequences"], "operation sequences of several threads over all sizes and alignments, blocks freed by other threads, threads that end, failing mappings, every preemption point inside the allocator",
  "No test calls the allocator from two threads or lets a mapping fail.",
  ["src/rpmalloc.c", "src/alloc.c"], [("thread heaps, deferred frees, span caches", "src/rpmalloc.c"), ("wrappers", "src/alloc.c")], observe=["returned pointers, block contents, mappings requested from and returned to the system"])
prop("C22", "A server serves as its configuration file says, however it is written",
  "Every well-formed configuration file has exactly the documented effect: ports, allowed hosts, origins, paths and queries, plug-ins and what they are configured with, the number of workers, limits, timeouts and TLS settings apply as written, a listed plug-in that cannot be loaded is left out without affecting the others, whatever the order of the members, white space, comments between members, string escapes and unknown members; a setting that is left out has its default value, and with no configuration file at all the server serves the echo and broadcast subprotocols on port 80 with the defaults.",
  ["inputs", "configurations", "schedules"], "configuration files in every layout, any subset of settings left out, observed through clients that probe each limit, list, port, default and timeout of the running server",
  "test_config compares a few files field by field; no test looks at what a setting does to a running server or at a file with settings left out.",
  ["src/config.c", "src/json.c", "src/main.c"], [("JSON parsing and mapping", "src/config.c, src/json.c"), ("default values", "src/main.c")], observe=["handshake answers, limits, timeouts and echoes of the running server"])
prop("C27", "What a subprotocol sends, from any of its events, arrives once and in order",
  "A subprotocol may send from each of its events, to the client concerned or to any other connected one. Everything it sends to a connected client arrives there exactly once, unaltered and with its type, messages sent one after the other in that order, and never before the handshake response; what it sends while a client connects comes before everything later. A Close it sends reaches the client after all that was sent before and ends the connection. Sending to a descriptor that is gone or not ready has no effect on anyone.",
  ["schedules", "histories", "inputs", "fault_sequences"], "subprotocols that send greetings, announcements and Closes from connect, message and close events, with clients coming and going, slow readers, compression, all interleavings and write faults",
  TESTS + "; a plugin that sends is never loaded in one.",
  ["src/message.c", "src/worker.c", "src/session.c", "src/subprotocols.c"],
  [("the send function handed to subprotocols", "src/message.c WSS_message_send"), ("handshake response before the connect event", "src/worker.c handshake"), ("Close frames in the outgoing queue", "src/worker.c WSS_write"), ("close event of a deleted session", "src/session.c session_delete")], observe=["bytes on the client's connection", "sends of a harness subprotocol"])
prop("C28", "Extensions see each message of their connections once, whole and in order",
  "The extensions a server is configured with are told their own configuration once at start and are ended once at the stop. An extension is opened for exactly the connections that negotiated it, with the parameters they offered, and closed exactly once for each, however and whenever the connection ends, also when the handshake is refused after all; otherwise it is never called. The handshake answer names what was accepted, in the order offered. Every message is handed to each extension of its connection exactly once, frame by frame and as a whole, in order and never two at a time in one direction; what is sent passes through them in the negotiated order, what is received in the reverse, so that extensions which both change data compose and clients get and deliver exactly what was meant.",
  ["schedules", "histories", "inputs", "fault_sequences"], "every selection and order of three extensions with state per connection and direction, any offers, fragments with control frames, broadcasts and pushes to the same connection, clients that come, are refused and vanish, all interleavings and write faults",
  "No test negotiates more than one extension or runs the code that calls them with messages.",
  ["src/extensions.c", "src/header.c", "src/worker.c", "src/message.c", "src/session.c", "src/frame.c"],
  [("offers and answers", "src/header.c"), ("what is received", "src/worker.c read loop"), ("what is sent", "src/message.c"), ("end of a connection", "src/session.c, src/worker.c")], observe=["calls of two harness extensions and the real permessage-deflate", "bytes on the client's connection, decoded by an independent mirror of the extensions"])
prop("C23", "Text codecs are correct",
  "Base64, SHA-1, UTF-8 validation and header-value string helpers compute the standard functions for every input of every length.",
  ["inputs"], "all byte strings", "a few fixed vectors are tested.",
  ["src/b64.c", "src/sha1.c", "src/utf8.c", "src/str.c"], [("codecs", "src/b64.c, src/sha1.c, src/utf8.c")], observe=["function results"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
open(out, "w").write("".join(json.dumps(p) + "\n" for p in P))
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
print(len(P))
