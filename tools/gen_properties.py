#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts are kept here, one call per property)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                          "observe_at": observe, "hook_needed": hook}})

MSG = "src/common/core/msg/mod.rs"; FMT = "src/common/core/msg/format.rs"
ENC = "src/common/core/encode_argument.rs"; DEC = "src/common/core/decode_argument.rs"
IDS = "src/common/core/identifiers.rs"; CID = "src/client/core/client_id.rs"; ENV = "src/client/env.rs"
CONN = "src/server/connection.rs"; AUTH = "src/server/auth.rs"; SMSG = "src/server/core/msg.rs"
HS = "src/server/core/handshake.rs"; TD = "src/server/tokio/dispatch.rs"; TR = "src/server/tokio/receiver.rs"
TT = "src/server/tokio/transmitter.rs"; EX = "example-server/src/main.rs"; REJ = "src/server/reject.rs"
NOTE = "src/server/notification.rs"; APP = "src/server/application.rs"

p("C01", "Messages survive formatting and parsing unchanged, with one encoding each",
  "For every message type and argument list that fits, the bytes produced by the message formatter parse back to exactly that type and exactly those argument bytes, consuming exactly the number of bytes the formatter reported. Conversely, formatting again the type and arguments of any accepted message reproduces exactly the bytes that were accepted, so every message has exactly one encoding.",
  ["inputs"], "all message types, all argument lists (any count, any byte values incl. delimiters, empty and maximal arguments), any trailing bytes after the message",
  "The existing tests format three fixed messages and parse six; none feeds formatter output back into the parser or parser output back into the formatter.",
  [MSG, FMT, ENC], [("MessageFormatter::{new,add_argument,finalize}", FMT), ("Message::parse / MessageIterator", MSG)],
  ["return values of the formatter and of Message::parse"])

p("C02", "The message parser accepts exactly the wire grammar and pinpoints errors",
  "For every byte string the parser returns without panicking, and accepts it exactly if it begins with a well-formed message: `{`, item count, `|`, that many `length:bytes,` items with lengths in minimal decimal, `}`, the first item being a valid message type. On acceptance it reports exactly that message's length, type and arguments, and the argument list announces its true remaining length at every step; on rejection it reports the kind and the position of the first thing that is wrong.",
  ["inputs"], "all byte strings, in particular corrupted, truncated and spliced messages, huge or overflowing counts, non-ASCII bytes at every position",
  "The parsing tests check about 25 handwritten strings; acceptance and error position must be right for every byte string.",
  [MSG], [("Cursor::consume_*", MSG), ("MessageIterator::next_or_error, len", MSG), ("Message::parse", MSG)],
  ["Message::parse result: message, length, error kind and offset"])

p("C03", "Parse verdicts are stable while more bytes arrive",
  "Every proper prefix of a valid message is reported as incomplete, never as malformed or complete. Once some input is accepted, appending further bytes changes neither the message nor its length; once it is reported malformed, no continuation of it is ever accepted or reported as incomplete.",
  ["inputs", "histories"], "all byte strings, all split points, all continuations",
  "Tests check a handful of truncations of one message; stability is a relation between the verdicts on an input and on all of its extensions.",
  [MSG, CONN], [("ParseErrorKind::UnexpectedEOF only at end of buffer", MSG), ("ParseError::is_incomplete", MSG)],
  ["Message::parse on every prefix of an input"])

p("C04", "Formatting stays inside the buffer and the 1024-byte limit, exact shortfall",
  "For every buffer size and message, formatting either reports a size of at most 1024 bytes and at most the buffer, writes exactly that many bytes at its start and leaves every later byte untouched, or fails reporting exactly how many bytes were missing (relative to the smaller of the buffer and 1024 bytes); the outcome depends only on the message and that limit, and the written bytes only on the message. Supplying more or fewer arguments than announced never yields a message.",
  ["inputs"], "all buffer sizes from 0 to beyond 1024, all messages around the limits, all argument counts differing from the announced one",
  "One test message is formatted into buffers of size 0..2n, and one oversized message; nothing checks the untouched tail, typed messages, or other shapes.",
  [FMT], [("crop_buffer_to_max_msglen", FMT), ("MessageFormatter::add_char/encode/finalize", FMT)],
  ["finalize()/encode() result and the whole target buffer including a canary tail"])

p("C05", "Argument values have one canonical encoding and decode only from it",
  "For every boolean, integer of every width, string, byte string, path and optional value, the announced size is exactly the number of bytes written, the encoding is the canonical text (`t`/`f`, minimal decimal with `-` only for negative numbers, the bytes themselves, empty for absent), and decoding it gives the value back (a present-but-empty optional being indistinguishable from an absent one). Decoding accepts nothing else: any other spelling, sign, leading zero, whitespace, out-of-range number or invalid UTF-8 is refused without panicking.",
  ["inputs"], "all values of all supported types; all byte strings as decoder input",
  "Tests cover about five values per integer type and six bad inputs; canonical form is a statement about all byte strings.",
  [ENC, DEC], [("EncodeArgument impls", ENC), ("DecodeArgument impls", DEC)],
  ["get_size/encode/decode_argument results"])

p("C06", "Identifier parsing accepts exactly the documented grammar",
  "For every string, each identifier kind (client ID, identifier, module identifier, module version, scoped identifier, message type) is accepted exactly if it matches its grammar: client IDs are non-empty ASCII alphanumerics; identifiers start with a letter or `_` and continue with letters, `_`, `-`; module identifiers append a major version 1..65535 without leading zero; module versions append `.` and a canonical minor version 0..65535; scoped identifiers are a module identifier, `.`, an identifier; message types are want, have, nope or a scoped identifier. An accepted value prints and encodes as exactly the input, and its parts (name, versions, module, member) reassemble to it. Two accepted values of one kind are equal exactly if their texts are; where they are ordered, the order is total, agrees with equality, and puts versions of one module in numeric order.",
  ["inputs"], "all strings, in particular single-character mutations of valid ones, non-ASCII lookalikes, versions around 65535, extra dots, signs and zeroes",
  "About 70 handwritten strings are tested; several classes (plus signs, version overflow, non-ASCII letters and digits) are not.",
  [IDS, DEC], [("parse_ident_or_module_ident, is_ident_char, ClientID::parse, *::parse", IDS)],
  ["parse()/decode_argument() results and accessors"])

p("C07", "Derived client IDs are valid, collision-free and hierarchical",
  "For every base client ID and every suffix (own, local i, job i, child i/j, all 32-bit indexes), the derived ID is a valid client ID that begins with the base, of exactly the announced size, and two different suffixes never give the same ID. Selecting `at or below` the ID of job i covers exactly that job and its children (and none of any other job or local lifetime); no local or child ID is at or below any other local, child or differing job ID.",
  ["inputs"], "all pairs of suffixes, including indexes around every change of code length and the extreme 32-bit values",
  "About 40 expected strings with indexes up to 122 are tested; uniqueness and the hierarchy are relations over all pairs, and extreme indexes are not tried.",
  [CID, AUTH], [("ClientIDSuffix::{get_size,encode}, get_size_for_number, encode_number", CID), ("RelativeClientID", CID)],
  ["encoded bytes and size of RelativeClientID, ClientSelector::contains on them"])

p("C08", "Typed messages round-trip and decode only from matching messages",
  "Every typed message (want, have, nope, core1.client-make/new/end, posix1 client/parent/server/stdin/stdout-hello), encoded and parsed, decodes to equal contents, and encodes to exactly the documented type followed by its fields in order. A parsed message decodes as a typed message exactly if its type is that one, its argument count is right and every argument is valid for its field; no message decodes as two different typed messages.",
  ["inputs"], "all field values of all typed messages; all parsed messages incl. wrong type, arity and ill-typed arguments",
  "No test touches any typed message.",
  ["src/msg/mod.rs", "src/msg/core.rs", "src/msg/posix.rs", MSG], [("DecodeMessage/EncodeMessage impls", "src/msg"), ("MessageIterator::exactly1/2/4", MSG)],
  ["EncodeMessage::encode output, DecodeMessage::decode_message result"])

p("C09", "Human-readable rendering of messages is unambiguous",
  "The human-readable rendering of a message contains only printable ASCII, shows the type and then every argument in order, bare exactly if the argument is non-empty and consists of letters, digits, `.`, `_` and `-`, and otherwise quoted with escapes. The exact argument bytes can be recovered from it, so two different messages never render alike.",
  ["inputs"], "all accepted messages, all argument bytes (quotes, backslashes, control and non-ASCII bytes, spaces, empty)",
  "Three renderings are tested; unambiguity is a statement about all pairs of messages.",
  [MSG], [("impl Display for Message, char_needs_escaping", MSG)], ["format!(\"{}\", message)"])

p("C10", "Server behaviour does not depend on how client bytes are segmented",
  "For every byte stream a client sends, the replies, the clients registered, the stdout bytes delivered to the application, the sequence of messages handed to the handlers and the resulting role or teardown of the connection are the same however the stream is cut into reads: in one piece, byte by byte, or any other way, including across the handshake boundary. No byte is processed twice or skipped because of a cut.",
  ["inputs", "histories"], "all client byte streams (valid, malformed and mixed), all segmentations",
  "No test exercises the connection code at all; the property relates all segmentations of a stream.",
  [CONN, TR], [("Connection::handle_incoming / handle_incoming_msgio", CONN), ("ReceiveBuffer::discard", TR), ("receive loop", TR)],
  ["replies, application callbacks, connection state, per segmentation, with the library's Connection under a recording dispatch and with the Tokio server under short reads"])

p("C11", "Nothing happens before a successful handshake, and it fixes the role",
  "Until a connection has presented a secret that the application authorizes in a client-hello, stdin-hello or stdout-hello, it gets no reply, reaches no message handler and delivers no stdout, and its first complete or malformed input that is not such a hello closes it for good. A successful hello puts the connection into exactly the role it asked for, as exactly the identity the application returned (a client-hello being answered with exactly one server-hello stating that identity); afterwards no message can change the role or redeem another secret, and any input on a stdin connection closes it.",
  ["inputs", "histories"], "all initial byte streams, all sequences of hello attempts in all roles, right and wrong secrets, all following input",
  "The handshake and the connection state machine have no tests.",
  [HS, CONN, SMSG], [("HandshakeHandler::handle", HS), ("Connection::handle_incoming, ConnectionState", CONN), ("hello messages rejected in msgio mode", SMSG)],
  ["replies, authorize_* calls and their results, connection state"])

p("C12", "Each msgio message gets exactly the prescribed reply, in order",
  "On a message connection every complete well-formed message is handled exactly once, in the order sent, and answered as prescribed: `want M` by `have M.v` if M is supported and `have M` otherwise; a message of unknown scoped type by the `have` for its module; a semantically invalid message, an eternal type that makes no sense here or a handshake message by `nope` with its type; client-make by client-new or nope. Handlers chained behind the core handler see exactly the messages it does not own, and nothing else is ever sent in reply (a reply that could not be encoded within 1024 bytes closes the connection instead).",
  ["inputs", "histories"], "all sequences of messages on a message connection, all module names and versions, all handler chains",
  "Reply behaviour has no tests.",
  [CONN, SMSG, REJ], [("baseline error handling in handle_incoming_msgio", CONN), ("core MessageHandler", SMSG), ("RejectHandler", REJ)],
  ["reply bytes per request, handler invocations"])

p("C13", "After malformed input the server resumes at the next message start",
  "On a message connection, malformed input makes the server skip to the next `{` after the start of the malformed part and resume parsing there; everything skipped is reported to the application as discarded exactly once, byte for byte and in order, the handler chain is told about the parse error, and the connection stays in service. Every well-formed message that begins at a resume point is handled, and no byte of a handled message is ever discarded.",
  ["inputs", "histories"], "all byte streams mixing garbage, broken messages, nested openers and valid messages",
  "Error recovery has no tests.",
  [CONN, MSG, NOTE], [("Err(e) branch of handle_incoming_msgio", CONN), ("Notification::IncomingBytesDiscarded", NOTE)],
  ["handled messages, discarded-bytes notifications, handle_error calls"])

p("C14", "client-make registers exactly the permitted clients",
  "A client-make request registers a client exactly if the requested ID strictly extends the requesting client's own ID and no registered client is at or below the requested ID; otherwise it is answered with nope and nothing is registered. On success exactly one registration is made, with exactly the requested ID and screen IDs, and the reply carries the secret issued for it, with which the new client can connect and is told exactly that identity (if stating it fits into the 1024 bytes a message can have). An identity's screens are those the application last set for it, in whatever order it set them.",
  ["inputs", "histories"], "all sequences of client-make/client-end/handshake by clients at different places of the ID hierarchy",
  "There are no tests of client-make; the property spans histories of several clients.",
  [SMSG, AUTH, "src/msg/core.rs"], [("core1.client-make branch", SMSG), ("ClientSelector::contains", AUTH)],
  ["register_client calls, replies, subsequent handshakes"])

p("C15", "client-end ends exactly the named client and everything below it",
  "A client-end request is honoured exactly if the named ID strictly extends the requester's own ID (otherwise: nope and no effect). When honoured, every message connection of a client at or below the named ID is closed, and all registrations at or below it are dropped, so that secrets not yet redeemed stop working and the IDs can be registered again; every other client, connection and registration, including those whose IDs are prefixes of or merely similar to the named one, is unaffected.",
  ["inputs", "histories", "schedules"], "all client trees, all requesters and named IDs, connections in all roles at the time of the request",
  "There are no tests of client-end.",
  [SMSG, AUTH, TD, APP], [("core1.client-end branch: broadcast of teardown, unregister_clients", SMSG), ("do_maintenance", TD)],
  ["closed connections, unregister_clients calls / registry contents, later handshakes and client-makes"])

p("C16", "Every message enqueued to a live client arrives once, whole and in order",
  "For every live message connection, the bytes its client reads are exactly the concatenation of the messages enqueued to it, in the order they were enqueued, each exactly once and never interleaved with another or cut; messages never reach another connection. This holds for any mix of replies and broadcast messages, any message sizes, any timing of the client's reads (including not reading for a long time), and once enqueuing stops everything is delivered without further stimulus; if the connection dies, what was read is a prefix of that sequence.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of enqueuers, transmitter and reading client; all message size sequences; short writes and would-block at any point",
  "The Tokio server is only compiled by the tests; ordering and completeness quantify over schedules and back-pressure patterns.",
  [TD, TT], [("Dispatch::enqueue_message, swap_send_buffer", TD), ("SendBuffer, transmitter loop", TT)],
  ["log of enqueue operations (made under the server's own lock) against bytes read by the client"],
  [("bufs", "queue of send buffers per connection", TD)])

p("C17", "Stdin reaches the right client completely, in order and unaltered",
  "Bytes enqueued as standard input for a screen are read by the client attached to that screen's stdin exactly as enqueued: all of them, in order, once, for any sizes (empty, one byte, far larger than any internal buffer) and any timing of reads. No other connection receives any of them, and a connection in any other role is never sent stdin bytes, nor a stdin connection a message.",
  ["schedules", "histories", "inputs"], "all sequences of input sizes, all read timings, several screens and connections in all roles",
  "Stdin delivery has no tests.",
  [TD, TT, CONN], [("Dispatch::enqueue_stdin", TD), ("SendBuffer::fill_until_full", TT), ("can_receive_stdin(_for_screen)", CONN)],
  ["log of enqueued bytes against bytes read by each client"])

p("C18", "Client stdout reaches the application completely, in order, for its screen",
  "Everything a client writes after a successful stdout-hello, including bytes sent together with the hello and bytes sent right before it disconnects, is delivered to the application's connector for exactly that screen: all of it, once, in order, unaltered and uninterpreted. Nothing written on any other connection is delivered there.",
  ["schedules", "inputs"], "all byte streams (including ones that look like VT6 messages), all write and read segmentations, concurrent connections",
  "Stdout delivery has no tests.",
  [CONN, TR, HS], [("Stdout branch of handle_incoming", CONN), ("receive loop and BytesMut::discard", TR)],
  ["StdoutConnector::receive calls against bytes written by the client"])

p("C19", "Every broadcast runs exactly once on every live connection, without delay",
  "A broadcast action enqueued at any time, from any thread, from inside a handler or from inside another broadcast, runs exactly once on every connection that stays open meanwhile, never twice on any connection, and actions enqueued by one thread run in that order. It runs as soon as all exclusive connection references have been returned: when the server is idle no enqueued action is left waiting for unrelated client activity.",
  ["schedules", "histories"], "all interleavings of broadcasters with traffic, connects, teardowns and each other",
  "Broadcasts have no tests; lost or stranded actions depend on the interleaving.",
  [TD, "src/server/dispatch.rs"], [("enqueue_broadcast, bc_queue, do_maintenance", TD), ("ConnectionRefMut::drop", TD)],
  ["log of (action, connection) executions against enqueue log, judged when the server is quiescent"], hook="delay points before the pool lock is released")

p("C20", "Connections are opened and closed exactly once and leave nothing behind",
  "Every accepted connection is announced as opened exactly once, before it is announced as closed, and is announced as closed exactly once when it ends, whatever ends it: disconnect at any point, protocol error, handler decision, client-end, or a read or write error (which is reported). A connection that ended is really closed towards the client, no broadcast sees it any more, and its file descriptor, tasks and connector are released.",
  ["schedules", "histories", "fault_sequences"], "all lifetimes of connections under churn, all causes of ending, I/O errors at any read or write",
  "Connection lifecycle has no tests.",
  [TD, TR, TT, CONN], [("create_connection_object, do_maintenance_on_conn", TD), ("error paths", TR + ", " + TT)],
  ["notifications, client-side EOF, file descriptor / task / connector counts at quiescence"], hook="delay point in the accept loop")

p("C21", "Shutdown dismantles the server completely, from any state",
  "After a shutdown request the listener future resolves to success, in whatever state the connections are (idle, mid-handshake, mid-message, blocked on a client that does not read) and also if the request arrives before the listener runs; the server socket is gone from the filesystem, new connects fail, every client sees its connection closed, each open connection is announced as closed, and the application value is released. A listener whose socket path is already taken fails without touching what is there.",
  ["schedules", "histories"], "all moments of shutdown relative to traffic, all sets of connections",
  "Shutdown has no tests.",
  [TD], [("run_listener, shutdown", TD)],
  ["result of run_listener, filesystem, client-side EOF, notifications, reference count of the application"])

p("C22", "No client input can crash the server or disturb other clients",
  "Whatever bytes clients send in whatever role and order, the server never panics, aborts, overflows its stack or stops: at all times other connected clients keep getting correct service and new clients can connect and handshake. The only effect of hostile input is on the connection (or, by client-end, on the clients below it) that sent it.",
  ["inputs", "histories", "schedules"], "all byte streams on any number of connections: random, mutated, nested, overlong, flooding, abruptly ended",
  "No test sends anything to a server; a single input suffices to refute it.",
  [CONN, SMSG, TD, TR, TT], [("parse error recovery", CONN), ("enqueue_message error handling", TD)],
  ["panics in library code, process death, replies to probe clients during and after hostile traffic"])

p("C23", "Input buffered per connection is bounded",
  "The server never holds back more than 1024 bytes of not yet handled input of a connection (the longest a message can be): a message that is longer is treated as malformed rather than waited for, wherever it is cut. The memory used for a connection's input therefore stays bounded by a constant, however much a client sends and whatever it announces.",
  ["inputs", "histories"], "all byte streams, in particular announced lengths and counts far above what is sent, messages of length around 1024, endless garbage, endless stdout",
  "No test sends anything to a server.",
  [CONN, TR], [("length limit in handle_incoming_msgio", CONN), ("receive buffer", TR)],
  ["bytes left in the receive buffer after each read; live heap while a client floods the server"])

p("C24", "Environment discovery reports the terminal faithfully and never disturbs",
  "If descriptor 60 is not open (or not readable), discovery reports that there is no VT6 terminal, in every build profile, without aborting or touching any other descriptor. Otherwise it reads until one complete parent-hello has arrived, the data is malformed, 1024 bytes are full or the input ends, however the bytes are split over time and without waiting for more than that; the result then is exactly the announced server socket path, or the corresponding error (corrupt or invalid), parsing it can be repeated with the same result, and descriptor 60 is closed. An input error after the first read is reported by discovery with its error code. The flags of the open file that others share with descriptor 60 (such as non-blocking mode) are left alone.",
  ["inputs", "fault_sequences", "configurations"], "all contents and kinds of descriptor 60 (closed, pipe, socket, file, write-only or otherwise unreadable descriptors), all arrival patterns, all build profiles",
  "Discovery has no tests; it needs a process with a prepared descriptor.",
  [ENV, "src/msg/posix.rs"], [("Environment::discover, Environment::parse", ENV)],
  ["results of discover()/parse() in child processes with a prepared descriptor 60"])

p("C25", "Secrets are unpredictable, unique and of full strength",
  "Every generated credential secret carries 192 bits from the system's random source in a 32-character URL-safe text without padding; secrets never repeat, not within one credential pair (a screen's stdin and stdout secrets) nor across credentials, threads or processes, and no character position is fixed, biased or predictable from another. A credential keeps its secret unchanged for its lifetime and in its clones.",
  ["histories", "schedules"], "all sequences of generations from any number of threads and processes",
  "Secret generation has no tests; unpredictability is a statistical property of many samples and of what is requested from the random source.",
  [AUTH], [("generate_secret, ClientCredentials, ScreenCredentials", AUTH)],
  ["generated secrets; random-source requests"])

p("C26", "The default socket path is private to the process and well-formed",
  "For every environment, the default server socket path is `$XDG_RUNTIME_DIR/vt6/<pid>` for the current process, with that directory existing afterwards and nothing else created or changed; if the variable is unset or does not name a directory, an error is returned and nothing is created. The result is the same when the directory already exists.",
  ["configurations", "inputs"], "all values of XDG_RUNTIME_DIR (unset, empty, file, missing, unusual and non-UTF-8 names, unwritable), all process IDs",
  "The function has no tests.",
  ["src/server/util.rs"], [("default_socket_path", "src/server/util.rs")],
  ["return value and resulting directory tree in a scratch directory"])

p("C27", "The message core works without heap or std, and identically with them",
  "Parsing, iterating, formatting, encoding and decoding messages, identifiers and client IDs never allocates from the heap. Built without the std feature, the crate links into a program that has no allocator and no std, and gives bit-identical results on every input.",
  ["inputs", "configurations"], "all inputs; both feature configurations",
  "Tests run only with std and all features; nothing observes allocation.",
  ["src/lib.rs", MSG, FMT, ENC, DEC, IDS, CID, "src/msg/posix.rs"], [("no_std crate, borrowed results", "src/lib.rs")],
  ["allocation counter around library calls; result digests of a no_std program and a std program on the same corpus"])

p("C28", "No undefined behaviour, memory error or data race in any execution",
  "No execution of the library performs undefined behaviour: no invalid memory access, uninitialised read, invalid reference, I/O-safety violation, leak of unreachable memory or data race, for any input to the codecs and the connection logic and any concurrent use of the server, leaks being judged after an orderly shutdown.",
  ["inputs", "schedules"], "all inputs and schedules the other workloads generate",
  "Ordinary test runs do not detect undefined behaviour or races; the crate contains unsafe code on input-dependent paths.",
  [MSG, ENV, TD, TT, TR], [("unsafe from_utf8_unchecked", MSG), ("unsafe File::from_raw_fd", ENV), ("locks", TD)],
  ["Miri, AddressSanitizer/LeakSanitizer, ThreadSanitizer and MemorySanitizer reports"])

p("C29", "The example server admits each secret once and serves the protocol",
  "The bundled example server admits each secret it prints or issues exactly once, in exactly the role it is for, and refuses every other secret; it serves want, client-make, client-end, stdin and stdout on those connections as the protocol prescribes, logs the stdout it receives, and on an interrupt exits successfully, removing its socket.",
  ["histories", "inputs"], "all sequences of connection attempts and messages against the running binary",
  "The example server has no tests.",
  [EX], [("MyApplication", EX), ("LoggingHandler chain", EX)], ["the running binary: its log, socket, replies and exit status"])

p("C30", "Client selectors denote exactly the intended sets of clients",
  "For all client IDs a and b, `at or below a` contains b exactly if a is a prefix of b, and `strictly below a` contains b exactly if additionally a and b differ. Consequently `at or below` is reflexive, antisymmetric and transitive, and `strictly below` is its irreflexive part.",
  ["inputs"], "all pairs and triples of client IDs",
  "Selectors have no tests.",
  [AUTH], [("ClientSelector::contains", AUTH)], ["ClientSelector::contains"])

p("C31", "What the server keeps in memory does not depend on its past",
  "With the same connections open and everything sent to them read, the server uses the same amount of memory no matter how many messages, malformed inputs, replies, broadcasts, stdin and stdout bytes it has handled and how many connections have come and gone, up to what the largest amount that was pending at one time needed. In particular, buffers of sent data are reused or released, and nothing remains of executed broadcasts, handled input and closed connections.",
  ["histories", "inputs"], "all histories that leave the same connections open",
  "Memory use is not tested; a slow leak does not fail any test.",
  [TD], [("InnerDispatch::swap_send_buffer", TD), ("Dispatch::enqueue_message/enqueue_stdin", TD), ("InnerDispatch::do_maintenance", TD), ("spawn_transmitter", TT), ("spawn_receiver", TR), ("Connection::handle_incoming", CONN)],
  ["live heap of the process at rest"])

p("C32", "What is reported to logs is one printable, truthful line",
  "Whatever bytes a client or parent process sent, the text of every notification, parse error and environment error is a single line without control or direction-changing characters, and of the notifications exactly IO errors count as errors. The text is faithful: discarded bytes are quoted such that their (lossy) UTF-8 text can be read back, an IO error gives its reason, a parse error its offset and kind, an environment error the parse error or message concerned. Different kinds of notifications and errors have different texts.",
  ["inputs"], "all byte strings carried by notifications and errors",
  "No test looks at these texts; a log that can be forged by a client looks fine with ordinary input.",
  [NOTE, MSG, ENV], [("Notification::is_error", NOTE), ("Display for Notification", NOTE), ("Display for ParseError", MSG), ("ParseErrorKind::to_str", MSG), ("Display for EnvironmentError", ENV)],
  ["Display of Notification, ParseError, ParseErrorKind, EnvironmentError", "Notification::is_error"])

p("C33", "A failing connection is reported to the application, once, then closed",
  "When reading from or writing to a connection fails, or a message for it does not fit into the limit, exactly one IO error for that failure is reported to the application, naming its cause, and then the connection, and no other, is closed and reported closed. Connections that end without such a failure (the client leaves having read everything, is refused, is ended by the application, or the server shuts down) and malformed input are never reported as IO errors.",
  ["fault_sequences", "histories"], "all failures of the system calls on client sockets and all ends of connections, in all roles",
  "The tests have no server sockets; failures of system calls do not happen in them.",
  [TR, TT, TD], [("spawn_receiver", TR), ("spawn_transmitter", TT), ("Dispatch::enqueue_message", TD), ("InnerDispatch::do_maintenance_on_conn", TD)],
  ["notifications to the application", "failing system calls on the server's sockets", "end of file at the clients"])

p("C34", "A server affects nothing but its own connections and its socket",
  "Creating, running, using and shutting down a server changes nothing else in the process or the file system: working directory, file mode mask, signal handling, environment variables, resource limits and foreign file descriptors are left alone at all times (also while and after it fails to start), no process is started, and the only file that appears and disappears is its socket. Servers in one process are independent: whatever happens on one (connections, secrets, broadcasts, errors, backlogs, shutdown) has no influence on what the clients and the application of another observe, also when one is used from within a broadcast of the other.",
  ["histories", "inputs"], "all sequences of operations on any number of servers in one process, in all interleavings",
  "No test runs a server, much less two of them; process-wide state is invisible to tests of one object.",
  [TD, TR, TT, HS, CONN], [("Dispatch::{new,run_listener,shutdown}", TD), ("InnerDispatch", TD), ("spawn_receiver", TR), ("spawn_transmitter", TT)],
  ["transcripts of all clients and of the application", "calls of the server that change the process or the file system", "state of the process after each operation", "directory of the sockets"])

with open(OUT, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
