prop("C12", "Stop ends everything before it returns, and the server can be run again",
 "When Stop returns, no further connection is accepted, every session the application has seen is closed and its close handler has run, exactly once, and Run returns; nothing is left open. This holds for Stop from any goroutine or message handler, for several Stops at once, and while terminals connect, send or do not read. Temporary accept errors do not end the service; a second Run while running, and a Run on a port in use, report an error and disturb nothing; a stopped server can be run again.",
 ["schedules", "histories", "fault_sequences"],
 "For every history of runs, stops, second runs, temporary and permanent accept errors and ports in use, every number of terminals connecting, sending, leaving or not reading at the time, and every interleaving.",
 "No test runs a server.",
 ["server.go", "session_handler.go"],
 [("one running server at a time", "server.go Run, Stop"), ("accept loop and disposal of sessions", "github.com/funny/link server.go, manager.go"), ("clean-up of a session, once", "session_handler.go HandleSession")],
 [("server", "the running listener, if any", "server.go Server"), ("sessions", "registry of open sessions", "server.go Server")],
 ["results of Run and Stop", "CloseHandler", "connections seen by terminals", "GetSession"])

prop("C13", "A terminal that does not read blocks nobody; it is cut off when its queue fills",
 "Sending, requesting, replying and broadcasting never block their caller, whatever the terminals do. A terminal that does not take its messages accumulates only a bounded queue: then a send to it fails and its connection is closed and reported; one that merely pauses loses nothing and keeps its connection. Every other terminal goes on being served as usual.",
 ["schedules", "histories", "fault_sequences"],
 "For every set of terminals that stop reading or are cut off by the network at any time and for any time, every capacity of the connection, number of senders and interleaving.",
 "No test has a slow peer.",
 ["session.go", "server.go"],
 [("bounded send queue, close when full", "github.com/funny/link session.go Send"), ("broadcast outside the registry lock", "server.go Broadcast")],
 [("sendChan", "messages accepted and not yet written", "github.com/funny/link session.go")],
 ["duration and results of Send, Request, Reply, Broadcast", "CloseHandler", "frames the terminals receive"])

prop("C14", "A panic in application code costs only that one call",
 "If a message handler, request callback, close handler, the decoder of a message type or location extension, or any method of a type that arrives in packets, of the application panics, in whatever way, only that call is cut short (a message that could not be decoded is answered as unsupported, a packet that could not be read or completed with failure): the process survives, the connection stays open, every other message is still delivered once and in order, requests go on being answered, closes are still reported once, no file stays open and Stop still returns.",
 ["schedules", "histories", "inputs"],
 "For every kind of panic in any handler, callback or decoder at any point of the traffic of several terminals, with and without packet merging, every interleaving.",
 "No test calls a handler.",
 ["server.go", "session.go", "session_handler.go"],
 [("recovery around handlers", "server.go dispatchMessage, handleClose"), ("recovery around callbacks", "session.go message"), ("recovery around decoders", "protocol/message.go tryDecode"), ("recovery around packet types", "session_handler.go readPacket, setReader")],
 [], ["message handlers, request callbacks and close handler", "the process"])

prop("C15", "A broadcast reaches every open session once and counts them correctly",
 "A broadcast sends its message, whole and as it was when the call was made, exactly once to every session open during the whole call, at most once to sessions opened or ended meanwhile, and never to others; the number it returns lies between those two sets and is at least the number of terminals that receive it. Successive broadcasts arrive in order. A message that cannot be encoded reaches nobody, returns 0 and disturbs nothing.",
 ["schedules", "histories", "inputs"],
 "For every number of concurrent broadcasts, terminals joining and leaving in any way meanwhile, and every interleaving.",
 "No test broadcasts.",
 ["server.go", "session.go", "session_handler.go"],
 [("snapshot of the registry, then send to each", "server.go Broadcast")],
 [("sessions", "registry of open sessions", "server.go Server")],
 ["frames the terminals receive", "result of Broadcast"])

prop("C16", "Encrypted messages are delivered decrypted; undecryptable ones never are",
 "With a private key configured, a message whose body the terminal encrypted with the matching public key, in blocks as the protocol defines, is delivered exactly like the same message in plain, once and in order, mixed freely with plain ones. A message that cannot be decrypted (damaged, cut, lengthened, for another key, or no key configured) is not delivered, nor is anything after it: its connection ends, and others are not affected. A public key set for a session is the one it returns, and may be set at any time.",
 ["inputs", "schedules", "histories", "configurations"],
 "For every sequence of encrypted and plain messages of every type, every damage to the ciphertext, every segmentation, key changes at any time, every interleaving.",
 "One test encrypts and decrypts one message in memory.",
 ["protocol/message.go", "protocol/helpers.go", "protocol.go", "session.go"],
 [("decryption block by block", "protocol/message.go Decode"), ("key per codec", "protocol.go GetPublicKey, SetPublicKey")],
 [("publicKey", "terminal's key", "protocol.go ProtocolCodec")],
 ["message handlers", "connection end seen by the terminal", "GetPublicKey"])

prop("C17", "Every well-formed frame is either delivered or answered once as unsupported",
 "A well-formed frame (framing, escapes, checksum and header right) of any type and body is either delivered to the handler of its type or answered exactly once with a general reply saying unsupported, never both and never neither, in the order of the frames, and the connection stays open. Frames of unknown type, with a body that ends before what its type or its own counts and lengths require, with a length that disagrees with the header or with damaged compressed data are answered, not delivered; messages in order around them are delivered unchanged.",
 ["inputs", "schedules", "histories"],
 "For every type number and body: random, cut, extended and altered bodies of every type mixed with ordinary messages, from several terminals, every segmentation and interleaving.",
 "Tests decode only valid samples and never look at the answer.",
 ["protocol/message.go", "session_handler.go", "protocol/t808_*.go", "protocol/bufio.go"],
 [("undecodable body leaves the message without one", "protocol/message.go Decode"), ("negative answer", "session_handler.go HandleSession")],
 [], ["message handlers", "general replies received by the terminal", "connection state"])

prop("C18", "Every operation may be called at any time from any goroutine or handler",
 "Send, Request, Reply, Broadcast, GetSession, SetPublicKey, GetPublicKey, Close, AddHandler, GetServer, GetPrivateKey, SetLogLevel, Stop and a second Run may be called at any time and at once, from any goroutine, message handler, request callback or close handler (Stop not from a close handler, which it waits for): there is no data race, no deadlock and no crash, every call returns, and afterwards the server still serves new terminals and still stops.",
 ["schedules", "histories", "fault_sequences"],
 "For every mix of these operations from every place, with terminals sending, answering, misbehaving, pausing and leaving at the same time, every interleaving and stall.",
 "No test calls anything concurrently.",
 ["server.go", "session.go", "session_handler.go", "protocol.go", "timer.go"],
 [("one lock per shared structure", "server.go, session.go, timer.go"), ("answers and callbacks outside the locks", "session.go message")],
 [("sessions, handlers, listener", "state of the server", "server.go Server"), ("requests, next, iccID", "state of a session", "session.go Session")],
 ["return of every call", "race detector", "traffic after the mix"])

prop("C19", "The codec turns any byte stream into exactly its frames and sends whole frames",
 "Over any reader (short, empty or erroneous reads, data together with an error or the end), receiving returns exactly the well-formed frames of the stream, once, in order and intact, each malformed stretch as an error without losing the frames around it, and the end only at the end. Over any writer, a send succeeds exactly if one whole frame was written; what cannot be encoded, or is no message, is an error and writes nothing. Two ends using the library exchange messages of all types unchanged, in plain or encrypted with the key in force.",
 ["inputs", "schedules", "fault_sequences"],
 "For every sequence of messages of every type, garbage between them, cutting of the stream, reader and writer faults at any point, key changes, and concurrent use of both directions.",
 "One test sends one buffer through the codec.",
 ["protocol.go", "protocol/message.go", "protocol/header.go", "protocol/helpers.go"],
 [("receive buffer searched for frames", "protocol.go Receive, readFromBuffer"), ("frame built whole, written once", "protocol.go Send")],
 [("bufferReceiving", "bytes received and not yet taken", "protocol.go ProtocolCodec"), ("publicKey", "peer's key", "protocol.go ProtocolCodec")],
 ["results of Receive and Send", "bytes written"])

prop("C20", "Nothing is left behind by ended connections or by a stopped server",
 "After any number of connections have come and gone in any way, the server holds no connection, open file, session, timer entry or goroutine for them: what it holds does not grow with the number of connections served. After Stop it holds nothing. Each connection is reported closed once.",
 ["histories", "schedules", "fault_sequences"],
 "For every history of connections ending by close, half-close, reset, malformed input, silence, full queue, application close or Stop, with requests outstanding and transfers under way, every interleaving.",
 "No test opens a connection.",
 ["session_handler.go", "session.go", "server.go", "timer.go", "multipart.go"],
 [("deferred clean-up", "session_handler.go HandleSession"), ("sender goroutine ended by close", "session.go")],
 [("sessions", "registry of open sessions", "server.go Server"), ("q, mapper", "deadlines by session", "timer.go CountdownTimer")],
 ["open connections, files and goroutines of the simulated process", "CloseHandler"])

prop("C21", "Handlers may be added and replaced under traffic without losing a message",
 "Handlers may be added and replaced at any time, also inside handlers: every message is delivered at most once, to one handler set for its type, in order; a message sent after AddHandler returned is delivered, and not to a handler that had been replaced before it was sent. A nil handler changes nothing.",
 ["schedules", "histories"],
 "For every sequence of additions and replacements by several goroutines and handlers during the traffic of several terminals, every interleaving.",
 "No test adds a handler to a running server.",
 ["server.go", "session_handler.go"],
 [("handler table behind a lock", "server.go AddHandler"), ("lookup per message", "session_handler.go HandleSession")],
 [("messageHandlers", "handler per type", "server.go Server")],
 ["message handlers"])

prop("C22", "A blocked handler holds up its own connection only",
 "While a message handler, request callback or close handler of one connection does not return, however long, every other connection, present and new, is served as usual: messages are delivered, requests answered, sends and broadcasts arrive, silent connections are closed in time and closes reported, and no operation of the server (Stop apart, which waits for close handlers) or of any session, that connection's included, waits for it. Messages queued behind a blocked message handler are delivered, once and in order, when it returns.",
 ["schedules", "histories"],
 "For every set of blocked handlers and callbacks on some connections, every ordinary activity on others at the time, and every interleaving.",
 "No test runs a server, let alone a handler that blocks.",
 ["server.go", "session.go", "session_handler.go", "timer.go"],
 [("a goroutine per connection", "session_handler.go HandleSession"), ("handlers called without holding locks", "server.go dispatchMessage, handleClose; session.go message"), ("timer closes without waiting for close handlers", "server.go handleReadTimeout; timer.go checkExpirationQueue")],
 [("sessions", "registry of open sessions", "server.go Server")],
 ["message handlers, request callbacks and close handler", "duration of every operation", "frames the terminals receive"])

prop("C23", "Connections with the same terminal number are independent",
 "Several connections may carry the same terminal number at once (a terminal that reconnects before its old connection is noticed dead, or a duplicate): each is a session of its own. Messages, serial numbers, requests and their answers, sends, broadcasts, keepalive and close of one never reach, answer, prolong or end another.",
 ["schedules", "histories"],
 "For every number of connections under one terminal number, every traffic, request and way of ending on each of them, and every interleaving.",
 "No test opens a connection.",
 ["session.go", "server.go", "session_handler.go", "timer.go"],
 [("sessions are numbered, not named by terminal", "server.go sessions, GetSession"), ("requests kept per session", "session.go requests"), ("countdown keyed by session number", "server.go handleReadTimeout")],
 [("sessions", "registry of open sessions", "server.go Server"), ("requests", "pending requests of a session", "session.go Session")],
 ["message handlers, request callbacks and close handler", "frames the terminals receive", "GetSession"])

prop("C24", "Servers in one process are independent",
 "Several servers may run in one process: each has its own options, handlers, keys, sessions and keepalive. Messages, packets, answers, broadcasts, lookups, silence and closes concern only the server a terminal is connected to, whatever the others do; a message encrypted for one is not accepted by another; stopping, restarting or failing to start one does not affect the others.",
 ["schedules", "histories"],
 "For every number and configuration of servers in one process, every traffic on each of them, every order of starts and stops, and every interleaving.",
 "No test runs a server, let alone two.",
 ["server.go", "session.go", "session_handler.go", "protocol.go", "timer.go"],
 [("no state shared by servers", "server.go Server, NewServer"), ("each codec has the key of its server", "protocol.go NewCodec; server.go Run"), ("sessions know their server", "session.go GetServer")],
 [("sessions", "registry of open sessions of each server", "server.go Server"), ("messageHandlers", "handlers of each server", "server.go Server")],
 ["message handlers, request callbacks and close handler of each server", "frames the terminals receive", "GetSession"])
