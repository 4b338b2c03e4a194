#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, observe=observe, note=note, na=na))

T = "The existing tests encode and decode one fixed sample per message type in a single goroutine"

prop("C01", "Every well-formed message a terminal sends is delivered once, in order, intact",
 "Whatever well-formed messages a terminal writes to its connection, and however the byte stream is cut, delayed or read, the application's handler for each message type is called exactly once per message, in the order sent, on the session of that connection, with the header and body the terminal sent. Messages of different connections never mix, and a delivered message is not changed afterwards by later traffic.",
 ["inputs", "schedules", "histories", "configurations"],
 "For every set of terminals, sequence of well-formed messages of every registered type (any field values the wire format can carry, with and without packet headers), every segmentation and delay of the byte stream, every short read, every goroutine interleaving and stall.",
 T + " and never open a connection; no test cuts a stream, interleaves two connections or runs two goroutines.",
 ["protocol.go", "session_handler.go", "server.go", "protocol/message.go", "protocol/header.go", "protocol/t808_*.go"],
 [("reassembly of frames from the stream", "protocol.go Receive/readFromBuffer"), ("unescape, checksum and header", "protocol/message.go Decode, protocol/header.go Decode"), ("receive loop and dispatch", "session_handler.go HandleSession, server.go dispatchMessage")],
 [("bufferReceiving", "bytes received and not yet decoded", "protocol.go ProtocolCodec")],
 ["message handlers registered with AddHandler"])

prop("C02", "Every accepted send reaches the terminal once, in order, as it was when sent",
 "For every message whose send call succeeds, the terminal receives exactly one well-formed frame with that type and body as they were when the call was made, in an order consistent with the order of the calls, as long as its connection lasts; a broken connection loses only a suffix. A message that cannot be encoded, is too long or has a text or list too long for its length field is refused with an error and disturbs nothing else. Sending leaves the application's message as it was (only areas 0x8602 and 0x8604 note their hemisphere in it), and one message may be sent several times and by several goroutines at once.",
 ["inputs", "schedules", "histories", "fault_sequences"],
 "For every number of concurrent senders, messages of every type, every interleaving of senders, handlers and the connection's writer, slow readers, and a close, reset or failure at any moment.",
 T + "; no test sends over a connection, from several goroutines, or while the connection breaks.",
 ["session.go", "protocol.go", "protocol/message.go", "protocol/t808_*.go"],
 [("send queue per connection", "session.go Send, github.com/funny/link Session.Send/sendLoop"), ("framing and escaping", "protocol/message.go Encode"), ("body encoded at the call", "session.go encodeBody")],
 [("sendChan", "messages accepted and not yet written", "github.com/funny/link session.go")],
 ["bytes on the terminal's side of the connection", "results of Send, Request, Reply"])

prop("C03", "Outgoing messages carry distinct serial numbers and the terminal's own number",
 "The serial number a send call returns is the one in the frame the terminal receives; it is never zero, and no two of the last 200 messages of one connection share it, however many goroutines send at once. Once the terminal has identified itself, every frame sent to it carries the terminal number of the latest message delivered from it that carries one (other than 0).",
 ["schedules", "histories", "inputs"],
 "For every number of concurrent senders, replies and requests on one connection, every interleaving, and histories long enough to exhaust the serial numbers several times; every sequence of terminal numbers.",
 "No test sends two messages, let alone concurrently or hundreds of times.",
 ["session.go"],
 [("serial counter advanced by compare-and-swap", "session.go nextID"), ("terminal number remembered per session", "session.go message")],
 [("next", "last serial number given out", "session.go Session"), ("iccID", "latest terminal number", "session.go Session")],
 ["frames received by the terminal", "values returned by Send, Request, Reply"])

prop("C04", "An answer reaches the callback of exactly the request it answers, at most once",
 "When a terminal answers a request the application made, the callback of that request, and no other, is called with that answer, exactly once, however quickly the answer comes, and before any later message of that terminal is delivered; an answer to no outstanding request calls no callback. A request that was superseded by a newer one of the same type, that failed to be sent, or whose serial number has been used again never has its callback called by an answer to another message.",
 ["schedules", "histories", "inputs"],
 "For every set of concurrent requests from several goroutines and from inside callbacks, answers of all eight answering types in any order, delayed, duplicated, invented or missing, every interleaving, and histories long enough for serial numbers to be used again.",
 "No test makes a request; the race between an answer and the registration of its request needs a particular interleaving.",
 ["session.go"],
 [("request registered before it is sent", "session.go Request"), ("lookup by answered serial number, removal before the call", "session.go message, takeRequestContext"), ("replacement of stale requests", "session.go addRequestContext")],
 [("requests", "outstanding requests", "session.go Session")],
 ["request callbacks", "frames received by the terminal"])

prop("C05", "Malformed input ends its own connection only and never harms the server",
 "Any bytes a peer sends cause neither a crash nor a hang: malformed framing or a malformed header ends that connection promptly and is reported as a close once, while a well-formed frame that cannot be understood leaves it open. Messages sent before the fault on that connection are delivered, nothing malformed is delivered, and other connections, present and future, are served as if nothing had happened.",
 ["inputs", "schedules", "histories", "fault_sequences"],
 "For every byte string (empty and truncated frames, flipped, lost or inserted bytes, bad escapes and checksums, endless frames, oversized bodies, unknown types) at any point of any connection's traffic, every segmentation and interleaving with well-behaved terminals.",
 "Tests decode only valid samples.",
 ["protocol.go", "protocol/message.go", "protocol/header.go", "session_handler.go", "protocol/bufio.go"],
 [("frame validation", "protocol/message.go Decode"), ("bound on unterminated input", "protocol.go Receive"), ("close on receive error", "session_handler.go HandleSession")],
 [], ["connection end seen by the peer", "message handlers", "close handler"])

prop("C06", "Every ended connection is reported closed exactly once and leaves the registry",
 "However and whenever a connection ends (terminal close, half-close, reset, malformed input, silence, one or several closes by the application, inside handlers or outside), the close handler is called exactly once with that connection's session, the session is no longer found from then on, and sending on it fails. While its connection is open a session is found under its own unique number and no close is reported.",
 ["schedules", "histories", "fault_sequences"],
 "For every number of connections, every cause and moment of ending including before the session is fully set up, every interleaving and stall.",
 "No test opens a connection; the windows between accepting, registering and closing need particular interleavings.",
 ["session_handler.go", "server.go", "session.go"],
 [("close callback plus deferred clean-up, once", "session_handler.go HandleSession"), ("removal from the registry and the timer before the report", "server.go handleClose")],
 [("sessions", "registry of open sessions", "server.go Server")],
 ["CloseHandler", "GetSession", "results of Send after the close"])

prop("C07", "Silent connections are closed after the keepalive period and active ones are not",
 "A connection on which no message arrives for the keepalive period is closed within a few seconds after it, and reported; a connection on which some message arrives at least once per period, whether or not it has a handler or can be understood, is never closed for silence. Neither setting the system clock nor other terminals' behaviour changes this.",
 ["schedules", "histories", "configurations", "fault_sequences"],
 "For every keepalive period, arrival pattern of messages of every kind, jump of the wall clock forwards or backwards at any time, and interleaving of timer ticks, messages and closes.",
 "No test lets time pass; the outcome depends on the order of ticks, updates and clock changes.",
 ["timer.go", "session_handler.go", "server.go"],
 [("countdown per session restarted by every message", "session_handler.go HandleSession, timer.go Update"), ("expiry closes the session", "server.go handleReadTimeout")],
 [("q, mapper", "deadlines by session", "timer.go CountdownTimer")],
 ["connection end seen by the terminal", "CloseHandler"])

prop("C08", "A countdown fires once per silence, for its own key, within its window",
 "A key of the countdown timer is reported exactly once if it is not updated or removed for the configured number of seconds, no earlier than one second before and no later than a few seconds after that; it is not reported if it is removed, and an update before the deadline postpones it. This holds for any number of keys and concurrent callers, for calls from inside the callback, and for changes of the period and of the system clock.",
 ["schedules", "histories", "configurations"],
 "For every history of updates, removals, period changes and slow callbacks by several goroutines on several keys, and every interleaving with the ticks.",
 "There is no test of the timer at all.",
 ["timer.go"],
 [("priority queue ordered by deadline with index map", "timer.go expirationQueue, Update, Remove"), ("tick", "timer.go checkExpirationQueue")],
 [("q, mapper", "deadlines by key", "timer.go CountdownTimer")],
 ["the timer's callback"])

prop("C09", "A message split into packets is delivered once, complete and correct",
 "With merging enabled, when the last packet of a split message arrives and all its packets have been received, the handler is called once with a reader yielding exactly the concatenation of the packets' data in sequence order, latest version of each; otherwise, and for a packet 0 of 0, it is not called. Every packet is answered once: with success if stored, and for the last packet with success exactly if the message is complete and delivered; messages of other terminals, types and numbers, and foreign files, never mix in, and no file stays open.",
 ["schedules", "histories", "inputs"],
 "For every set of terminals transferring messages of several types and numbers at once, packets lost, repeated, reordered or pipelined, the same message sent over several connections of one terminal at once, slow readers, every interleaving.",
 "One test merges four stored packets in sequence order, alone.",
 ["multipart.go", "session_handler.go"],
 [("one file per packet, written aside and renamed", "multipart.go Write"), ("completeness and merge of packets 1..n", "multipart.go IsFull, Merge"), ("answers", "session_handler.go HandleSession")],
 [("packet files", "received packets by terminal, type, number and sequence", "multipart.go rootDir")],
 ["message handlers and the reader they get", "general replies received by the terminal"])

prop("C10", "Failing storage refuses packets but never corrupts or loses accepted ones",
 "When storage operations fail (no space, short writes, errors on open, write, read, close, rename, list, too many open files), each affected packet is answered with failure or, if answered with success, is really stored; no message is ever delivered with wrong, missing or partial content. The server keeps serving, and once storage is well again, repeating the refused packets completes every transfer, leaving no file open and, unless removing a file itself failed, nothing of the refused packets in storage.",
 ["fault_sequences", "schedules", "histories"],
 "For every sequence of storage errors at any file operation during concurrent transfers by several terminals, and every interleaving.",
 "No test injects a storage error.",
 ["multipart.go", "session_handler.go"],
 [("errors turned into negative answers", "session_handler.go HandleSession"), ("write aside and rename", "multipart.go Write, Merge")],
 [("packet files", "received packets", "multipart.go rootDir")],
 ["general replies received by the terminal", "message handlers and the reader they get"])

prop("C11", "Acknowledged packets survive a crash and partial ones are never used",
 "If the server process dies at any instant, including inside any file operation with the data partly written, and is started again, every packet it had acknowledged is still there, so that sending the remaining packets completes the message with exactly the right content. No packet or message interrupted by the crash is ever delivered in partial form.",
 ["crash_points", "schedules", "histories"],
 "For every process crash at any file operation or moment, several crashes per history, several terminals resuming their transfers, every interleaving.",
 "No test stops the process.",
 ["multipart.go", "session_handler.go"],
 [("write aside and rename before the answer", "multipart.go Write"), ("merge into a file of its own", "multipart.go Merge")],
 [("packet files", "received packets", "multipart.go rootDir")],
 ["general replies received by the terminal", "message handlers and the reader they get after the restart"])

exec(open(os.path.join(root, "tools", "more_props.py")).read())

prop("N01", "Message bodies round-trip through their encoders and decoders",
 "For every message type, decoding what was encoded yields the same value, and encoding what was decoded yields the same bytes.",
 ["inputs"], "For every value of every message type.", T + ".",
 ["protocol/t808_*.go", "protocol/bufio.go", "protocol/helpers.go", "protocol/extra"], [("field-by-field codecs", "protocol/t808_*.go")],
 na="A pure function of its input: no schedule, clock, I/O, fault or peer takes part, so there is nothing to simulate. The codecs of all types do run, against independent reference encodings, inside the simulated traffic of C01 and C02.")
prop("N02", "Options are validated",
 "A server is created with the defaults documented for missing options and refuses a private key that is not 1024 bits long.",
 ["configurations"], "For every combination of options.", "No test creates a server.",
 ["server.go"], [("checks in the constructor", "server.go NewServer")],
 na="A pure function of the options with no schedule, clock, I/O or fault in it.")
prop("N03", "Status bits and coordinates are computed exactly",
 "The helpers that set and read status and alarm bits, coordinates and public keys agree with the protocol's bit layout and units.",
 ["inputs"], "For every value.", T + ".",
 ["protocol/bit.go", "protocol/helpers.go", "protocol/t808_0x0200.go"], [("bit helpers", "protocol/bit.go")],
 na="Pure functions of their arguments: nothing in them depends on a schedule, clock, I/O, fault or peer.")

with open(root + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                observe_at=list(p["observe"]), hook_needed=None)), ensure_ascii=False) + "\n")
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))

NOTE = ("Evidence, not proof: seeded search over schedules, inputs and faults; every run of the real code of /repo and of its connection library "
        "is decided by one seed and replays exactly. Trusted: the source rewriter, the simulated runtime (scheduler, channels, locks, clock, TCP, "
        "file system) and the harness's reference codec and models.")
man = dict(version=1, setup_cmd="bash sim/setup.sh",
 hooks=dict(guard="none", enable="No hooks are added to /repo: each check rewrites a scratch copy of the current tree (imports of sync, net, os, time and the like, go statements, channel operations) onto the simulator with sim/rewriter.", source_commits=[]),
 checks=[dict(property=p["id"], quick_cmd="./check %s quick" % p["id"], thorough_cmd="./check %s thorough" % p["id"],
   technique="deterministic simulation with fault injection (seeded schedule and fault search)", level="exploration",
   level_note=(p["note"] + " " if p["note"] else "") + NOTE) for p in P if not p["na"]],
 not_applicable=[dict(property=p["id"], reason=p["na"]) for p in P if p["na"]],
 notes="See DESIGN.md. known-findings.txt lists the defects found and repaired; none is open.")
json.dump(man, open(root + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(root + "/MANIFEST.json", "a").write("\n")
