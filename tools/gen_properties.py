"""Writes properties.jsonl (the single source of the property texts)."""

import json
from pathlib import Path

P = []


def prop(ident, title, statement, over, text, why, files, mechanism,
         state=None, observe=None):
    anchors = {
        "files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mechanism],
    }
    if state:
        anchors["state"] = state
    if observe:
        anchors["observe_at"] = observe
    assert len(title) <= 80, title
    P.append(
        {
            "id": ident,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": anchors,
        }
    )


prop(
    "C01",
    "Prefixed message streams: exactly once, in order, any segmentation",
    "Every message handed to a length-prefixed stream connection (binary, "
    "text or JSON, over TCP) reaches the peer's message handler exactly once, "
    "unmodified and in send order, no matter how the transport splits, merges "
    "or delays the bytes, how slowly the handler runs, or how large or empty "
    "the message is. If the connection breaks, what the peer's handler saw is "
    "an exact prefix of what was sent: never a partial, merged, duplicated or "
    "invented message.",
    ["schedules", "inputs", "fault_sequences"],
    "all message sequences, all segmentations and delays of the byte stream, "
    "all points at which the connection is closed, reset or disabled",
    "Tests send a few short messages over loopback, where each write arrives "
    "as one read; no test splits a header or a payload across reads, merges "
    "messages or breaks the connection mid-message.",
    ["runtimepy/message/__init__.py", "runtimepy/net/stream/base.py",
     "runtimepy/net/stream/string.py", "runtimepy/net/stream/json/__init__.py",
     "runtimepy/net/connection.py", "runtimepy/net/tcp/connection.py",
     "runtimepy/net/tcp/protocol.py"],
    [("size-prefix parser", "MessageProcessor.process"),
     ("read loop", "Connection._process_read"),
     ("receive queue", "QueueProtocol.data_received")],
    observe="PrefixedMessageConnection.process_single",
)

prop(
    "C02",
    "JSON requests: every awaited request gets its own response",
    "When one or both peers of a JSON messaging connection await responses to "
    "any number of concurrent requests, each awaited request completes with "
    "the response to exactly that request, and every request the peer "
    "receives is handled and answered exactly once. A request whose response "
    "doesn't arrive in time fails with a timeout, and later requests on the "
    "connection are unaffected by it or by its late response. Responses go "
    "to the peer that asked, commands and log messages for a peer take effect "
    "there exactly once, and an unused connection is quiet.",
    ["schedules", "histories", "fault_sequences"],
    "all interleavings of concurrent requests in both directions, response "
    "delays, handler durations, losses (datagrams) and timeouts",
    "Tests await one request at a time from one side; they never cross "
    "requests of both peers nor time one out and continue.",
    ["runtimepy/message/interface.py", "runtimepy/message/handlers.py",
     "runtimepy/net/stream/json/__init__.py", "runtimepy/util.py"],
    [("request identifiers", "JsonMessageInterface.wait_json"),
     ("response matching", "JsonMessageInterface._handle_reserved"),
     ("dispatch", "JsonMessageInterface.process_json")],
    observe="JsonMessageInterface.wait_json",
)

prop(
    "C03",
    "Connection processing always ends, cleans up and stays ended",
    "Processing of a connection ends within bounded time once its peer "
    "disconnects, its transport fails, a message handler rejects a message or "
    "raises, its stop signal is set, its timed disable expires or it is "
    "disabled; then it reports itself disabled, its transport is closed, its "
    "tasks are finished and no further message is handed to its handlers. "
    "Until one of those happens it keeps processing messages.",
    ["schedules", "fault_sequences", "histories"],
    "all orders and timings of disconnects, resets, handler failures, stop "
    "signals, timed and explicit disables relative to initialization and "
    "message processing",
    "Tests end connections in one or two fixed ways while idle; they don't "
    "race the ways of ending against each other, against initialization or "
    "against message handling.",
    ["runtimepy/net/connection.py", "runtimepy/net/tcp/connection.py",
     "runtimepy/net/tcp/protocol.py", "runtimepy/net/udp/connection.py",
     "runtimepy/net/udp/protocol.py", "runtimepy/net/manager.py"],
    [("processing", "Connection.process"), ("disable", "Connection.disable"),
     ("disconnect", "QueueProtocol.connection_lost")],
    observe="Connection.process",
)

prop(
    "C04",
    "Auto-restart: reconnects after every outage, one live session at a time",
    "A managed connection with auto-restart enabled is re-established and "
    "processes messages again within bounded time after its peer becomes "
    "reachable again, however often and for however long (within the retry "
    "budget) the peer was refused, unreachable or dropped. At any time at most "
    "one session of it is live, a connection without auto-restart is never "
    "re-established, and the stop signal ends management promptly even during "
    "an outage. Attempts are paced during an outage, and the reported restart "
    "and attempt counts equal what happened.",
    ["schedules", "fault_sequences", "histories"],
    "all sequences of peer outages (closed, reset, refused, unreachable), "
    "their timing relative to retries, and other connections coming and going",
    "The tests restart one connection once on a healthy loopback network; "
    "they have no outage of any length, no refused retries and no concurrent "
    "managed connections.",
    ["runtimepy/net/manager.py", "runtimepy/net/connection.py",
     "runtimepy/net/backoff.py", "runtimepy/net/tcp/create.py",
     "runtimepy/net/util.py", "runtimepy/net/udp/create.py"],
    [("restart", "Connection._handle_restart"),
     ("manager loop", "ConnectionManager.manage"),
     ("retry policy", "ExponentialBackoff")],
    observe="ConnectionManager.manage",
)

prop(
    "C05",
    "TFTP upload: success means the server holds exactly the sent bytes",
    "When a TFTP write reports success, the server's file contains exactly "
    "the bytes of the client's file, and it still does after every delayed or "
    "duplicated datagram of that transfer has arrived. On a network that "
    "loses, duplicates, reorders or delays datagrams no more often than the "
    "protocol's retries can mask, the transfer succeeds; otherwise it "
    "reports failure within bounded time and never a false success.",
    ["fault_sequences", "schedules", "inputs"],
    "all loss, duplication, reordering and delay patterns of datagrams, all "
    "file sizes (empty, multiples of the block size), all points of failing "
    "file operations, sequences of transfers (each on its own ports, as the "
    "tftp_write helper makes them, or after datagrams of earlier transfers "
    "between the same two ports died out)",
    "Tests transfer a few files over loopback, which neither loses, "
    "duplicates, reorders nor delays anything.",
    ["runtimepy/net/udp/tftp/__init__.py", "runtimepy/net/udp/tftp/base.py",
     "runtimepy/net/udp/tftp/endpoint.py", "runtimepy/net/udp/tftp/io.py"],
    [("client write", "BaseTftpConnection/TftpConnection.request_write"),
     ("block sequencing", "TftpEndpoint.serve_file/ingest_file"),
     ("retransmission", "repeat_until")],
    observe="TftpConnection.request_write and the file on disk",
)

prop(
    "C06",
    "TFTP download: success means the client holds exactly the file's bytes",
    "When a TFTP read reports success, the client's file contains exactly the "
    "bytes of the server's file. On a network that loses, duplicates, "
    "reorders or delays datagrams no more often than the protocol's retries "
    "can mask, the transfer succeeds; otherwise, or if the file doesn't exist "
    "or can't be read, it reports failure within bounded time and never a "
    "false success.",
    ["fault_sequences", "schedules", "inputs"],
    "all loss, duplication, reordering and delay patterns of datagrams, all "
    "file sizes, missing files, all points of failing file operations, "
    "sequences of transfers (each on its own ports, as the tftp_read helper "
    "makes them, or after datagrams of earlier transfers between the same two "
    "ports died out)",
    "Tests transfer a few files over loopback, which neither loses, "
    "duplicates, reorders nor delays anything.",
    ["runtimepy/net/udp/tftp/__init__.py", "runtimepy/net/udp/tftp/base.py",
     "runtimepy/net/udp/tftp/endpoint.py", "runtimepy/net/udp/tftp/io.py"],
    [("client read", "TftpConnection.request_read"),
     ("block sequencing", "TftpEndpoint.serve_file/ingest_file")],
    observe="TftpConnection.request_read and the file on disk",
)

prop(
    "C07",
    "TFTP server: survives any datagram and any client; transfers stay isolated",
    "A TFTP server keeps serving well-behaved clients, correctly and within "
    "bounded time, whatever datagrams anyone sends it, whichever clients "
    "vanish mid-transfer and whichever file operations fail. Transfers of "
    "different clients running at the same time don't affect each other's "
    "outcome or content.",
    ["inputs", "fault_sequences", "schedules"],
    "all byte strings as datagrams in any protocol state, all abandonment "
    "points of transfers, file-system failures, all interleavings of clients",
    "Tests only use well-formed requests from one client that finishes what "
    "it starts, on a healthy file system.",
    ["runtimepy/net/udp/tftp/__init__.py", "runtimepy/net/udp/tftp/base.py",
     "runtimepy/net/udp/tftp/endpoint.py", "runtimepy/net/udp/connection.py"],
    [("dispatch", "BaseTftpConnection.process_datagram"),
     ("per-peer state", "BaseTftpConnection.endpoint")],
    observe="a probing client's transfers",
)

prop(
    "C08",
    "HTTP streams: messages survive segmentation; responses pair with requests",
    "Any sequence of well-formed HTTP messages on a connection is delivered "
    "to the peer with exactly the method, target, status, headers and body "
    "that were sent, once each and in order, however the bytes are split, "
    "merged or delayed. A client's request completes with the response to "
    "that request, also when several are made concurrently, and fails within "
    "bounded time if the connection goes away.",
    ["schedules", "inputs", "fault_sequences"],
    "all request and response sequences (pipelined or not), all segmentations "
    "including inside header lines and multi-byte text, all disconnect points",
    "Tests make a handful of requests over loopback where a message arrives "
    "in one read.",
    ["runtimepy/net/tcp/http/__init__.py", "runtimepy/net/http/__init__.py",
     "runtimepy/net/http/state.py", "runtimepy/net/http/header.py",
     "runtimepy/net/http/request_target.py", "runtimepy/net/http/response.py"],
    [("incremental parser", "HttpMessageProcessor.ingest"),
     ("request and response pairing", "HttpConnection.request")],
    observe="HttpConnection handlers and HttpConnection.request",
)

prop(
    "C09",
    "HTTP application server answers every request and outlives bad clients",
    "The application server answers each well-formed request on a connection "
    "with exactly one complete response, in order: served files and documents "
    "byte for byte, JSON queries with the current value, commands with their "
    "effect applied exactly once. Nothing outside of the served directories "
    "is ever served. Malformed requests, clients that disconnect "
    "mid-request or mid-response, and slow clients never stop it from serving "
    "other clients within bounded time.",
    ["inputs", "fault_sequences", "schedules"],
    "all request sequences, segmentations, malformed byte strings, disconnect "
    "points and interleavings of clients",
    "Tests perform single well-formed requests over loopback; none "
    "disconnects mid-message, sends garbage, or checks a second client.",
    ["runtimepy/net/server/__init__.py", "runtimepy/net/server/json.py",
     "runtimepy/net/tcp/http/__init__.py", "runtimepy/net/http/__init__.py"],
    [("request routing", "RuntimepyServerConnection"),
     ("per-connection processing", "HttpConnection.process_binary")],
    observe="raw bytes at the client",
)

prop(
    "C10",
    "Websocket UI sessions: commands once, current telemetry, clean departure",
    "While a UI websocket client shows a tab it receives (by its next "
    "animation frame) the current value of each of the tab's channels and then "
    "every later change, once and in order; values JSON can't represent (NaN "
    "and infinities) are left out. Commands it sends are executed exactly once "
    "in order, log messages of tabs it initialized arrive once and in order, "
    "and clients don't see or disturb each other's sessions. When a client "
    "leaves, gracefully or not, its callbacks and log listeners are removed, "
    "the reported number of connected clients equals the number of live "
    "clients, and UI metrics keep being updated (within a second) while "
    "any client that sends frames is left.",
    ["schedules", "histories", "fault_sequences"],
    "all interleavings of client messages, channel changes, polls and "
    "connects or disconnects of several clients",
    "Tests run one scripted client against a server on loopback and don't "
    "look at accounting or at callbacks left behind.",
    ["runtimepy/net/server/websocket/__init__.py",
     "runtimepy/net/server/websocket/state.py",
     "runtimepy/net/websocket/connection.py"],
    [("session state", "TabState"),
     ("message handling", "RuntimepyWebsocketConnection")],
    observe="messages received by a websocket client",
)

prop(
    "C11",
    "Instrument queries: each command's reply is the reply to that command",
    "When commands are sent to an instrument (SCPI) one after the other or "
    "concurrently, each caller that awaits a reply receives the complete "
    "reply to its own command or an explicit timeout, regardless of how reply "
    "bytes are segmented or delayed. A reply to a command that timed out, was "
    "given up or belongs to a previous session of the connection, and that "
    "arrived (or began to arrive) before a later command was sent, is never "
    "returned, in whole or in part, as the reply to that later command.",
    ["schedules", "inputs", "fault_sequences"],
    "all segmentations and delays of reply bytes, concurrent callers, lost "
    "and late replies",
    "The tests' simulated instrument answers at once and in one segment, and "
    "commands are sent by a single caller.",
    ["runtimepy/net/tcp/scpi/__init__.py"],
    [("command lock and reply queue", "ScpiConnection.send_command")],
    observe="ScpiConnection.send_command",
)

prop(
    "C12",
    "Telnet streams parse identically under every segmentation",
    "The sequence of text, commands and option negotiations that a telnet "
    "connection hands to its handlers depends only on the byte stream "
    "received, not on how it was split into reads: no byte of a telnet "
    "command, an escaped byte or a multi-byte character is lost, duplicated "
    "or misread when it straddles reads, and text precedes the commands that "
    "follow it. A driver built on it (NP-05B) reports exactly the outlet "
    "states its device has after each command, also after reconnecting.",
    ["inputs", "schedules"],
    "all telnet byte streams and all their segmentations",
    "Tests feed whole telnet sequences in single reads.",
    ["runtimepy/net/tcp/telnet/__init__.py",
     "runtimepy/net/tcp/telnet/codes.py",
     "runtimepy/net/tcp/telnet/np_05b.py"],
    [("byte-stream parser", "BasicTelnet.process_binary")],
    observe="BasicTelnet handlers",
)

prop(
    "C13",
    "Periodic tasks: serial dispatch, paced, stop promptly, run again",
    "An enabled periodic task dispatches at its configured period, one "
    "dispatch at a time, catching up or skipping (never overlapping) when a "
    "dispatch overruns; a dispatch that reports failure or raises ends the "
    "task. Stopping or disabling it by any means ends it within bounded time "
    "without abandoning a dispatch in progress, no dispatch happens after it "
    "ended, and the reported dispatch and overrun counts equal what happened.",
    ["schedules", "configurations", "fault_sequences"],
    "all dispatch durations, periods, stalls of the event loop, and orders of "
    "enabling, disabling, stopping and stop signals",
    "Tests run tasks for a few periods on the real clock with instantaneous "
    "dispatches and can't tell pacing from luck.",
    ["runtimepy/task/basic/periodic.py", "runtimepy/task/basic/manager.py",
     "runtimepy/task/asynchronous.py", "runtimepy/metrics/task.py"],
    [("dispatch loop", "PeriodicTask.run"), ("stop", "PeriodicTask.stop")],
    observe="dispatch() calls",
)

prop(
    "C14",
    "Runtime lifecycle: staged start, faithful result, complete shutdown",
    "The runtime starts its applications only after every configured "
    "connection is ready, runs each stage only after the previous one "
    "finished without failure, and its exit code is zero exactly if "
    "initialization and every application succeeded. Commands for connections "
    "are handled in the background while applications run. However the "
    "runtime ends (applications finishing, raising or failing, the stop "
    "signal, cancellation, or an initialization failure) it returns "
    "within bounded time with every connection closed, every task stopped and "
    "every server no longer listening.",
    ["schedules", "configurations", "fault_sequences"],
    "all combinations of application outcomes and stages, connection set-up "
    "delays and failures, task behaviour, and moments of the stop signal",
    "Tests run a few fixed configurations that succeed.",
    ["runtimepy/net/arbiter/base.py", "runtimepy/net/arbiter/result.py",
     "runtimepy/net/arbiter/info.py", "runtimepy/net/arbiter/imports",
     "runtimepy/net/arbiter/factory", "runtimepy/net/arbiter/housekeeping"],
    [("entry", "BaseConnectionArbiter._entry"),
     ("application stages", "BaseConnectionArbiter._run_apps_list"),
     ("overall result", "OverallResult / results")],
    observe="BaseConnectionArbiter.app and application callbacks",
)

prop(
    "C15",
    "Peer processes: commands, messages and telemetry cross intact; exit bounded",
    "A host and its peer program exchange configuration, environments, "
    "messages and commands exactly once and in order over their pipes however "
    "the pipes split data, and the host's copy of the peer's channels "
    "converges to the peer's values. If either side ends, crashes or stops "
    "responding, the other side notices and shuts down within bounded time.",
    ["schedules", "fault_sequences", "crash_points"],
    "all segmentations and delays of the pipes, all points at which the peer "
    "exits or is killed",
    "Tests run one healthy child process and compare a few values; none kills "
    "the child at a chosen point or splits its output.",
    ["runtimepy/subprocess/peer.py", "runtimepy/subprocess/program.py",
     "runtimepy/subprocess/interface.py", "runtimepy/subprocess/protocol.py",
     "runtimepy/subprocess/__init__.py"],
    [("pipes", "RuntimepySubprocessProtocol"),
     ("host", "RuntimepyPeer"), ("peer", "PeerProgram")],
    observe="host and peer message handlers and environments",
)

prop(
    "C16",
    "Channel event telemetry decodes exactly what was emitted, in any chunks",
    "Every change of a streamed channel (other than to NaN, and within its "
    "rate limit) is emitted exactly once and counted exactly, also when the "
    "clock steps. The stream decodes to exactly the emitted events (channel, "
    "timestamp, value) in order, however it is cut into chunks; cut at any "
    "byte it yields exactly its complete events, and decoding resumes "
    "correctly when the rest arrives. An environment that was exported and "
    "loaded elsewhere has the same values, and ingesting the events leaves "
    "it with the emitting channels' values, scaling included.",
    ["inputs", "schedules", "crash_points"],
    "all event sequences over all channel types, all chunkings and all "
    "truncation points of the encoded stream",
    "Tests decode one complete stream from memory in one piece.",
    ["runtimepy/channel/environment/telemetry.py",
     "runtimepy/channel/event/__init__.py", "runtimepy/channel/registry.py",
     "runtimepy/channel/environment/file.py",
     "runtimepy/subprocess/interface.py"],
    [("decoder", "TelemetryChannelEnvironment.parse_event_stream"),
     ("emitter", "ChannelRegistry.registered / PrimitiveEvent")],
    observe="parse_event_stream and ingest",
)

prop(
    "C17",
    "Waiting on a channel: wakes exactly when the condition is met",
    "A caller waiting for a channel to meet a condition (a value, a "
    "comparison, closeness, a state) is told success if and only if the "
    "condition held when the wait began or was met by some update during the "
    "wait, within bounded time of that update; otherwise it is told it was "
    "not, when (and not before) the timeout expires. A caller sampling a "
    "channel receives each change during the sampling period exactly once, "
    "in order, and is itself never disturbed by the period's end. Every "
    "registered change callback runs exactly once per change, in order of "
    "the changes (one-shot callbacks run once), also when callbacks and "
    "waiters come and go during updates, and nothing is left registered "
    "afterwards.",
    ["schedules", "histories"],
    "all interleavings of updates, waiters, timeouts, cancellations and "
    "callback (de)registration",
    "Tests update a value once while a single waiter waits.",
    ["runtimepy/primitives/base.py", "runtimepy/primitives/evaluation.py",
     "runtimepy/primitives/int.py", "runtimepy/primitives/bool.py"],
    [("change callbacks", "Primitive.value setter"),
     ("waiting", "primitives.evaluation.evaluate and friends")],
    observe="evaluate(), wait_for_value(), wait_for_state()",
)

prop(
    "C18",
    "Channel commands apply exactly once, in order, only where permitted",
    "Commands submitted to a channel environment, immediately or through the "
    "asynchronous command queue by any number of callers, take effect exactly "
    "once each and in submission order, and each reported result matches the "
    "effect. A command on a channel that isn't commandable, unless forced, or "
    "a malformed command changes nothing; a failing command or handler never "
    "prevents later ones from being processed.",
    ["schedules", "histories", "inputs"],
    "all command sequences, submission interleavings, handler durations and "
    "failures",
    "Tests issue single commands and check one value.",
    ["runtimepy/channel/environment/command/processor.py",
     "runtimepy/channel/environment/command/parser.py",
     "runtimepy/mixins/async_command.py",
     "runtimepy/net/arbiter/housekeeping/__init__.py"],
    [("command processor", "ChannelCommandProcessor"),
     ("asynchronous queue", "AsyncCommandProcessingMixin")],
    observe="channel values and command results",
)

prop(
    "C19",
    "UDP struct telemetry: every delivered sample decodes exactly, in order",
    "Every struct sample captured by a telemetry sender is transmitted "
    "exactly once, in capture order, in datagrams no larger than the path "
    "allows, and the receiver decodes from each delivered datagram exactly "
    "the captured samples (sequence, timestamp, every field) in order. Lost, "
    "duplicated or reordered datagrams affect only the samples they carry.",
    ["schedules", "fault_sequences", "configurations"],
    "all capture, poll and flush interleavings, struct layouts, datagram "
    "loss, duplication and reordering",
    "Tests send a few samples over loopback and count messages.",
    ["runtimepy/net/arbiter/struct/__init__.py",
     "runtimepy/primitives/serializable/framer.py",
     "runtimepy/net/udp/queue.py"],
    [("sender", "UdpStructTransceiver"), ("framing", "SerializableFramer")],
    observe="decoded samples at the receiver",
)

prop(
    "C20",
    "Traffic metrics equal the traffic",
    "For every connection the reported transmitted and received message and "
    "byte counts equal what was handed to, respectively what was consumed "
    "from, the transport, under every segmentation, loss, burst and restart, "
    "and what one end of a loss-free stream reports as sent equals what the "
    "other end reports as received. Reported rates are the traffic of the most "
    "recent measurement intervals in the documented units (messages and "
    "kilobits per second): never negative, zero after a reset and decaying to "
    "zero when traffic stops.",
    ["schedules", "histories", "fault_sequences"],
    "all traffic patterns, segmentations, polls, resets and restarts",
    "Tests only check that counters are non-zero after some traffic.",
    ["runtimepy/metrics/channel.py", "runtimepy/metrics/connection.py",
     "runtimepy/net/tcp/connection.py", "runtimepy/net/udp/connection.py",
     "runtimepy/net/websocket/connection.py", "runtimepy/net/manager.py"],
    [("counters", "ChannelMetrics.increment"),
     ("rates", "ChannelMetrics.poll")],
    observe="connection metric channels",
)

prop(
    "C21",
    "Log tailing: each complete line once, in order, across rotation of writes",
    "A task that tails log files forwards every line appended after it "
    "started exactly once, whole and in order, however writers split a line "
    "into several writes, and keeps doing so for the other files if one "
    "becomes unreadable or disappears.",
    ["schedules", "fault_sequences", "inputs"],
    "all interleavings of partial writes and polls, file errors",
    "Tests append whole lines between polls.",
    ["runtimepy/mixins/logging.py"],
    [("tailing", "LogCaptureMixin.dispatch_log_capture")],
    observe="LogCaptureMixin.log_line",
)

prop(
    "C22",
    "UDP connections: each delivered datagram is processed once, on its own",
    "Each datagram the network delivers to a UDP connection is handed to its "
    "handler exactly once, whole, alone, in arrival order and with its "
    "sender's address; each datagram sent goes out once, unmodified, to the "
    "intended address. Errors reported by the network or a failing "
    "handler disable exactly the affected connection, and one with auto-restart resumes within bounded "
    "time.",
    ["schedules", "fault_sequences", "histories"],
    "all arrival orders, sizes, duplicates, losses, ICMP errors and handler "
    "durations",
    "Tests exchange a few datagrams in lockstep over loopback.",
    ["runtimepy/net/udp/connection.py", "runtimepy/net/udp/protocol.py",
     "runtimepy/net/udp/create.py", "runtimepy/net/udp/queue.py"],
    [("receive queue", "UdpQueueProtocol"),
     ("processing", "UdpConnection._process_read")],
    observe="UdpConnection.process_datagram",
)

prop(
    "C23",
    "Binary codecs round-trip every representable value",
    "Encoding any representable value of a primitive, enumeration, bit-field, "
    "array or protocol type and decoding it again yields the same value, for "
    "both byte orders.",
    ["inputs"],
    "all values of all codec types",
    "Tests sample a few values per type.",
    ["runtimepy/primitives", "runtimepy/codec", "runtimepy/enum",
     "runtimepy/primitives/field"],
    [("codecs", "Primitive.to_stream/from_stream, Protocol")],
)

prop(
    "C24",
    "Environments survive export and import unchanged",
    "A channel environment exported to files or JSON and loaded again has the "
    "same channels, enumerations, fields, scalings and commandability.",
    ["inputs", "configurations"],
    "all environments",
    "Tests compare a few fixed environments.",
    ["runtimepy/channel/environment/file.py",
     "runtimepy/channel/environment/base.py"],
    [("export and load", "ChannelEnvironment.export/load")],
)

if __name__ == "__main__":
    out = Path(__file__).resolve().parent.parent / "properties.jsonl"
    out.write_text("".join(json.dumps(p) + "\n" for p in P))
    print(len(P))
