#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only because hand-written JSONL is unreadable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Local messages: delivered exactly once, in per-sender order, no lost wakeups",
 "Every message that a sender successfully hands to a live, started component in the same process is handled exactly once, and messages of one sender to one component are handled in the order they were sent. A component that has something to handle is eventually executed, whatever the interleaving of senders with the end of a previous execution. Nothing is handled that was never sent.",
 ["schedules", "programs", "histories"],
 "all interleavings of any number of sender threads with the threads executing the component, all batch sizes, all mixes of strong/weak/recipient references",
 "The tests send a handful of messages from one thread and await a latch; a lost wakeup or a reordering needs a send to land in the few instructions between the last dequeue and the release of the component.",
 ["core/src/component/mod.rs", "core/src/component/core.rs", "core/src/component/actual_component.rs", "core/src/component/lifecycle.rs", "core/src/actors/refs.rs", "core/src/runtime/scheduler.rs"],
 [("work counter incremented before the push, schedule only on 0->1", "core/src/component/core.rs, core/src/actors/refs.rs"),
  ("re-schedule if the counter is still positive after a batch", "core/src/component/actual_component.rs execute/decrement_work")],
 [("work count", "number of enqueued, not yet accounted events", "core/src/component/mod.rs ComponentCore/lifecycle word")],
 ["handler entry in a component definition", "return of tell()"])

prop("C02", "Handlers of a component never overlap; dedicated ones keep their own thread",
 "At any moment at most one thread executes handlers of a given component, and the effects of one handler are visible to the next one, whatever thread runs it. A component that was created with its own dedicated thread runs all its handlers and lifecycle methods on that one thread, whatever kind of event triggers them.",
 ["schedules", "programs", "configurations"],
 "all interleavings of triggers (messages, port events, timeouts, control, futures) from any thread, all scheduler configurations including dedicated and pinned components",
 "No test checks overlap; the tests for dedicated components only observe the thread for actor messages.",
 ["core/src/component/actual_component.rs", "core/src/component/mod.rs", "core/src/dedicated_scheduler.rs", "core/src/ports.rs", "core/src/actors/refs.rs", "core/src/component/context.rs"],
 [("per-component mutex and single-scheduling by the work counter", "core/src/component/actual_component.rs"),
  ("every trigger goes through the component's own scheduler", "core/src/component/mod.rs schedule; core/src/dedicated_scheduler.rs")],
 [], ["thread id and overlap flag in handlers"])

prop("C03", "Lifecycle gating: user events only run while a component is active",
 "No message, port event or timeout of a component is handled before its start handler has completed, nor between its stop handler and a later start; events that arrive during such a time are kept and handled in order after the next start. Start and stop commands given from one thread take effect in the order given and each invokes the corresponding handler once.",
 ["schedules", "histories", "programs"],
 "all histories of start/stop/kill commands and user events, interleaved with executions of the component in every way",
 "The tests start a component, stop it, and look at one flag; they never interleave queued user events with several lifecycle commands.",
 ["core/src/component/actual_component.rs", "core/src/component/lifecycle.rs", "core/src/runtime/system.rs", "core/src/component/core.rs"],
 [("control queue drained before user events; return before user events unless active", "core/src/component/actual_component.rs execute")],
 [("lifecycle state", "passive/active/blocking/faulty/destroyed", "core/src/component/lifecycle.rs")],
 ["handler entry", "completion of lifecycle futures"])

prop("C04", "Termination is final",
 "Once a component has been killed, has shut itself down, or has failed, none of its handlers (message, port, timeout, future, start, stop) ever runs again, whatever is still queued or arrives later. The kill handler runs exactly once for a kill or an orderly self-shutdown and never for an unrecoverable failure or a panic. Sends to a terminated component are silently dropped and never crash or wedge the sender.",
 ["schedules", "histories", "fault_sequences"],
 "all histories in which termination comes from a command, from a handler's own decision, or from a failure, at every position relative to queued and concurrent events of every kind",
 "The tests kill an idle component; they do not queue other commands, timers, futures and messages around the kill.",
 ["core/src/component/actual_component.rs", "core/src/component/lifecycle.rs", "core/src/component/core.rs", "core/src/component/future_task.rs"],
 [("destroyed/faulty state checked before execution and before enqueueing", "core/src/component/lifecycle.rs"),
  ("leaving the batch loop as soon as a handler terminates the component", "core/src/component/actual_component.rs")],
 [], ["handler entry", "on_kill"])

prop("C05", "Blocking and spawned futures: exclusive, in order, each completed once",
 "While a component blocks on a future no other handler of that component runs, and everything that arrived meanwhile is handled afterwards in order; a start or stop that blocks takes effect only once its future has completed. Each future, blocking or spawned, is driven until it completes and its result is applied exactly once, no matter which thread completes what it waits for and when. The result a blocking future returns is acted on like that of a handler.",
 ["schedules", "programs", "histories"],
 "all placements of blocking and non-blocking futures in handlers of every kind, all orders of their completion relative to arriving events",
 "The tests use one future at a time, completed before or long after being awaited; wake-ups racing with the end of an execution are never produced.",
 ["core/src/component/future_task.rs", "core/src/component/actual_component.rs", "core/src/component/mod.rs", "core/src/component/context.rs", "core/src/component/core.rs"],
 [("blocking state kept next to the work counter; polled before anything else", "core/src/component/actual_component.rs"),
  ("waker sends a poll command or re-schedules", "core/src/component/future_task.rs")],
 [("blocking future", "the future that must finish first", "component inner state")],
 ["events inside the future bodies", "handler entry"])

prop("C06", "Fault isolation and recovery",
 "A panic in a handler stops only the component it happened in: all other components keep handling their events. The recovery function registered last before the failure runs exactly once per failed component, with the identity of the failed component and information on the failure; no recovery runs for components that did not fail. A failure of one of the system's own components makes the system unusable rather than being ignored.",
 ["fault_sequences", "schedules", "programs"],
 "all places a panic can happen (start, stop, message, port, timeout, future, recoverable error) and all orders of concurrent failures",
 "The tests panic in a message handler and in one start handler, with one recovery function.",
 ["core/src/component/actual_component.rs", "core/src/component/context.rs", "core/src/component/mod.rs", "core/src/runtime/system.rs", "core/src/supervision.rs"],
 [("unwind guard around the execution; recovery function taken from a mutex", "core/src/component/actual_component.rs execute"),
  ("poisoning of the scheduler", "core/src/runtime/system.rs poison")],
 [], ["recovery function", "handlers of other components"])

prop("C07", "Lifecycle notifications complete and system shutdown waits for every component",
 "A notification future for starting, stopping or killing a component completes exactly when that transition has really happened, i.e. after the corresponding handler has finished, and never before it. Shutting the system down returns only after every component that was running when it was requested has been terminated with its kill handler run, and so is a component whose start completes while the shutdown is waiting. A future for a transition that can no longer happen does not block the shutdown.",
 ["schedules", "histories", "programs"],
 "all histories of start/stop/kill with and without notification over several components, shutdown at every point",
 "The tests await one notification per component and shut down idle systems.",
 ["core/src/supervision.rs", "core/src/runtime/system.rs", "core/src/component/actual_component.rs", "core/src/runtime/lifecycle.rs"],
 [("supervisor component keeps children and listeners; system components shut down last", "core/src/supervision.rs")],
 [("children/listeners", "live components and pending notification promises", "core/src/supervision.rs ComponentSupervisor")],
 ["readiness of the futures", "on_start/on_stop/on_kill", "return of shutdown()"])

prop("C08", "Ports: every connected peer gets every event once, in order, right way round",
 "An event triggered on a port is delivered exactly once to every component connected to the other side of that port at that time, to no one else, and never back to the triggering side; events of one sender arrive in trigger order on each connection. Indications only travel from provider to requirer and requests only from requirer to provider. After a connection is removed, or one of its ends is dropped, no further events pass over it and all other connections are unaffected.",
 ["histories", "schedules", "programs"],
 "all histories of connect/disconnect/trigger over any bipartite graph of providers and requirers",
 "The tests use one provider with one or two requirers and a fixed order of operations.",
 ["core/src/ports.rs", "core/src/runtime/system.rs", "core/src/utils/mod.rs", "macros/component-definition-derive/src/lib.rs"],
 [("channel lists in the port, FIFO event queue per port", "core/src/ports.rs"), ("generated port execution", "macros/component-definition-derive")],
 [("channel list", "connected opposite ports", "core/src/ports.rs CommonPortData")],
 ["port handlers", "trigger"])

prop("C09", "Batches are bounded, control comes first, ports are served fairly, idle is idle",
 "One execution of a component handles at most the configured number of events and at most the configured share of messages before other event kinds get their turn. Pending lifecycle commands are handled before any user event, and when several of its ports hold events they are served in turn, so that none starves. When nothing is queued for it any more, a component is no longer scheduled.",
 ["configurations", "histories", "programs"],
 "all throughput and priority settings, all mixes of messages, timeouts and events on several ports queued at the start of an execution",
 "One test uses throughput 2 with a single mix; starvation and idle spinning are invisible to tests that only wait for results.",
 ["core/src/component/actual_component.rs", "core/src/component/definition.rs", "macros/component-definition-derive/src/lib.rs", "core/src/runtime/config.rs"],
 [("max_events/max_messages counters and skip index", "core/src/component/actual_component.rs execute; macros/component-definition-derive"), ("decrement_work decides on rescheduling", "core/src/component/core.rs")],
 [], ["sequence of handlers per execution", "scheduling decision of each execution"])

prop("C10", "Timers fire once, not early, in order, and never after a cancellation",
 "A one-shot timeout is handled exactly once and not before its delay has passed; a periodic one is handled once per elapsed period until it is cancelled. Timeouts are handled in the order of their due times. Once a component has cancelled a timeout its handler never runs again, even if it was already due or queued, and cancelling one timeout affects no other and no other work of the component.",
 ["histories", "schedules", "programs"],
 "all histories of scheduling, cancelling, time advancing, and stopping/starting the component, with ties in due times and cancellations from inside timeout handlers",
 "The tests schedule one timer at a time with real time; cancelling between expiry and handling is never produced.",
 ["core/src/timer/timer_manager.rs", "core/src/timer/mod.rs", "core/src/component/context.rs", "core/src/component/actual_component.rs", "core/src/default_components.rs"],
 [("handle table in the component decides on stale queue entries", "core/src/timer/timer_manager.rs")],
 [("timers/handles", "registered actions of a component", "core/src/timer/timer_manager.rs")],
 ["timeout handlers", "manual timer"])

prop("C11", "Ask: the one reply reaches its asker; a lost reply is an error, not silence",
 "A reply to a request completes the requester's future with exactly that value, once, independent of which component or thread replies and whether the request was forwarded. If the promise is dropped without a reply, e.g. because the component asked was terminated or failed, the future completes with an error rather than staying pending. Replies to different requests are never mixed up. Every way of waiting for a future (blocking, with a timeout, polling it as a Rust future, or collecting several) tells the same outcome; a collection fails if one of its futures does and otherwise has all results in the order given; a wait that times out took at least its time, and one whose outcome is there does not wait. A replier whose asker no longer listens is told so.",
 ["schedules", "histories", "fault_sequences"],
 "all orders of asking, forwarding, replying, dropping, and terminating the asked component; all ways of resolving a promise and of waiting for one or several, before, during and after its resolution",
 "The tests reply immediately from a live component.",
 ["core/src/utils/ask.rs", "core/src/utils/mod.rs", "core/src/actors/refs.rs", "core/src/component/actual_component.rs"],
 [("promise/future pair carried in the message", "core/src/utils/mod.rs promise; core/src/utils/ask.rs")],
 [], ["future readiness and value"])

prop("C12", "Actor paths resolve to what is registered, and only to that",
 "A message sent to a path, named or unique, is delivered to the component registered under exactly that path at that time, and otherwise handed to the dead letter box exactly once. Registering a name that is taken fails without changing anything unless an update was asked for, in which case later messages go to the new component; the answer to a registration request tells which of the two happened. A registration is visible to every message sent after its confirmation.",
 ["histories", "schedules", "inputs"],
 "all histories of registrations, updates, terminations and sends over a tree of names, from any number of components",
 "The tests register a few names one after the other and check the result of the call, not where messages go afterwards.",
 ["core/src/default_components.rs", "core/src/dispatch/lookup/mod.rs", "core/src/dispatch/lookup/gc.rs", "core/src/runtime/system.rs", "core/src/messaging/registration.rs", "network/src/dispatcher.rs"],
 [("copy-on-write lookup table updated by the dispatcher", "core/src/dispatch/lookup/mod.rs ActorStore")],
 [("lookup table", "name tree and uuid map", "core/src/dispatch/lookup/mod.rs")],
 ["network actor handlers", "registration futures", "dead letter box"])

prop("C13", "Routing: broadcast reaches every member, selection exactly one, consistently",
 "A message to a broadcast path reaches every component currently registered below that path, exactly once for each of its registrations there, and nothing else; a message to a selection path reaches exactly one of them. Round-robin selection over a fixed set of n members, with no registration in progress, reaches each member exactly once in any n consecutive messages, and hash-based selection always picks the same member for the same sender or message. A route without members delivers to the dead letter box and never harms the system.",
 ["histories", "inputs", "configurations"],
 "all name trees, all routing policies set at any level, all membership changes between messages, including the empty set",
 "The tests use one fixed group of three and check totals.",
 ["core/src/routing/groups.rs", "core/src/dispatch/lookup/mod.rs", "core/src/default_components.rs", "core/src/runtime/system.rs"],
 [("routing policies over the sub-tree of the lookup table", "core/src/dispatch/lookup/mod.rs lookup; core/src/routing/groups.rs")],
 [], ["network actor handlers of the members", "dead letter box"])

prop("C14", "Actor paths survive text and wire encodings unchanged",
 "Every valid actor path, unique or named, with any transport, IPv4 or IPv6 address and port, is recovered unchanged from its textual form and from its wire form, and distinct paths have distinct encodings. Parsing a text or bytes that encode no valid path yields an error, never a crash and never a different path. Names that could be confused with path syntax cannot become part of a path.",
 ["inputs"],
 "all paths: transports x address families x ports x unique/named with any segments; all near-miss texts and truncated/mutated encodings",
 "The tests round-trip two or three literal IPv4 paths.",
 ["core/src/actors/paths.rs", "core/src/messaging/framing.rs", "core/src/messaging/bitfields.rs", "core/src/serialisation/core.rs"],
 [("FromStr/Display and Serialisable/Deserialiser of paths; segment validation", "core/src/actors/paths.rs, core/src/messaging/framing.rs")],
 [], ["parse/format", "serialise/deserialise"])

prop("C15", "Network messages arrive as the value that was sent, or are refused",
 "A value sent to an actor path arrives equal to what was sent, together with the sender's path, on every way it can travel: within the system or over the network, serialised eagerly, lazily or ahead of time, or forwarded undecoded. Trying to read a message as a type whose serialisation id differs returns the message unchanged so that it can be read as the right type, and a list of alternatives selects the alternative with the matching id. Malformed content yields an error result, not a crash.",
 ["inputs", "programs", "histories"],
 "all serialisable values and sizes, all serialisers, all travel ways, all sequences of failed and successful read attempts",
 "The tests cover a few values per way and hardly any combination of ways.",
 ["core/src/messaging/net_message.rs", "core/src/messaging/serialised.rs", "core/src/messaging/deser_macro.rs", "core/src/serialisation/ser_helpers.rs", "core/src/serialisation/core.rs", "core/src/serialisation/default_serialisers.rs", "core/src/actors/paths_dispatch.rs"],
 [("serialisation ids in the header; try_deserialise checks them", "core/src/messaging/net_message.rs"), ("ser_helpers write headers", "core/src/serialisation/ser_helpers.rs")],
 [], ["try_deserialise result at the receiving actor"])

prop("C16", "Frame decoding does not depend on how the byte stream is cut, nor does it crash",
 "For every sequence of frames and every way of splitting its bytes into reads, decoding yields exactly those frames, in order and unchanged, and nothing else. Bytes that do not form valid frames lead to an error, never to a crash, an endless loop, or invented frames. A decoder that has been given only part of a frame reports that it needs more and loses nothing.",
 ["inputs", "fault_sequences"],
 "all frame sequences (every kind, sizes from empty to many buffers), all splittings, all corruptions of headers and bodies",
 "The tests decode a few frames of similar size with fixed cuts.",
 ["core/src/net/frames.rs", "core/src/net/buffers/decode_buffer.rs", "core/src/net/buffers/chunk_lease.rs", "network/src/transport/network_channel.rs"],
 [("frame head with magic number and length; decode buffer with overflow chaining", "core/src/net/buffers/decode_buffer.rs get_frame")],
 [("decode buffer", "unread bytes and partially read frame", "core/src/net/buffers/decode_buffer.rs")],
 ["decoded frames"])

prop("C17", "Network buffers are never overwritten while in use and are always recovered",
 "Bytes handed out from an encode or decode buffer never change as long as someone holds them, whatever is encoded or decoded later. The pool never hands out a buffer that is in use, never exceeds its configured maximum, and every buffer returned becomes available again once its last holder is gone, also after allocations that failed. Running out of buffers is reported to the caller and does not damage data already written.",
 ["histories", "configurations", "fault_sequences"],
 "all histories of writing, splitting off, holding and dropping leases, swapping and exhaustion, for all small buffer sizes and pool limits",
 "The tests exhaust a pool once and do not keep leases across reuse.",
 ["core/src/net/buffers/mod.rs", "core/src/net/buffers/buffer_pool.rs", "core/src/net/buffers/encode_buffer.rs", "core/src/net/buffers/chunk_lease.rs", "core/src/net/buffers/chunk_ref.rs", "core/src/net/buffers/decode_buffer.rs"],
 [("lock count of a chunk decides whether it is free", "core/src/net/buffers/mod.rs BufferChunk"), ("pool and returned list", "core/src/net/buffers/buffer_pool.rs")],
 [("pool", "free and returned chunks, chunks allocated", "core/src/net/buffers/buffer_pool.rs")],
 ["contents of leases", "success/failure of encodings"])

prop("C18", "Network sessions: in order, no duplicates, no gaps within a session",
 "Messages from one component to a component in another process arrive in the order sent, without duplicates, intact, and without gaps as long as the session between the two systems lasts. Both ends of a session agree on its identity, every message carries the session it came over, and a new session starts only after the old one has been reported lost or closed. Losing the connection at any point loses at most messages in flight and never corrupts or invents one.",
 ["schedules", "fault_sequences", "histories"],
 "all interleavings of sends with connection loss, reconnect, partial writes, graceful close and simultaneous connects between two or more systems",
 "The tests run a few dozen pings over a healthy loopback connection, and one or two reconnects at quiet moments.",
 ["network/src/dispatcher.rs", "network/src/transport/mod.rs", "network/src/transport/network_thread.rs", "network/src/transport/network_channel.rs", "network/src/queue_manager.rs"],
 [("outbound queue per channel, rejected frames put back in front", "network/src/queue_manager.rs"), ("handshake exchanging session ids", "network/src/transport/network_channel.rs")],
 [("connections", "per peer state", "network/src/dispatcher.rs")],
 ["received messages with session ids", "network status events"])

prop("C19", "Connections: one channel per peer, honest status events, bounded retries",
 "However often and from whichever side connections between two systems are opened, at most one of them ends up carrying messages, and if both stay up one does. The reported connection events of one peer alternate between established and ended (an established session ends with exactly one of lost, closed, dropped or blocked), and match what happened; a frame that is malformed or out of turn ends at most the connection it came over; a peer that cannot be reached is retried a configured number of times and then reported as dropped, with its queued messages discarded. A graceful close delivers what was sent before it.",
 ["schedules", "fault_sequences", "configurations"],
 "all orders of connect, accept, handshake messages, connection resets, close requests and shutdown for two systems and one scripted peer",
 "The tests observe one clean close, one loss and one retry sequence; simultaneous connects are only met by luck.",
 ["network/src/transport/network_thread.rs", "network/src/transport/network_channel.rs", "network/src/dispatcher.rs", "network/src/events.rs"],
 [("tie break on session ids when a second channel to the same system starts", "network/src/transport/network_thread.rs handle_start"), ("retry map", "network/src/dispatcher.rs")],
 [("channel state", "requested/initialising/initialised/connected/closed", "network/src/transport/network_channel.rs")],
 ["network status port", "frames on the wire"])

prop("C20", "Block and allow lists and connection limits are honoured",
 "Whether a peer may connect is decided by the commands given so far: the latest command that covers the peer's address wins, with an explicitly allowed peer not affected by a command for its wider address range, as documented. No message passes over a connection to or from a blocked peer in either direction until it is allowed again, and others are unaffected (datagrams are not subject to blocking). The configured limits on open connections are kept: above the soft limit idle connections are closed gracefully, at the hard limit new ones are refused, and never is a limit exceeded for good.",
 ["histories", "configurations"],
 "all histories of block/allow commands over addresses, addresses with ports and address ranges; all numbers of peers around the limits",
 "The tests issue one block and one allow command per kind.",
 ["network/src/transport/network_thread.rs", "network/src/transport/mod.rs", "network/src/dispatcher.rs", "network/src/events.rs"],
 [("allow and block sets consulted on accept and connect", "network/src/transport/network_thread.rs / block list")],
 [("block list", "blocked and allowed addresses", "network/src/transport/mod.rs")],
 ["connection attempts", "network status port"])

prop("C21", "Weak, strong and typed references: same delivery, silent after termination",
 "A weak reference delivers messages exactly like a strong one as long as the component is alive, and silently drops them afterwards. A typed recipient reference transforms and delivers each message exactly once to the component it was made from. Comparing and hashing references is consistent: two references are equal exactly if they designate the same component.",
 ["histories", "programs"],
 "all mixes of strong, weak, recipient and held references over living and terminated components",
 "The tests never send through references to terminated components.",
 ["core/src/actors/refs.rs", "core/src/component/mod.rs"],
 [("weak container upgraded at each send", "core/src/actors/refs.rs"), ("component id equality", "core/src/actors/refs.rs")],
 [], ["handler entry", "==, hash"])

prop("C22", "Configuration: the last writer wins and values come back as typed",
 "A configuration value set in code, loaded from a file or from a text is returned by the reader for its key in the type the reader asks for, later sources overriding earlier ones and keys not set falling back to the documented default. A value that is missing, of the wrong type or outside the permitted range is reported as an error or replaced by the default where that is documented, and never silently turned into another value. Unrelated keys are unaffected.",
 ["inputs", "configurations"],
 "all orders of sources, all keys and value kinds including sizes, durations and malformed texts",
 "The tests read a handful of literal values per kind.",
 ["core/src/config/mod.rs", "core/src/config/converters_for_config_values.rs", "core/src/config/converters_for_other_types.rs", "core/src/runtime/config.rs"],
 [("merge of sources in order; converters", "core/src/config/mod.rs, core/src/runtime/config.rs")],
 [], ["config readers"])

prop("C23", "Datagrams stand alone: each message over UDP arrives intact, or not at all",
 "A datagram holding one well-formed message that reaches a system's socket is delivered exactly once, intact, with its sender's path and without a session, to the component its destination designates, or else to the dead letter box, whatever other datagrams arrived before, with or after it. A datagram that is empty, truncated, malformed or no message is dropped, never crashes the system and never affects another datagram or connection. A message sent with the UDP transport leaves as exactly one datagram, in its wire form; one that cannot be sent (too large, no such address) is dropped and holds up no other. Datagrams which cannot be read for lack of buffers are read once buffers are free again.",
 ["inputs", "histories"],
 "all sequences of datagrams of any content, and of messages of any size to any address",
 "The tests send a handful of well-formed messages between two systems.",
 ["network/src/transport/udp_state.rs", "network/src/transport/network_thread.rs", "network/src/dispatcher.rs", "core/src/net/buffers/decode_buffer.rs"],
 [("one frame decoded per datagram, nothing left over", "network/src/transport/udp_state.rs try_read/decode_message"), ("outgoing queue", "network/src/transport/udp_state.rs try_write")],
 [("input buffer", "bytes of the datagram being decoded", "network/src/transport/udp_state.rs"), ("outbound queue", "messages the socket did not take yet", "network/src/transport/udp_state.rs")],
 ["network actor handlers", "datagrams at a raw socket"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
