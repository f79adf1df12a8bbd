#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept as a script so that the statements are easy to review and edit."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Device state history always follows the documented state graph",
 "For any interleaving of transition requests from any number of threads (including from state-change callbacks), the sequence of states announced to every subscriber is a path of the documented state graph starting at Idle: every announced state is entered from the previous one by exactly one accepted request, in the order of acceptance, and nothing is announced twice or skipped. A request that reports success causes exactly one state change (unless an error request overtakes it), a request that reports failure causes none, and a request that is legal in the current state with nothing pending is never refused. The queried current state and the pending flag agree with that history.",
 ["schedules", "histories"],
 "all interleavings of up to N requesting threads, the worker thread and subscriber callbacks; all request sequences",
 "the state-machine tests issue one fixed request sequence from one thread; a bug needs a particular interleaving of requesters with the worker loop",
 ["fairmq/StateMachine.cxx", "fairmq/StateMachine.h", "fairmq/States.cxx", "fairmq/Device.cxx"],
 [("single mutex around request processing and pending flag", "fairmq/StateMachine.cxx:ChangeState/ProcessWork"), ("MSM transition table", "fairmq/StateMachine.cxx:transition_table")],
 [("fState", "current state", "fairmq/StateMachine.cxx"), ("fNewStatePending", "an accepted request has not been taken over yet", "fairmq/StateMachine.cxx")],
 ["SubscribeToStateChange callbacks", "SubscribeToNewTransition callbacks", "ChangeState return value", "GetCurrentState", "NewStatePending"])

prop("C02", "An accepted transition or error request is always carried out",
 "An accepted transition request is eventually taken over by the state machine and every thread waiting for a pending state (with or without a timeout) wakes up for it; a timed wait without a request returns false, no earlier than its timeout. An error request is accepted in every non-error situation, at any moment, leads to the Error state, makes state processing end with an error to its caller, and from then on no other state is ever entered. An exception thrown by any state handler or subscriber during state processing leads to the Error state in the same way.",
 ["schedules", "fault_sequences"],
 "all interleavings of requesters, waiters and the worker; error requests and handler exceptions injected at every point",
 "tests exercise an error in each handler once, with no concurrent requests; a lost wake-up or a swallowed error needs a particular schedule",
 ["fairmq/StateMachine.cxx", "fairmq/StateMachine.h", "fairmq/tools/Exceptions.h"],
 [("condition variable with pending predicate", "fairmq/StateMachine.cxx:DefaultFct/WaitForPendingState"), ("call-on-destruction guard", "fairmq/StateMachine.cxx:StateMachine::ProcessWork")],
 [("fNewStatePendingCV", "wakes worker and waiters", "fairmq/StateMachine.cxx")],
 ["return of WaitForPendingState(For)", "exception out of ProcessWork", "state-change callbacks"])

prop("C03", "A requested transition interrupts every blocked transfer in bounded time",
 "While a device is in its running state and user code is blocked in a send, receive, or timed device wait, with any timeout, on either transport, a successfully requested transition makes the call return within a bounded time, with the interrupted code unless the transfer itself completed or timed out. This holds wherever the request falls relative to entering the state and to entering the blocking call. Once the next state needing transfers is entered, transfers work again.",
 ["schedules", "fault_sequences"],
 "all placements of the transition request relative to state entry, call entry and message arrival; both transports; random network delay",
 "tests interrupt one receive after a fixed 100 ms sleep; the lost-interrupt window is a few instructions wide",
 ["fairmq/Device.cxx", "fairmq/StateMachine.cxx", "fairmq/shmem/Manager.h", "fairmq/shmem/Socket.h", "fairmq/zeromq/Socket.h", "fairmq/zeromq/Context.h"],
 [("interrupt on new transition, resume on state preparation", "fairmq/Device.cxx"), ("100 ms poll slices with interrupt check", "fairmq/shmem/Socket.h, fairmq/zeromq/Socket.h, fairmq/zeromq/Common.h")],
 [("fInterrupted", "transport interrupted flag", "fairmq/shmem/Manager.h, fairmq/zeromq/Context.h")],
 ["Channel Send/Receive return value and virtual time", "Device::WaitFor"])

prop("C04", "State observers see every state change once, in order",
 "A device's user waiting for states (next state, or a particular state) obtains the state changes in exactly the order in which they happened, each once, none lost and none invented, no matter how the waiting thread is scheduled relative to the changes. Waiting for a particular state returns once that state was reached, a bounded wait without a change reports a timeout no earlier than its duration, and waiting for another state while the device goes into Error reports the error instead of blocking.",
 ["schedules", "histories"],
 "all interleavings of a waiting controller, additional subscribers and the device thread",
 "tests wait from one thread in lock-step with the device",
 ["fairmq/StateQueue.h", "fairmq/Device.h", "fairmq/Device.cxx"],
 [("mutex + condition variable around a queue", "fairmq/StateQueue.h")],
 [("fStates", "pending observed states", "fairmq/StateQueue.h")],
 ["Device::WaitForState/WaitForNextState", "StateQueue::WaitForNext/WaitForNextFor/WaitForState"])

prop("C05", "Device life cycle runs each handler once, in order, in every cycle",
 "Driving a device through its life cycle, any number of times and with requests arriving at any moment, runs each user handler exactly once per entry of its state, in the documented order, on the thread that runs the device; stopping during running ends the run handlers (including pre- and post-run) before Ready is entered. Each device initialisation starts with freshly usable channels, every cycle can be repeated, and End from Idle makes the device's run call return. An exception in any user handler puts the device into Error, announces it to all subscribers and surfaces from the run call instead of hanging or terminating the process.",
 ["schedules", "histories", "fault_sequences"],
 "all life-cycle request sequences and request timings; exceptions injected in any handler",
 "tests do one cycle with fixed timing",
 ["fairmq/Device.cxx", "fairmq/Device.h", "fairmq/StateMachine.cxx"],
 [("state handler wrappers", "fairmq/Device.cxx:InitWrapper...ResetWrapper")],
 [], ["overridden user handlers", "state-change subscribers", "RunStateMachine return/exception"])

prop("C06", "Channels bind and connect whatever the start order of the devices",
 "Devices whose channels address each other get all their channels bound and connected regardless of start order, delays and temporary failures of bind or connect attempts, as long as the needed address information arrives before the initialisation timeout; otherwise initialisation fails with an error, no earlier than the timeout and within a bounded time after it. A channel bound with automatic port selection gets an address inside its configured port range that no other channel uses, and publishes exactly that address in the configuration, so that a peer using the published address exchanges messages with it; the published list of a channel with several endpoints keeps their order and direction. The reported number of connected peers arrives at the number of connections.",
 ["schedules", "fault_sequences", "configurations"],
 "start orders, delays, ports in use, addresses supplied late by another thread",
 "tests bind fixed ipc/inproc addresses in fixed order",
 ["fairmq/Device.cxx", "fairmq/Channel.cxx"],
 [("ConnectWrapper/BindWrapper attach loops", "fairmq/Device.cxx"), ("autobind port search", "fairmq/Device.cxx:BindEndpoint"), ("blocking on missing address with condition variable", "fairmq/Device.cxx:InitWrapper")],
 [], ["device state", "configuration property of the channel address", "message exchange"])

prop("C07", "Messages arrive intact, complete, once and in order on every transport",
 "On each transport (zeromq and shared memory), every message whose send succeeded on a push/pull, pair or request/reply channel is received exactly once by one peer that keeps receiving, byte-for-byte and size-identical, in the order sent on that connection; nothing else is received. A multipart message arrives with all its parts in order or not at all, never mixed with parts of other messages. This holds for any sizes (including empty), part counts, queue limits, delays, message copies and size reductions before sending, with sender and receivers in different processes. A message created or (on zeromq) received into with an alignment has its data aligned so. Both ends use the matching call (single messages or multipart); messages sent while the peer is still retrying its initial attach are excluded.",
 ["schedules", "inputs", "fault_sequences"],
 "message sizes, part counts, high-water marks, network delays, interruptions with retry, thread interleavings",
 "protocol tests send a handful of messages with no queue pressure, interruption or delay",
 ["fairmq/shmem/Socket.h", "fairmq/shmem/Message.h", "fairmq/shmem/Manager.h", "fairmq/zeromq/Socket.h", "fairmq/zeromq/Message.h", "fairmq/zeromq/ZMsg.h", "fairmq/Channel.cxx", "fairmq/Parts.h"],
 [("meta-header frames referring to shared memory buffers", "fairmq/shmem/Socket.h"), ("zmq frames", "fairmq/zeromq/Socket.h")],
 [], ["Channel::Send/Receive"])

prop("C08", "Transfers honour timeouts, return codes and ownership on failure",
 "A send or receive with a non-negative timeout that cannot proceed returns the timeout code no earlier than that timeout and no later than the timeout plus a small bounded delay, a timeout of zero never waits, and a negative timeout waits until the transfer is possible or interrupted; system-call interruptions do not change this. A successful transfer returns the number of bytes transferred. After a failed or interrupted send the caller still owns the message(s), unchanged, and sending them again delivers them once; after a failed receive no message is lost.",
 ["schedules", "fault_sequences", "inputs"],
 "timeouts, queue states, arrival times relative to the deadline, spurious EINTR, interrupts",
 "one test checks one timeout value per transport with real clocks",
 ["fairmq/shmem/Socket.h", "fairmq/zeromq/Socket.h", "fairmq/zeromq/Common.h"],
 [("ShouldRetry/timeout accounting", "fairmq/zeromq/Common.h")],
 [], ["Channel::Send/Receive return value and virtual clock"])

prop("C09", "Shared memory buffers are released exactly once, after their last reference",
 "A shared memory message buffer stays allocated and unchanged while any message, copy or in-flight transfer in any process refers to it, and is returned to the segment exactly once when the last of them is gone; when all messages of a session are gone, the free memory of every segment is back at its initial value. This holds for messages created, copied, moved, rebuilt, shrunk, sent, received into used messages, failed to send, and dropped, in any combination on any threads.",
 ["schedules", "histories"],
 "all histories of message operations on several threads/processes",
 "tests create and copy one or two messages on one thread",
 ["fairmq/shmem/Message.h", "fairmq/shmem/Manager.h", "fairmq/shmem/Socket.h", "fairmq/shmem/Common.h"],
 [("atomic reference count in front of the buffer", "fairmq/shmem/Message.h / Segment header"), ("queued flag transfers ownership to the receiver", "fairmq/shmem/Message.h")],
 [], ["segment free memory (Monitor / transport factory)", "buffer contents"])

prop("C10", "Every unmanaged region block is acknowledged exactly once after last use",
 "For every message created on a user-provided (unmanaged) memory region, the region's callback reports exactly that block (address, size and hint) exactly once, not before the last copy of the message in any process is gone and without waiting for unrelated later traffic; a region never reports a block that was not sent. All blocks released in the owner's process before the region is destroyed, and those released in other processes at least one acknowledgement interval (about 0.5 s) before, are reported before its destruction completes, and none afterwards. This holds on both transports, for single and bulk callbacks.",
 ["schedules", "histories", "fault_sequences"],
 "interleavings of message release, acknowledgement queue fill level, region destruction; cross-process receivers",
 "region tests send a fixed number of blocks from one sender to one receiver with no queue pressure",
 ["fairmq/shmem/UnmanagedRegion.h", "fairmq/shmem/Manager.h", "fairmq/shmem/Message.h", "fairmq/zeromq/Message.h", "fairmq/zeromq/UnmanagedRegion.h"],
 [("batched acknowledgement sender and receiver threads over a shared queue", "fairmq/shmem/UnmanagedRegion.h")],
 [("fBlocksToFree", "released blocks to be reported", "fairmq/shmem/UnmanagedRegion.h")],
 ["RegionCallback/RegionBulkCallback invocations"])

prop("C11", "Region event subscribers see each creation and destruction once, in order",
 "A subscriber to region events is told of every region (including the managed segments) that exists when it subscribes or appears later while subscribed, exactly once, with identity, size, flags and a pointer through which that region's memory is accessible, and of every destruction of a region it was told about, exactly once and after its creation; no event is delivered after unsubscribing returned. (A later subscription of the same transport instance continues where the earlier one ended; a region that exists only between two looks of a subscriber may go unnoticed; regions kept on purpose are not destroyed.) This holds for regions created and destroyed concurrently by any device of the session.",
 ["schedules", "histories"],
 "interleavings of subscribe/unsubscribe with region creation/destruction in several processes",
 "tests subscribe once, before or after two creations, in one process",
 ["fairmq/shmem/Manager.h", "fairmq/zeromq/Context.h", "fairmq/UnmanagedRegion.h"],
 [("shared event counter with condition variable; per-process event map", "fairmq/shmem/Manager.h"), ("region info queue", "fairmq/zeromq/Context.h")],
 [], ["SubscribeToRegionEvents callback"])

prop("C12", "Allocation under shared memory exhaustion waits, retries or fails cleanly",
 "When the shared memory segment is exhausted, creating a message retries as configured: with a limited number of attempts it fails with the documented allocation error after that many attempts and not before the configured intervals have elapsed, with unlimited attempts it keeps waiting and succeeds once memory is freed by anybody, and a transition request (transport interruption) ends the waiting with the documented error within one interval. A size that can never fit fails at once. A failed allocation leaks no memory and corrupts no other message.",
 ["schedules", "fault_sequences", "configurations"],
 "fill levels, attempts/interval configuration, timing of frees and interrupts",
 "no existing test fills a segment",
 ["fairmq/shmem/Manager.h", "fairmq/shmem/Message.h"],
 [("bad-alloc retry loop", "fairmq/shmem/Manager.h:Allocate")],
 [], ["NewMessage result/exception and virtual clock", "segment free memory"])

prop("C13", "A shared memory session is shared by its members and removed by the last one",
 "All devices of a session that are alive at the same time share the same segments, so messages can be exchanged between any two of them, and none of the session's shared memory objects disappears while one of them is alive. When the last device of a session leaves in an orderly way, all shared memory objects of the session are removed. This holds for devices starting and leaving concurrently in any interleaving, and a later start with the same session name gets a fresh working session. A failed creation of a region leaves nothing behind and can be repeated; a single failing system call while a device starts leaves at most an incomplete management segment, which the cleanup tool removes. With cleanup disabled the objects stay.",
 ["schedules", "crash_points", "histories"],
 "interleavings of transport creation and destruction in several processes; failing shared memory system calls during start",
 "tests start devices one after another in one process",
 ["fairmq/shmem/Manager.h", "fairmq/shmem/Monitor.cxx", "fairmq/shmem/Common.h"],
 [("device counter in the management segment under an inter-process mutex", "fairmq/shmem/Manager.h")],
 [("DeviceCounter", "live devices of the session", "fairmq/shmem/Common.h")],
 ["names of shared memory objects of the session", "message exchange"])

prop("C14", "The shared memory monitor cleans up dead sessions and never live ones",
 "A monitor attached to a session removes all shared memory objects of that session within a bounded time (heartbeat timeout plus a few check intervals) once all its devices have crashed, at whatever point after their first heartbeat they crashed, including files backing regions. It never removes or damages anything while a device of the session is alive and sending heartbeats, whatever the wall clock does, and never touches other sessions. At most one monitor per session is active; a monitor asked to end after the session terminates does so.",
 ["schedules", "crash_points", "fault_sequences"],
 "crash points of the devices, monitor start times, stalls shorter than the timeout, wall-clock jumps",
 "no existing test crashes a device; heartbeat timing is real time",
 ["fairmq/shmem/Monitor.cxx", "fairmq/shmem/Monitor.h", "fairmq/shmem/Manager.h"],
 [("heartbeat counter in shared memory, timeout in the monitor loop", "fairmq/shmem/Monitor.cxx")],
 [], ["names of shared memory objects", "monitor return"])

prop("C15", "The configuration store is atomic and consistent under concurrent use",
 "Concurrent reads, writes, conditional updates, bulk updates and deletions of configuration properties, by any threads, behave as if executed one at a time in some order consistent with real time: a read returns a value that was current during the read, a conditional update changes the value exactly if the key existed, and a bulk update is applied and observed entirely or not at all. Different views of one property (typed, as string, by prefix or pattern) agree.",
 ["schedules", "histories"],
 "interleavings of N threads doing M operations on few keys; checked against a sequential map model",
 "configuration tests are single threaded",
 ["fairmq/ProgOptions.cxx", "fairmq/ProgOptions.h", "fairmq/PluginServices.h"],
 [("mutex around the variables map", "fairmq/ProgOptions.h")],
 [("fVarMap", "property values", "fairmq/ProgOptions.h")],
 ["return values of the property API"])

prop("C16", "Every property change is notified to every subscriber",
 "Every successful property change through the configuration API is notified exactly once to each subscriber of matching type and to each string subscriber that is subscribed for the whole duration of the change, with that key and the value written; an unsuccessful update notifies nobody. No change that begins after an unsubscription has returned notifies it. Setting properties never fails or blocks because of concurrent changes, deletions or (un)subscriptions, and callbacks may themselves read and write properties.",
 ["schedules", "histories"],
 "interleavings of writers, deleters, subscribers; callbacks re-entering the API",
 "tests set properties from one thread with one subscriber",
 ["fairmq/ProgOptions.cxx", "fairmq/ProgOptions.h", "fairmq/EventManager.h"],
 [("emit after unlocking", "fairmq/ProgOptions.h:SetProperty...")],
 [], ["SubscribeToPropertyChange(AsString) callbacks"])

prop("C17", "The event manager delivers each event to its current subscribers only",
 "Emitting an event calls every callback subscribed for that event type and key for the whole duration of the emission exactly once with the emitted arguments, and calls no callback subscribed for something else or whose unsubscription had returned before the emission began. Re-subscribing the same subscriber replaces its previous callback. Any number of threads may subscribe, unsubscribe and emit concurrently, including from inside callbacks, without lost subscriptions, deadlock or crash.",
 ["schedules", "histories"],
 "interleavings of subscribe/unsubscribe/emit on several threads and re-entrant use",
 "the existing test is single threaded",
 ["fairmq/EventManager.h", "fairmq/EventManager.cxx"],
 [("signal map under a mutex; signals2 slots", "fairmq/EventManager.h")],
 [("fSignals", "signal per (event,type) key", "fairmq/EventManager.h")],
 ["callback invocations"])

prop("C18", "At most one plugin controls the device, and control can always be handed over",
 "At any time at most one controller holds device control: taking control succeeds exactly if nobody else holds it, a state change requested by anyone but the controller is refused without effect, and control taken away by stealing is lost for the previous holder. Releasing control by the holder frees it, wakes everyone waiting for the release, and a waiter that keeps retrying obtains it; these rules hold for any number of plugins acting concurrently.",
 ["schedules", "histories"],
 "interleavings of take/steal/release/change/wait by N plugins; checked against a sequential model",
 "plugin-services tests use two controllers from one thread",
 ["fairmq/PluginServices.cxx", "fairmq/PluginServices.h"],
 [("mutex around controller id, condition variable for release", "fairmq/PluginServices.cxx")],
 [("fDeviceController", "current controller", "fairmq/PluginServices.h")],
 ["exceptions/results of the device control API", "device state"])

prop("C19", "A controlled device always starts, stops and shuts down gracefully",
 "A device run under the built-in control plugin (static or interactive) reaches its running state when driven to, and on a termination signal, an interactive quit, or the end of its run method, arriving at any moment of its life, goes through a legal sequence of states back to Idle and Exiting in bounded time, with nothing left running and without any transition that was not asked for (only a second interrupt signal aborts on purpose). If the device runs into the Error state at any moment, the control ends as well in bounded time instead of hanging.",
 ["schedules", "fault_sequences", "crash_points"],
 "arrival times of signals and key presses relative to every state and step of the start-up and shutdown sequences; handler exceptions",
 "the signal tests send one signal after a fixed two-second delay with real processes",
 ["fairmq/plugins/control/Control.cxx", "fairmq/plugins/control/Control.h", "fairmq/PluginServices.cxx", "fairmq/DeviceRunner.cxx", "fairmq/Device.cxx"],
 [("start-up/shutdown sequences over a state queue; signal thread", "fairmq/plugins/control/Control.cxx")],
 [], ["device state history", "return of the plugin and of the device run call"])

prop("C20", "Data callbacks get every received message exactly once and never overlap",
 "With registered data callbacks, every message arriving on a registered channel while the device is running is handed to exactly the callback of that channel, exactly once, with the right subchannel index, in order per subchannel; callbacks of one device never run concurrently with each other, whether its channels share one transport or use several. The device stays running until a callback returns false or a transition is requested, and then leaves running in bounded time: after a callback returned false no further callback is invoked, after a transition request at most the current round of ready messages is finished, and messages not handed out are not lost.",
 ["schedules", "inputs", "fault_sequences"],
 "message arrival patterns over channels/subchannels/transports, stop times",
 "no existing test covers multiple input channels or transports with callbacks",
 ["fairmq/Device.cxx", "fairmq/Device.h"],
 [("poll loops per transport and a mutex around callbacks", "fairmq/Device.cxx:HandleSingleChannelInput/HandleMultipleChannelInput/PollForTransport")],
 [], ["OnData callbacks", "device state"])

prop("C21", "A poller reports exactly the ready channels and never waits too long",
 "After a poll, a channel is reported readable only if a message is waiting on it and writable only if a send would proceed, and a channel that was ready for the whole duration of the poll is reported; a receive or send following a positive report succeeds without waiting when nobody else uses that channel. A poll returns as soon as one of its channels is ready, and otherwise no earlier than its timeout and within a bounded time after it.",
 ["schedules", "inputs"],
 "arrival times, several channels, both transports, timeouts",
 "the poller tests check one readable subchannel",
 ["fairmq/shmem/Poller.h", "fairmq/zeromq/Poller.h"],
 [("zmq poll items per channel with name->offset map", "fairmq/shmem/Poller.h, fairmq/zeromq/Poller.h")],
 [], ["Poller CheckInput/CheckOutput and following transfers"])

prop("C22", "The stock proxy, splitter, merger and multiplier devices conserve messages",
 "While the stock forwarding devices run, every message received from their inputs is forwarded unchanged and exactly once (for the multiplier: exactly once to every output; for the splitter: to its outputs in strict rotation), in order per input, for single- and multi-part payloads. They stop in bounded time when asked at any moment, and nothing is forwarded twice or altered across stop and restart; only messages already taken in when the stop interrupts a blocked forwarding (at most one per input) may be lost.",
 ["schedules", "inputs", "configurations"],
 "input counts, output counts, multipart or not, transports, stop times",
 "the stock devices have no tests with content checks",
 ["fairmq/devices/Proxy.h", "fairmq/devices/Splitter.h", "fairmq/devices/Merger.h", "fairmq/devices/Multiplier.h"],
 [("forwarding loops", "fairmq/devices/*.h")],
 [], ["messages at the peers' channels"])

prop("C23", "Semaphores never lose or invent a signal",
 "For any interleaving of waiting and signalling threads, the number of completed waits never exceeds the initial count plus the number of signals, a waiting thread is released whenever the count allows it, and when all threads have finished the reported count is the initial count plus signals minus completed waits. Copies of a shared semaphore act on one count.",
 ["schedules"],
 "interleavings of N waiters and M signallers, spurious wake-ups",
 "the semaphore is only used incidentally by tests",
 ["fairmq/tools/Semaphore.cxx", "fairmq/tools/Semaphore.h"],
 [("mutex + condition variable", "fairmq/tools/Semaphore.cxx")],
 [("fCount", "available signals", "fairmq/tools/Semaphore.h")],
 ["return of Wait", "GetCount"])

prop("C24", "The rate limiter holds the requested rate",
 "A loop that does less work per iteration than the requested rate allows settles at the requested rate within a few percent, measured over a long enough window, and after a disturbance (a stall, a slower or faster phase) returns to it within a bounded time; a loop that cannot reach the requested rate is not slowed down by more than a small factor. A rate of zero or less never makes the loop sleep noticeably.",
 ["inputs", "fault_sequences"],
 "work times, rates, sleep overshoot, stalls",
 "no test exercises the rate limiter",
 ["fairmq/tools/RateLimit.h"],
 [("feedback controller on measured iteration time", "fairmq/tools/RateLimit.h")],
 [], ["virtual time of loop iterations"])

prop("C25", "Transfer statistics equal what was transferred",
 "The byte and message counters of a channel equal exactly the bytes and messages successfully sent and received on it since it was set up, on both transports, whatever failures, timeouts and interruptions happened in between.",
 ["schedules", "fault_sequences"],
 "mixes of successful, timed out and interrupted single and multipart transfers",
 "no test checks counters under failures",
 ["fairmq/shmem/Socket.h", "fairmq/zeromq/Socket.h", "fairmq/Channel.h"],
 [("atomic counters updated on success", "fairmq/shmem/Socket.h, fairmq/zeromq/Socket.h")],
 [], ["GetBytesTx/Rx, GetMessagesTx/Rx"])

prop("C26", "Command line and channel configuration text is parsed as documented",
 "A channel configuration given as sub-option text or as a JSON document results in exactly the documented channel properties, and malformed input is rejected with an error instead of being partially applied.",
 ["inputs"],
 "all configuration texts",
 "tests cover a few example strings",
 ["fairmq/SuboptParser.cxx", "fairmq/JSONParser.cxx"],
 [("getsubopt-based and property-tree parsers", "fairmq/SuboptParser.cxx, fairmq/JSONParser.cxx")],
 [], ["returned properties"])

prop("C27", "Message part containers and name tables are consistent",
 "A multipart container keeps its parts in insertion order under any sequence of additions and iterations, and state and transition names convert to their enumerators and back without loss.",
 ["inputs"],
 "all operation sequences and names",
 "tests cover examples",
 ["fairmq/Parts.h", "fairmq/States.cxx", "fairmq/Transports.h"],
 [("vector of owning pointers; static tables", "fairmq/Parts.h, fairmq/States.cxx")],
 [], ["container contents", "conversion results"])

prop("C28", "Logged channel rates are the true rates since the previous line",
 "Each rate line logged for a channel of a running device gives the messages and bytes per second received and sent on it since its previous line (or the start of running), whatever interval is configured and however the system clock is set meanwhile. A channel with a logging interval gets one line per interval while the device runs, one without gets none; logging delays neither the end of running nor the reaction to an exception.",
 ["schedules", "configurations", "fault_sequences"],
 "intervals, traffic patterns, stalls, clock steps, times of stop and exceptions",
 "the tests do not read the rate log; a wrong rate needs an interval above one second or a clock step",
 ["fairmq/Device.cxx"],
 [("logger thread next to the run handlers, woken by a pending state", "fairmq/Device.cxx")],
 [], ["log lines with their times"])

prop("C29", "Publish/subscribe channels deliver to every subscriber that keeps up",
 "On publish/subscribe channels (zeromq) every connected subscriber receives each published message at most once, whole, unmixed and unchanged, in the order published, and misses none published after its subscription took effect unless its queue was full. Publishing never waits for a subscriber, always reports the full size, and each buffer is released exactly once after its last receiver.",
 ["schedules", "inputs", "configurations", "fault_sequences"],
 "publishers, subscribers, queue limits, message shapes, slow and late subscribers, delays",
 "the tests send a handful of messages to prompt subscribers",
 ["fairmq/zeromq/Socket.h", "fairmq/zeromq/Poller.h", "fairmq/zeromq/Message.h", "fairmq/Channel.cxx"],
 [("subscription to everything at creation; sending one message object to many queues", "fairmq/zeromq/Socket.h")],
 [], ["received messages per subscriber", "return value and duration of each publish"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
