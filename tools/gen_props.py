#!/usr/bin/env python3
# Writes /verif/properties.jsonl from the list below (kept here so that statements are edited in one place).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    d["anchors"]["hook_needed"] = None
    P.append(d)

CORE = "core/modules/core/include/klepsydra/core/"
MEM = "core/modules/mem_mdlw/include/klepsydra/mem_core/"
HP = "high_performance/modules/high_performance/include/klepsydra/high_performance/"
D4 = HP + "disruptor4cpp/"
SOCK = "core/modules/socket_mdlw/"
SM = "state_machine/modules/state_machine/"
ZMQ = "core/modules/zmq_mdlw/include/klepsydra/zmq_core/"

p("C01", "A pooled object has at most one holder and none is lost",
  "Whatever threads acquire from and return to an object pool (or the lock-free stack under it) concurrently, every object is at any instant either in the pool or held by exactly one acquirer. Nothing is invented, duplicated or lost: after every holder has returned its objects, all of them (capacity many) can be acquired again. An acquire reports exhaustion only if, at some instant during the call, no object was in the pool (a pool of capacity 0 is always exhausted); the pool's count of such refusals (objectPoolFails) is exact.",
  ["schedules", "histories"], "all interleavings of concurrent acquire/release (pop/push) calls on one pool, any capacity up to the documented limit and any number of threads",
  "The lock-free stack tests run a fixed number of real threads for a moment; the windows (between reading the head, its successor and the compare-and-swap) span a few instructions and need a whole pop-push-pop cycle of other threads to fall inside them.",
  [CORE + "lock_free_stack.h", CORE + "smart_object_pool.h"],
  [("tagged head index with compare-and-swap", CORE + "lock_free_stack.h"), ("custom deleter that returns the object to the pool", CORE + "smart_object_pool.h")],
  ["LockFreeStack::push/pop", "SmartObjectPool::acquire and destruction of the returned pointer"])
p("C02", "Pooled objects may outlive the pool and are destroyed exactly once",
  "An object obtained from an object pool stays valid until its holder releases it, even when the pool (or the publisher that owns it) is destroyed before, after or while the object is released by another thread. Every pooled object is destroyed exactly once, the finaliser runs at most once per object and never on an object that is held, and no freed memory is touched; also when the construction of the pool or publisher, or an acquisition or publication, fails half way for lack of memory or because user code throws.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of pool destruction with releases on other threads, and every order of the two",
  "The tests destroy the pool only after every object came back, on one thread.",
  [CORE + "smart_object_pool.h", CORE + "object_pool_publisher.h"],
  [("weak pointer to the pool in the deleter", CORE + "smart_object_pool.h")])
p("C03", "The blocking queue is a linearizable bounded FIFO",
  "Concurrent pushes, pops and queries of the bounded queue, in all their blocking, non-blocking, timed, moving and forcing forms, behave as if each took effect atomically at one instant between call and return on a first-in first-out queue of the configured maximum size. Every element accepted is handed out exactly once, unless a forced push discarded it, and a forced push discards the oldest elements only, only when the queue is full, and reports exactly how many.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of the public operations from several threads, including spurious wake-ups and timeouts that race with pushes",
  "The middleware tests use one producer and one poller and observe a handful of deliveries; they never run timed and blocking pops against each other, nor wake a waiter spuriously.",
  [MEM + "safe_queue.h"],
  [("one mutex and two condition variables", MEM + "safe_queue.h")])
p("C04", "Blocked queue callers always wake up; timed pops honour their timeout",
  "A thread blocked in a push or pop of the bounded queue completes once the operations of other threads make it possible, whatever other threads are blocked at the same time and even when another operation fails because copying its element throws. A timed pop that finds nothing returns false no earlier than its timeout and not unboundedly later, on the machine's monotonic time, and a queue operation never deadlocks with another, including swaps and assignments between two queues.",
  ["schedules", "fault_sequences"], "all schedules with several blocked producers and consumers, spurious wake-ups, late wake-ups and system clock jumps",
  "A lost wake-up shows only when waiter and notifier interleave in one particular way, and then as a hang, which the tests could not attribute; no test uses the timed operations.",
  [MEM + "safe_queue.h"], [("condition variables signalled under the mutex", MEM + "safe_queue.h")])
p("C05", "The ring buffer delivers every event in order, once, and never overwritten",
  "For one or several producers and any number of consumers, every consumer of a ring buffer sees every sequence published after it joined exactly once, in increasing order and with the content the producer wrote before publishing it. No slot is overwritten before every gating consumer has passed it, and a consumer placed behind another one never sees an event before that one is done with it.",
  ["schedules", "histories", "configurations"], "all interleavings of claim/publish by producers with consumers, for every wait strategy, buffer size, batch size and consumer topology",
  "The existing tests check sequence arithmetic on one thread; publication order, wrap-around against a slow consumer and out-of-order publication by several producers only happen under real contention.",
  [D4 + "ring_buffer.h", D4 + "single_producer_sequencer.h", D4 + "multi_producer_sequencer.h", D4 + "sequence_barrier.h", D4 + "batch_event_processor.h"],
  [("cursor and gating sequences", D4 + "multi_producer_sequencer.h"), ("availability flags per slot", D4 + "multi_producer_sequencer.h"), ("barrier over dependent sequences", D4 + "sequence_barrier.h")])
p("C06", "Ring-buffer back-pressure stays exact for the whole life of the stream",
  "At any point of a stream, however many events have passed through it, a non-blocking claim succeeds exactly when the buffer has room for the request given the consumers' progress, and the reported remaining capacity equals the buffer size minus the claimed, unconsumed events. When it has none the claim fails without any side effect, and a blocking claim waits instead.",
  ["histories", "configurations", "schedules"], "all histories of claims and consumption starting at any sequence position, including positions beyond 2^31 and buffers of any power-of-two size, for the single- and the multi-producer form",
  "Tests start at zero and claim a few dozen slots; positions that need days of traffic are never reached.",
  [D4 + "single_producer_sequencer.h", D4 + "multi_producer_sequencer.h", D4 + "utils/util.h"],
  [("has_available_capacity against the gating minimum", D4 + "multi_producer_sequencer.h")])
p("C07", "Every wait strategy wakes for new events, for alerts and on time",
  "A consumer waiting on a sequence barrier returns within a bounded time once the awaited sequence is published (and its upstream consumers have passed it), and never returns a sequence that is not yet available. When the barrier is alerted the waiter leaves with the alert error, and a strategy with a timeout gives up after its timeout on monotonic time, whatever the system clock does.",
  ["schedules", "fault_sequences", "configurations"], "all interleavings of waiter, publisher and alerter, for every wait strategy and barrier topology, with store-buffer delays, spurious wake-ups and wall-clock jumps",
  "The strategy tests start the publisher after the waiter with a sleep; a signal sent between the waiter's check and its sleep, or a store delayed in a store buffer, never happens there.",
  [D4 + "wait_strategies/blocking_wait_strategy.h", D4 + "wait_strategies/lite_blocking_wait_strategy.h", D4 + "wait_strategies/timeout_blocking_wait_strategy.h", D4 + "wait_strategies/phased_backoff_wait_strategy.h", D4 + "wait_strategies/sleeping_wait_strategy.h", D4 + "wait_strategies/yielding_wait_strategy.h", D4 + "wait_strategies/busy_spin_wait_strategy.h", D4 + "sequence_barrier.h"],
  [("condition variable or spinning on the cursor", D4 + "wait_strategies/"), ("alert flag checked while waiting", D4 + "sequence_barrier.h")])
p("C08", "A halted event processor always stops; a throwing handler loses no event",
  "An event processor that is told to halt, at any moment after its run has been observed to begin, leaves its run loop within bounded time, whatever the wait strategy, and a second concurrent run is refused. A handler that throws a standard exception is reported to the exception hook once for that event, and processing goes on with the next event: no event is skipped or handed to the handler twice.",
  ["schedules", "fault_sequences"], "all interleavings of halt with the run loop and with publication, and every placement of handler exceptions and timeouts",
  "Tests halt a processor that has been idle for a long time; halting in the start-up window or between an availability check and the wait never occurs.",
  [D4 + "batch_event_processor.h", D4 + "no_op_event_processor.h"],
  [("running flag, alert on halt", D4 + "batch_event_processor.h")])
p("C09", "The event loop hands every accepted event to every listener once and in order",
  "While an event loop runs, every event that a publisher got accepted is delivered exactly once to each listener registered for its name for the whole time, each publisher's events in the order it published them, one callback at a time on the loop's own thread. An event that is not accepted because the ring is full is never delivered and is counted as discarded exactly once by its publisher; a publication that fails delivers nothing, and the loop lets go of an event once every listener is done with it. Setting up a loop's publishers, subscribers and scheduler can be repeated when it failed for lack of memory, and no memory is needed to tear them down.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of several publishers with the loop thread, ring sizes down to 2, slow or throwing listeners, object pools of any size",
  "The tests publish from one or two threads at a pace the loop can follow and check totals; overflow, contention for the last slot and exceptions are not exercised.",
  [HP + "event_loop.h", HP + "event_loop_publisher.h", HP + "event_loop_event_handler.h", HP + "event_loop_middleware_provider.h", HP + "event_loop_subscriber.h"],
  [("multi-producer ring buffer", HP + "event_loop.h"), ("per-name event emitter", HP + "event_loop_event_handler.h"), ("discard notification", HP + "event_loop_publisher.h")])
p("C10", "Starting, stopping and destroying an event loop always completes",
  "Any sequence of start, stop and destruction of an event loop, from any moment of the loop thread's start-up on and with publishers still active, completes within bounded time once the running callback returns. After stop has returned no callback runs any more, and a stopped loop that is started again delivers the events published from then on.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of start/stop/destroy calls with the loop thread, including slow thread starts and start time-outs",
  "The tests start, wait long enough, and stop.",
  [HP + "event_loop.h", D4 + "batch_event_processor.h"],
  [("halt of the batch processor and thread join", HP + "event_loop.h")])
p("C11", "A data multiplexer listener always works on the newest, unchanging value",
  "Every value a data multiplexer hands to a listener is one that was published, complete, and stays unchanged until the callback returns. Each listener sees values in publication order without repeats, skipping only values for which a newer one was already published, each skipped value counted as discarded in the listener's statistics, and once publishers pause every listener has received the last value accepted. A slow listener neither delays nor starves the others until it is a full buffer behind, when publications are refused and counted as discarded; a publication that fails delivers nothing and leaves the multiplexer usable.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of the publisher with several listeners of different speed, listener removal, and every wrap-around of the ring",
  "Tests use one fast listener and check the final value.",
  [HP + "data_multiplexer_publisher.h", HP + "data_multiplexer_subscriber.h", HP + "data_multiplexer_listener.h", HP + "data_multiplexer_event_handler.h", HP + "data_multiplexer_middleware_provider.h"],
  [("single-producer ring gated by each listener", HP + "data_multiplexer_publisher.h"), ("end-of-batch delivery", HP + "data_multiplexer_event_handler.h")])
p("C12", "The basic in-memory middleware delivers or counts every event, in order",
  "With the poller running, every event published through the basic in-memory middleware reaches each listener registered for its name exactly once, in publication order per publisher, one callback at a time and with the content published, unless the queue discarded it to make room. Each discarded event is counted exactly once, so that deliveries plus counted discards equal the events published, and the discarding mode never blocks the publisher while the blocking mode never discards. In blocking mode a publication that fails for lack of memory delivers nothing and disturbs no other event.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of several publishers with the poller, queue and pool sizes down to 1, throwing listeners and late polls",
  "The tests publish from one thread and wait for the count to arrive.",
  [MEM + "basic_publisher.h", MEM + "basic_middleware_provider.h", MEM + "safe_queue_poller.h", MEM + "in_memory_queue_poller.h", "core/modules/mem_mdlw/src/in_memory_queue_poller.cpp"],
  [("bounded queue with forced push", MEM + "safe_queue.h"), ("poller thread emitting to listeners", MEM + "safe_queue_poller.h")])
p("C13", "The concurrent in-memory middleware delivers or counts every event, in order",
  "With the poller running, every event published through the concurrent (lock-free queue) in-memory middleware from any number of threads reaches each listener registered for its name exactly once, in order per publishing thread, one callback at a time and with the content published, unless the bounded queue discarded it to make room. Deliveries plus counted discards equal the events published. A publication that fails for lack of memory delivers nothing and disturbs no other event.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of several publishing threads and publishers with the poller, small queue sizes, late polls",
  "The tests publish from one thread and wait for the count to arrive.",
  [MEM + "concurrent_queue_publisher.h", MEM + "concurrent_middleware_provider.h", MEM + "concurrent_queue_poller.h"],
  [("lock-free queue with producer tokens", MEM + "concurrent_queue_publisher.h")])
p("C14", "In-memory pollers start, stop and die cleanly at any moment",
  "Starting, stopping, restarting and destroying an in-memory middleware provider or poller completes within bounded time at any moment of the polling thread's life, including a slow thread start that makes start time out. After stop has returned no listener runs, and destruction without stop neither hangs nor lets the polling thread touch freed memory.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of lifecycle calls with the polling thread, slow thread starts, overslept polls",
  "Tests always stop a poller that has been running for a while, before destroying it.",
  ["core/modules/mem_mdlw/src/in_memory_queue_poller.cpp", MEM + "in_memory_queue_poller.h", MEM + "basic_middleware_provider.h", MEM + "concurrent_middleware_provider.h"],
  [("running flag, start handshake and join", "core/modules/mem_mdlw/src/in_memory_queue_poller.cpp")])
p("C15", "The safe event emitter tolerates concurrent emits, adds and removals",
  "Listeners may be added, removed and queried on the thread-safe event emitter while other threads emit or a listener itself emits, adds or removes. Each emit calls every listener that is registered for its name throughout the emit exactly once, never one whose removal returned before the emit began, and a once-listener runs exactly once in its life; no such combination crashes, deadlocks or throws out of the emit. An event emitter subscriber over any of the emitters, used from one thread, calls exactly the listeners registered under names not removed since, and its statistics are those of the listener asked for and none for other names; a listener without a callback is refused. A registration, removal, discard or emit that fails for lack of memory has had no effect: nobody is called, no statistics stay in the container, and the operation can be repeated.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of emit, on, once, remove, discard and statistics calls from several threads and from inside callbacks, and failing allocations",
  "The emitter tests are single-threaded and follow a handful of fixed sequences.",
  [CORE + "safe_event_emitter.h", CORE + "event_emitter_subscriber.h", CORE + "unsafe_multi_listener_event_emitter.h", CORE + "unsafe_single_listener_event_emitter.h"],
  [("mutex around the listener map, handlers copied before the calls", CORE + "safe_event_emitter.h")])
p("C16", "The scheduler runs tasks when due and never after stop",
  "A one-shot task runs exactly once, not before its delay, and a repeating task runs again and again, once per period of monotonic time (its k-th run never before k periods, and back to back only when one run takes longer than a period), whatever the system clock does. Once stop for a task has returned that task does not run again (on the event loop: is not queued again), and starting, stopping, replacing and destroying tasks and the scheduler, from any threads including those of other tasks, completes in bounded time without terminating the process. A start that fails for lack of memory or threads never runs the task, and none of them is needed to destroy the scheduler.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of start/stop/destroy with task threads, late wake-ups and wall-clock jumps in either direction, slow tasks",
  "The tests sleep on the real clock, which does not jump, and stop every task explicitly.",
  [MEM + "basic_scheduler.h", "core/modules/mem_mdlw/src/basic_scheduler.cpp", HP + "event_loop_scheduler.h", "high_performance/modules/high_performance/src/event_loop_scheduler.cpp"],
  [("one thread per task, period corrected by the run time", "core/modules/mem_mdlw/src/basic_scheduler.cpp")])
p("C18", "Socket messages arrive byte for byte, or an error is raised",
  "A message sent over a data socket is received complete and byte for byte as sent, in order and without bytes of neighbouring messages, however the network splits, delays or coalesces the bytes and whatever calls are interrupted or report temporary lack of progress. If the connection fails, the sender and receiver get an error or a prefix of the stream followed by a definite end, never altered, repeated or reordered data.",
  ["fault_sequences", "schedules", "inputs"], "all ways the kernel may split reads and writes, interrupt or postpone them, and all points at which the peer closes or resets the connection; any message sizes",
  "No test covers the socket module; loop-back on an idle machine never returns short counts.",
  [SOCK + "src/data_socket.cpp", SOCK + "include/klepsydra/socket_core/data_socket.tpp", SOCK + "src/protocol_simple.cpp", SOCK + "include/klepsydra/socket_core/protocol_simple.h"],
  [("retry loops around read and write", SOCK + "src/data_socket.cpp"), ("terminator-delimited messages", SOCK + "src/protocol_simple.cpp")])
p("C19", "Sockets leak no descriptor and never close one twice",
  "Whatever system call fails while a server, client or accepted socket is created, used, moved or closed, each descriptor obtained from the system is closed exactly once by the time its owner is gone, and no other descriptor is ever closed. A failure is reported to the caller as an error, an address that cannot be represented is refused rather than altered, a successful close is not reported as a failure, and a closed or moved-from socket refuses further use.",
  ["fault_sequences", "histories"], "all sequences of construction, move, accept, connect, transfer and close with failures and interruptions injected into any system call",
  "No test covers the socket module or makes a system call fail.",
  [SOCK + "src/base_socket.cpp", SOCK + "src/server_socket.cpp", SOCK + "src/connect_socket.cpp", SOCK + "include/klepsydra/socket_core/base_socket.h"],
  [("owning handle with close in the destructor", SOCK + "src/base_socket.cpp")])
p("C20", "Every request's callback gets its own reply, exactly once",
  "With the request/reply handlers every reply reaches exactly the callback that was registered with the matching request, exactly once (the oldest pending one if several match); replies without a pending request reach nobody, and no other callback is affected. This holds for replies that arrive in any order, duplicated, lost or before the request call returns, and a callback may itself issue a request. With the multi-threaded handler it also holds for requests and replies from several threads at once, which never wait for each other's callbacks, while the requests themselves are published one at a time, so the publisher of one handler is never used by two threads at once. A publication or callback that throws leaves the other requests as they were. A destroyed handler gets no more replies.",
  ["schedules", "histories", "fault_sequences"], "all orders, losses and duplications of replies and all interleavings of requests with replies",
  "The tests answer one request at a time, on one thread.",
  [CORE + "callback_handler.h"],
  [("list of pending callbacks matched by a user predicate, taken out before they run", CORE + "callback_handler.h")])
p("C21", "A cache listener always shows a complete, newest event",
  "A multi-threaded cache listener read from any thread returns a copy that is complete, never a mix of two events, and at least as new as the last event it had finished receiving when the read began; a counter and event read together belong together. The copy does not change while its reader keeps it, and an event that cannot be copied (no memory, throwing copy) leaves event and counter as they were and the listener usable. The cache listeners for one thread do the same there; the sleeping one returns from its callback once the configured time has passed and not before, whatever the system clock does, and shows the event while it sleeps. The copying time a listener reports covers its copies.",
  ["schedules", "histories"], "all interleavings of event deliveries with reads from other threads; copy failures at any point",
  "The cache listeners have no concurrent test.",
  [CORE + "cache_listener.h"],
  [("shared pointer or mutex guarded copy", CORE + "cache_listener.h")])
p("C22", "The in-memory environment is a linearizable set of registers",
  "Concurrent reads and writes of properties in the in-memory environment behave as if each took effect atomically between its call and return: a read returns the value of the latest write of that key and type, or the caller's default and false if there was none. Keys and types never interfere with one another; a write that fails for want of memory and loading a file that is not there change nothing.",
  ["schedules", "histories"], "all interleavings of concurrent typed gets and sets on a few keys",
  "The tests are single-threaded.",
  [MEM + "mem_env.h", "core/modules/mem_mdlw/src/mem_env.cpp"],
  [("one mutex around four maps", "core/modules/mem_mdlw/src/mem_env.cpp")])
p("C26", "The container's registries match what is attached, under concurrency",
  "The statistics of services, publishers, subscribers and functions may be attached to and detached from a container concurrently with one another and with the container being started and stopped. Starting or stopping the container reaches exactly the statistics objects attached at that time, each attached object runs if and only if the container does, detaching one object neither removes nor touches any other, be they equally named, nor is a detached object ever touched again. An attachment that fails for lack of memory attaches nothing.",
  ["schedules", "histories"], "all interleavings of attach, detach, start and stop from several threads",
  "The container tests are single-threaded and never detach one of several publishers.",
  [CORE + "core_container.h", "core/modules/core/src/core_container.cpp"],
  [("one mutex per registry", "core/modules/core/src/core_container.cpp")])
p("C27", "A published event never changes while any listener holds it",
  "For the publishers that take events from an object pool, the content a listener receives equals what was published and stays so for as long as it keeps its reference, even when the pool is exhausted, the cloner or initialiser throws or an allocation fails. Each event is backed by memory no other live event shares, the caller may change its own event as soon as the publish call has returned, a process function gets an initialised event when there is an initialiser, and a failed publish is reported to its caller, leaves the pool and the queue usable and delivers nothing.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of publishers with listeners that keep events, pool sizes from zero up, allocation and user-code failures at any point",
  "Tests let every event go before the next is published.",
  [CORE + "object_pool_publisher.h", CORE + "smart_object_pool.h", MEM + "basic_publisher.h", HP + "event_loop_publisher.h"],
  [("shared pointer whose deleter returns the object", CORE + "smart_object_pool.h"), ("allocation fallback", CORE + "object_pool_publisher.h")])
p("C23", "ZMQ channels carry whole messages, each decoded as it was encoded",
  "Every message a ZMQ channel delivers to a listener decodes to exactly the object that was published under that topic; messages of one publisher arrive in order, never combined with parts or remains of another message, whatever messages are lost on the way and whatever sizes follow one another; a message the network does not lose is delivered. A message that cannot be decoded or has too few or too many parts, a listener that throws, an interrupted system call or a publication that failed for lack of memory affects no later message.",
  ["histories", "fault_sequences", "schedules"], "all sequences of messages of varying size over several topics with losses between publisher and subscriber",
  "The ZMQ tests send equal-sized messages on a quiet loop-back and need a ZMQ installation.",
  [ZMQ + "binary_to_zmq_channel.h", ZMQ + "binary_zmq_poller.h", ZMQ + "json_to_zmq_channel.h", ZMQ + "json_zmq_poller.h", ZMQ + "void_caster_to_zmq_channel.h", ZMQ + "void_caster_zmq_poller.h"],
  [("topic frame plus payload frame", ZMQ + "zmq_poller.h")])
p("C24", "The ZMQ poller starts, stops and dies cleanly at any moment",
  "Starting, stopping and destroying a ZMQ poller completes within bounded time at any moment of its thread's life, with or without traffic, and a poller that was stopped, or whose thread could not be created or was slow to come, can be started again. After stop has returned no listener runs and the socket is not used any more; after unregistering a topic has returned its listener does not run until the topic is registered again, which works at any time.",
  ["schedules", "fault_sequences"], "all interleavings of lifecycle calls with the polling thread and with message arrival",
  "The ZMQ tests sleep between steps.",
  [ZMQ + "zmq_poller.h"], [("running flag, poll timeout and join", ZMQ + "zmq_poller.h")])
p("C25", "Distributed configuration converges and is never read half-updated",
  "Environments that share their configuration over ZMQ converge: once updates stop and messages get through, every environment that received the last update returns its values; an environment never applies its own updates a second time nor updates of another key, and one that never sends sees the values of a single writer in the order they were written. A property read concurrently with an update returns the old or the new value and is never reported absent. Messages that are no valid update and interrupted system calls change nothing. Loading a file takes effect in all of them, or fails visibly and in none; destroying an environment completes within bounded time at any moment.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of local updates, remote updates and reads, with messages lost, delayed or duplicated",
  "The ZMQ environment test runs one update at a time with sleeps in between.",
  ["core/modules/zmq_mdlw/src/zmq_env.cpp", ZMQ + "zmq_env.h"],
  [("publication of the full configuration on every change", "core/modules/zmq_mdlw/src/zmq_env.cpp")])
p("C28", "State machines follow their configuration and notify exactly",
  "Given any configuration and any history of calls, a state machine that is started takes each event accepted while it was started exactly once and in order; an update goes on until the first event with a transition from the current state and tells each observer registered, once, the state it led to and whether it was entered anew; starting tells the current state, resetting returns to the first. A listener runs, in the order of registration, the one-off actions of a state the first time it is entered and never again, the other actions each time it is entered, the periodic ones on every update in it, and none of any other state. All of this also holds when the machine is driven by an event loop and a scheduler, when observers or actions throw, update the machine again, or add and remove observers and actions, and when memory runs out.",
  ["histories", "fault_sequences", "schedules"], "all configurations and call histories, re-entrant calls from observers and actions, exceptions and allocation failures at any point, publishers and schedulers driving the machine through an event loop",
  "The tests run a few fixed event sequences on one thread; no observer or action throws, re-enters or changes what is registered.",
  [SM + "src/state_machine_impl.cpp", SM + "src/state_machine_listener.cpp", SM + "src/sm_factory_impl.cpp"],
  [("event queue consumed by update", SM + "src/state_machine_impl.cpp"), ("actions per state", SM + "src/state_machine_listener.cpp")])
p("C29", "A configuration file takes effect completely or not at all",
  "Reading a JSON environment, a property file or a state machine from a file either fails visibly (an exception, or false from loadFile) and leaves what was configured before as it was, or has all of the file's content with its values under the keys of the given root node; never a part of it. This holds whatever the disk does: files that cannot be opened, reads that fail half way, are interrupted or return less than asked for, and JSON files of which a crash left only a part. A property file with a line that is neither a property of a new name nor a comment is refused; values are read with the type asked for, and keys that the file does not have get the default. Once the disk works, an intact file is read.",
  ["fault_sequences", "inputs"], "all contents of the three kinds of files, disk faults at every open and read, truncation and lost blocks at every byte of the JSON files",
  "The tests read a few intact files from a disk that works.",
  ["core/modules/core/src/configuration_environment.cpp", CORE + "config_file.h", "state_machine/modules/json_conf/src/json_config_loader.cpp"],
  [("loaded into a temporary, then copied", "core/modules/core/src/configuration_environment.cpp"), ("stream state after the last line", CORE + "config_file.h")])
p("C30", "Chained middlewares and managed services pass every event on, once and in order",
  "When middlewares of any kinds are connected by event forwarders or by the process forwarders of their providers, every listener of a stage gets each event delivered to the stage before it exactly once per path and in publication order per source, transformed by every forwarder on the way and by nothing else; whatever does not arrive was counted as discarded by the stage that dropped it, and stages that block when full drop nothing, also while queued stages are slow, not started yet, or stopped and started again. A managed service is started or stopped exactly once, in order, for each start or stop system event delivered to its subscriber while it exists, and does nothing for any other event; once destroyed (while nothing is being delivered) it is not called any more, its subscriber goes on without it and a new service may take its name.",
  ["schedules", "histories"], "all graphs of up to four stages of five kinds, all interleavings of publishers, the stages' threads and restarts, services created and destroyed in between",
  "The tests connect at most two middlewares, one event at a time, with sleeps in between.",
  [CORE + "event_forwarder.h", CORE + "manage_service.h", CORE + "event_emitter_middleware_provider.h", MEM + "in_memory_middleware_provider.h", HP + "event_loop_middleware_provider.h"],
  [("a listener that publishes", CORE + "event_forwarder.h"), ("a listener that starts and stops the service", CORE + "manage_service.h")])
p("C31", "Statistics of listeners and publishers report what happened",
  "While a component has a container, the waiting time that a listener's statistics add for a call is no shorter than the time from the return of that event's publication (or, if later, from the moment the calling thread was last done with a listener) to the call and no longer than the time from the start of its publication, in the basic, concurrent, event-loop and data-multiplexer middlewares and with every kind of emitter, however threads stall and the wall clock jumps; directly delivered events add none. Each call is measured exactly once, from just before it to just after it. The statistics of a listener that is removed and registered again start at nothing, and none stay in the container after their listeners and subscribers are gone. A pooling publisher counts as allocated its pool and every event it allocated beside the pool.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of publishers and the delivering thread, all pools and emitter kinds",
  "The tests print the statistics; none compares them with what happened.",
  [CORE + "safe_event_emitter.h", CORE + "unsafe_multi_listener_event_emitter.h", CORE + "unsafe_single_listener_event_emitter.h", CORE + "object_pool_publisher.h", MEM + "basic_publisher.h", HP + "data_multiplexer_publisher.h", HP + "event_loop_publisher.h"],
  [("waiting time and measures", CORE + "safe_event_emitter.h"), ("time of publication", MEM + "basic_publisher.h"), ("allocations", CORE + "object_pool_publisher.h")])
p("N02", "Serialisation round-trips every value",
  "Mapping any value to the middleware format and back yields an equal value, for the JSON, binary, identity and void-caster mappers.",
  ["inputs"], "all values of all supported types", "The tests round-trip a few sample objects.",
  ["serialization/modules/serialization/include/klepsydra/serialization"],
  [("cereal archives", "serialization/modules/serialization/include/klepsydra/serialization/json_cereal_mapper.h")])
p("N03", "Configuration files are read back as written",
  "Values set in a configuration environment or property file are returned with the type and content written, defaults are returned for absent keys, and exporting then importing an environment preserves it.",
  ["inputs"], "all configuration contents and key/root-node combinations", "The tests cover a few files.",
  [CORE + "configuration_properties.h", CORE + "config_file.h", "core/modules/core/src/configuration_environment.cpp"],
  [("cereal maps, key=value parser", CORE + "config_file.h")])
P.sort(key=lambda d: d["id"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
