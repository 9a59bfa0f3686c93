"""The properties (text only). gen.py writes properties.jsonl and MANIFEST.json from this and checks.py."""
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state], "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe), "hook_needed": None}})
N = ["neco.c"]
SCHED = ["schedules", "histories", "inputs"]
p("P01", "A channel delivers every message exactly once, unchanged and in order",
  "Every message whose send reports success is received by exactly one receiver, byte for byte unchanged, and the messages one coroutine sends on a channel are received in the order it sent them. A send or receive that reports a timeout, a cancelation or a closed channel transferred nothing, and no message is ever invented. This holds for buffered and unbuffered channels of any message size, whatever deadlines expire or cancelations arrive in the meantime.",
  SCHED, "every interleaving of senders, receivers, deadlines, cancelations and close that the timing of the coroutines allows, every capacity and message size in bounds",
  "The channel tests run a few fixed scripts; the windows that lose a message (a deadline or cancel landing between hand-over and wake-up) need exact ties in time that no test sets up.",
  N, [("channel send/receive hand-over and ring buffer", "chan_send0/chan_recv0, cbuf helpers"), ("waiter queues", "colist"), ("hand-over flag", "checkwait")],
  [("ring buffer", "messages accepted but not yet received", "struct neco_chan")], ["neco_chan_send*/recv* results and data"])
p("P02", "Channel blocking, capacity, queueing, try and close semantics",
  "A send completes at once exactly when a receiver waits or the buffer has room, a receive completes at once exactly when a message or a waiting sender is available, and otherwise the caller waits; waiting senders and waiting receivers are served first come first served. After close no new send or second close succeeds, messages accepted before it (buffered, or held by senders already waiting) can still be received, and every receiver that finds none left, now or later, gets the closed result instead of blocking. A try-receive never blocks and reports empty only when nothing is available.",
  SCHED, "every order and timing of sends, receives, tries, deadlines and close on one channel, every capacity in bounds",
  "Tests check a handful of orders; which waiter must run next, and what close does to each combination of waiters, depends on the history.",
  N, [("capacity and queue decisions", "neco_chan_send_dl, neco_chan_recv_dl"), ("close", "neco_chan_close0"), ("reference count", "neco_chan_retain/release")], observe=["return codes, time spent in each call"])
p("P03", "Select picks one ready channel, takes exactly one message and loses none",
  "A select returns the index of one of its channels that has a message or is closed, takes at most that one message from that channel and leaves every other channel untouched; reading the selected case then yields exactly that message or the closed result. When no channel is ready it waits and returns as soon as one becomes ready, and a try-select never waits. A select that times out or is canceled consumes nothing and leaves nothing registered on any channel.",
  SCHED, "every set of up to three channels, every timing of sends, closes, deadlines and cancelations around the select",
  "Select tests use one selector and quiet channels; registration on several channels only goes wrong for particular interleavings of several events.",
  N, [("select registration, wake-up and unregistration", "neco_chan_selectv_dl0"), ("taking the selected message", "neco_chan_case")], observe=["selected index, neco_chan_case result, later receives"])
p("P04", "Read-write mutex: exclusion, hand-over, fairness and no lost lock",
  "At no time does a writer hold the mutex together with anybody else, while any number of readers may hold it together. A waiter is granted the mutex as soon as it can be, in the order of asking, so no later writer overtakes an earlier waiter and readers that queue next to each other are admitted together; a try-lock never waits and fails exactly when the mutex cannot be had at once. A lock call that reports a timeout or cancelation does not hold the mutex, and one that reports success does, so the mutex is never lost or left held by nobody.",
  SCHED, "every timing and mode (read/write, blocking/deadline/try) of up to four coroutines, every hold time, and a cancelation at any moment",
  "Exclusion and hand-over depend on the interleaving of unlock, timeout and cancel; the tests fix one each.",
  N, [("lock, rdlock, unlock hand-over", "neco_mutex_lock_dl, neco_mutex_rdlock_dl, neco_mutex_fastunlock")], observe=["who believes to hold the lock"])
p("P05", "Condition variables lose no wake-up and return with the mutex held",
  "Waiting atomically releases the mutex and starts to wait: a signal or broadcast by a coroutine that acquired the mutex after the waiter released it is never missed. A signal wakes exactly one waiter if there is one (the one waiting longest), a broadcast wakes all of them, and neither is remembered when nobody waits. Every return from a wait, be it by signal, timeout or cancelation, holds the mutex, a deadline or cancelation arriving while it waits is reported, and a signal is never consumed by a waiter that reports anything else.",
  SCHED, "every timing of waiters, signalers, mutex contention, deadlines and cancelations in bounds",
  "A lost wake-up needs another coroutine to run exactly between release and wait; the tests never contend the mutex there.",
  N, [("wait, signal, broadcast", "neco_cond_wait_dl, neco_cond_signal, neco_cond_broadcast")], observe=["return codes, mutex ownership"])
p("P06", "Waitgroups release waiters exactly when the count reaches zero",
  "A wait returns success only when the sum of all adds minus all dones has reached zero, and when it reaches zero every waiter is released without delay. The counter never becomes negative: an operation that would make it so reports an error and changes nothing. A wait that times out or is canceled leaves the group and its other waiters intact, and a group can be used again for another round.",
  SCHED, "every sequence and timing of add (positive and negative), done, wait, deadline and cancel in bounds",
  "The tests count down once in one order.",
  N, [("counter and release", "neco_waitgroup_add/done/wait_dl")], observe=["return codes and return times"])
p("P07", "Deadlines and sleeps never fire early, never hang, and wake in order",
  "A sleep returns success only after its full duration or deadline, and returns promptly then, however many other coroutines sleep or keep running; sleepers wake in the order of their deadlines. Every blocking operation that takes a deadline and cannot complete returns the timed-out result, never before the deadline and promptly after it (at once if it has already passed). Timing out leaves no trace: the object stays usable, nobody else is disturbed, and a later operation is not affected by the old deadline.",
  SCHED, "every combination of durations and deadlines of up to four sleepers and every blocking operation of the API, past and future deadlines, a busy or idle scheduler",
  "Tests sleep for a few fixed times and cannot tell early or late wakes of other timing mixes; most operations are never tested with a deadline that expires.",
  N, [("deadline tree and timer step", "dlqueue (AAT), rt_sched_dl_step"), ("per-operation deadline handling", "copause, checkdl")], observe=["return codes and clock"])
p("P08", "Cancelation reaches the target once, promptly, and cleans up",
  "Canceling a coroutine that is in, or later enters, any blocking operation makes that operation report the cancelation promptly and exactly once (inline mode), or ends the coroutine there (asynchronous mode). Whenever a coroutine ends early, by asynchronous cancelation or by exit, its pushed and not yet popped cleanup handlers each run exactly once, last pushed first, even when further cancelations arrive meanwhile. A canceler waits while the target has cancelation disabled, and returns success once the target enables it, not-found if the target ends or does not exist, or its own timeout or cancelation.",
  SCHED, "every blocking operation, both cancelation types, enabled or disabled, cancelation before, while or after blocking, repeated cancelations",
  "Tests cancel a few operations at one moment each; the effect on every operation at every moment is a product no test list enumerates.",
  N, [("cancel delivery", "neco_cancel_dl, coresume of canceled"), ("cancelation points", "checkcancel / async_cancel"), ("cleanup stack", "__neco_c0/__neco_c1, coexit")], observe=["return codes, handler order"])
p("P09", "Coroutine lifecycle: arguments, identity, join and run-to-completion",
  "A started coroutine runs exactly once with exactly the arguments it was given, however many, valid for its whole life; identifiers are unique and never reused, and the own, last-started and starter identifiers reported are the right ones. A join returns exactly when the joined coroutine has ended (at once when it already has or never existed), for every joiner. The first start on a thread returns success only after every coroutine has ended, and the runtime can be started again afterwards.",
  SCHED, "every tree of starts, exits and joins in bounds, every argument count in bounds",
  "Tests start fixed shapes and few arguments; order of exit against join varies freely in programs.",
  N, [("start", "neco_startv, rt start0"), ("exit and joiners", "coexit, neco_join_dl"), ("identity", "sco ids, neco_getid/lastid/starterid")], observe=["arguments, ids, join results"])
p("P10", "A recycled coroutine starts fresh and stacks never overlap",
  "A newly started coroutine is not affected by any coroutine that ended before it: no pending cancelation, deadline, cleanup handler, signal watch, cancel mode or last identifier is inherited from a predecessor whose resources it reuses. Live coroutines never share stack memory, and values a coroutine keeps in local variables across any blocking call are never changed by others.",
  ["schedules", "histories"], "every way a predecessor can end (return, exit, canceled, with a pending deadline or cancel, with watches or handlers) before its resources are reused",
  "Pooling makes the effect of one coroutine's end visible only in an unrelated later one; the tests reset between cases.",
  ["neco.c", "deps/stack.c", "deps/sco.c"], [("pool and reset", "coroutine_new/coroutine_free"), ("stack allocation and free lists", "stack_mgr")], observe=["behaviour of the second coroutine"])
p("P11", "Yield, suspend and resume: fair, no lost or stray resume",
  "A suspended coroutine continues only through a resume of its identifier, its own deadline or a cancelation, and then exactly once; a resume that reports success is never lost and one that finds no suspended target reports so and has no effect. Yielding lets every other runnable coroutine run before the yielder runs again, so no runnable coroutine is ever starved by others that yield, and sleepers, I/O and timers still make progress while others keep yielding.",
  SCHED, "every order of suspend, resume, yield, exit and deadline among the coroutines in bounds",
  "Tests resume once, in one order; starvation and lost resumes are schedule properties.",
  ["neco.c", "deps/sco.c"], [("resume", "neco_resume, sched_resume"), ("run queues", "sco yielders/runners")], observe=["order of execution, return codes"])
p("P12", "A coroutine waiting for a descriptor is woken when it is ready",
  "A coroutine that waits for a descriptor to become readable or writable returns success as soon as it is (data, room, a connection, end of file, hang-up or error), and never reports success while it is not. Several coroutines may wait on one descriptor, for the same or different directions: each is woken for its own direction and none is left behind. A waiter that times out or is canceled, and a descriptor number that is closed and used again, do not disturb others.",
  ["schedules", "histories", "fault_sequences"], "every timing of readiness changes against waiters, directions, deadlines and cancelations, descriptor reuse, interrupted system calls",
  "Lost wake-ups need readiness to change between the check and the registration or two waiters to share one registration; the tests use one waiter each.",
  N, [("event registration and delivery", "evlist/wait queues, neco_wait_dl, sched poll step")], observe=["time and result of neco_wait"])
p("P13", "Descriptor I/O: reads, writes, accept and connect tell the truth",
  "A read returns exactly the next bytes of the descriptor (possibly fewer than asked), zero only at end of file, and a write reports exactly how many of the given bytes, from the front and in order, were accepted: all of them unless an error, deadline or cancelation intervenes after a part was written, and -1 with the cause only when nothing was. Interrupted and would-block conditions are never seen by the caller, and the thread never blocks in a system call. Accept returns each connection once, and connect succeeds exactly when the connection is established and otherwise reports the real error.",
  ["schedules", "inputs", "fault_sequences"], "every split into short reads and writes, interruption, would-block, peer close, deadline or cancelation at each point, every byte value",
  "Short writes, interruptions and cancelation in the middle of a transfer are chosen by the kernel; the tests rarely or never see them.",
  N, [("read/write loops", "neco_read_dl, neco_write_dl"), ("accept/connect", "neco_accept_dl, neco_connect_dl")], observe=["bytes on both ends, return values, errno"])
p("P14", "Streams are byte-exact and report partial results honestly",
  "Whatever mix of reads, full reads, byte reads, unreads, writes and flushes is used, the bytes read from a stream are exactly the bytes of the descriptor in order, and the bytes written arrive exactly once in order when flushed or closed; buffered and unbuffered streams agree. End of file, a full read cut short, a deadline, a cancelation or an error is reported as such with the correct count, and no byte is lost or duplicated by it: the operation can be repeated. Unread gives back the byte last read or reports that it cannot.",
  ["inputs", "histories", "fault_sequences"], "every sequence of stream operations in bounds, every size against the buffer size, every split by the kernel, deadline or cancel at every point",
  "Buffer boundary cases times kernel splits times interruptions are far beyond the fixed scripts in the tests.",
  N, [("buffered read path", "neco_stream_read*/unread_byte"), ("write buffer", "neco_stream_write/flush/close")], observe=["bytes, counts, errors"])
p("P15", "Watched signals reach waiting coroutines; unwatched ones keep their effect",
  "Every arrival of a signal that some coroutine watches is reported by exactly one wait of a coroutine watching it: at once if one waits, otherwise by the next such wait. A coroutine is only ever told about signals it watches; a wait with nothing watched, and signal numbers out of range, are refused; a wait honours its deadline and cancelation and then leaves the signal to the next wait. A signal nobody watches (never watched, unwatched again, or its watcher has ended) ends the program as it would by default, except SIGPIPE, which is ignored. At the end of the runtime every earlier disposition is restored.",
  ["schedules", "histories", "inputs"], "every timing of signals against watch, wait, unwatch and exit, several signals and several coroutines",
  "Signals arrive at arbitrary instants; the tests raise them at one.",
  N, [("watch/unwatch and dispositions", "neco_signal_watch/unwatch"), ("signal step", "rt_sched_signal_step"), ("handler", "sighandler")], observe=["neco_signal_wait results, dispositions"])
p("P16", "Background work runs exactly once and finishes before the call returns",
  "Work handed to a background thread runs exactly once, never on the coroutine's own thread, and has finished, with its effects visible, when the call returns; other coroutines keep running meanwhile. Work items with the same pin never overlap, and run in the order of submission as long as the queue accepts them at once. Neither a cancelation nor the failure to create threads makes the call return early, lose work, run it twice or hang.",
  ["schedules", "fault_sequences"], "every interleaving of runtime thread and workers within the preemption bound, thread-creation failure, worker idle time-out, full queues, cancelation",
  "Thread interleavings and thread-creation failures are not controlled by any test.",
  ["neco.c", "deps/worker.c"], [("worker queues", "worker_submit, worker_entry"), ("waiting for completion", "neco_work, iowork")], observe=["effects of the work function"])
p("P17", "Memory safety, no leaks, and allocation failure is an error code",
  "In every execution the runtime reads and writes only memory it owns, computes no size or index by overflow, never frees twice, and at the end has given back all memory, stack mappings and descriptors it took. When any single memory or stack allocation fails, the call in progress reports out of memory (or succeeds without that memory), no state is damaged, nothing leaks, and the same call succeeds when it is repeated.",
  ["fault_sequences", "inputs", "histories"], "a failing allocation at every point of every operation exercised, every size argument up to the maximum value",
  "Tests fail some allocations of some calls; they cannot try every allocation of every history.",
  ["neco.c", "deps/stack.c", "deps/sco.c"], [("allocation wrappers", "neco_malloc/realloc/free"), ("size checks", "neco_chan_make"), ("unwinding on failure", "every *_make, neco_startv")], observe=["return codes, live memory"])
p("P18", "Generators hand over every value once, in order, then report closed",
  "Each next call receives exactly the next value the generator yields, unchanged and in order, and after the generator ends or is closed every further next reports closed. The generator runs only as far as its consumers ask for values and a yield returns after the value has been taken, or reports timed out, canceled or, when it starts after a close, closed. A value already being yielded when the generator is closed can still be taken; only then do consumers see the end. Values are never lost, repeated or invented when a next or a yield times out or is canceled, and a generator lives as long as somebody holds a reference.",
  SCHED, "every interleaving of next, yield, close, release, deadlines and end of the generator in bounds",
  "Tests iterate a well-behaved generator to its end.",
  N, [("generator channel", "neco_gen_* on top of channels")], observe=["values and return codes"])
p("P19", "Random numbers: seeded sequences are reproducible and seeds isolated",
  "The pseudorandom generator yields, for a given seed, the same bytes for the same requests every time, whatever other coroutines do in between (as long as they do not draw from it), and requests cut at multiples of four bytes give the bytes of one long request. Setting a seed returns the previous state, setting that back continues the earlier sequence exactly, and different seeds never run into the same state. A request fills exactly the requested bytes; an invalid attribute, an expired deadline or a pending cancelation is reported without any effect; secure random bytes all come from the system and leave the seeded sequence alone; a long request lets other coroutines run.",
  ["inputs", "histories"], "every seed, every request length in bounds and every split of requests",
  "Tests sample a few seeds and lengths; reproducibility is a statement about all seeds.",
  N, [("seed state and generation", "neco_rand_setseed, rand0, neco_rand_dl")], observe=["generated bytes"])
p("P20", "Dial and serve interpret addresses correctly and give back a working socket",
  "For every network name and address text, dial and serve resolve exactly the host and port written (empty host meaning all or local addresses, IPv6 in brackets), refuse malformed ones, and never truncate a name or path. Dial tries the resolved addresses in order until one connects and reports the last error otherwise, stopping at its deadline or cancelation; serve returns a listening socket. On success exactly one new non-blocking descriptor is open, on failure none.",
  ["inputs", "fault_sequences"], "every address string in bounds, every result of resolution, every failing system call",
  "The input space is all strings and all system-call failures; the tests dial a few local addresses.",
  N, [("address parsing", "parse_tcp_addr"), ("dial/serve", "neco_dial_dl, neco_serve_dl")], observe=["resolver and socket calls, open descriptors"])
p("P21", "Every call validates its use and reports errors consistently",
  "Every function called outside a coroutine reports not-permitted, and called with a null or out-of-range argument reports invalid-argument, without any side effect. The last-error of a coroutine always is the result of its own latest failing or succeeding call, not that of another coroutine, and errno matches it. Error texts exist for every code, and an operation on an object that belongs to another thread's runtime is refused.",
  ["inputs", "histories"], "every function of the API, every class of bad argument, every interleaving with another coroutine's errors",
  "Tests check single calls and ignore cross-coroutine leakage of the last error.",
  N, [("error wrappers", "error_guard, neco_lasterr"), ("argument checks", "every neco_* entry")], observe=["return codes, neco_lasterr, errno"])
p("P22", "A context switch preserves every callee-saved register and the stack",
  "Switching from one coroutine to another and back leaves the stack pointer and all general-purpose registers that functions must preserve exactly as they were, for every register content. The first switch into a new coroutine enters its start routine on a correctly aligned stack inside that coroutine's own memory, with the right argument.",
  ["inputs"], "every content of every register and of the stack memory (64-bit symbolic), for the switch routine of this platform",
  "Tests only see registers that the compiler happened to use.",
  N, [("switch routine and initial context", "llco asm x86_64, llco_asmctx_make")], observe=["register contents"])
p("P23", "Name resolution and pipe helpers behave like the system calls, without leaks",
  "Resolving a name gives the caller exactly the result list or error of the system resolver, without blocking other coroutines; when it is canceled or times out it reports so, and nothing is leaked or freed twice whatever the resolver does later. The portable pipe gives two connected descriptors that transfer bytes in order, or fails with no descriptor left open.",
  ["schedules", "fault_sequences"], "every timing of the resolver thread against deadline and cancelation, every failing system call",
  "The resolver's timing and failures cannot be steered by a test.",
  N, [("resolver helper", "neco_getaddrinfo_dl"), ("pipe helper", "neco_pipe")], observe=["results, descriptors, memory"])
p("P24", "Statistics count exactly the coroutines in each state",
  "At every moment the reported statistics equal the number of live coroutines and of coroutines sleeping, suspended, waiting to send, to receive, for a lock, a waitgroup, a condition, a signal or a descriptor. They return to zero as the operations end, by whatever route: completion, timeout, cancelation or exit.",
  SCHED, "every history of operations and ways to leave them in bounds",
  "Tests look at the counters in a few quiet moments.",
  N, [("counters", "rt->n* counters, neco_getstats")], observe=["neco_getstats"])
p("P25", "Broadcast reaches exactly the coroutines that are waiting",
  "A channel broadcast delivers the message once to every receiver and selecting coroutine waiting at that moment, returns how many there were, never blocks and never buffers the message. Coroutines that start to receive afterwards do not get it, and messages already in the channel are unaffected.",
  SCHED, "every number and timing of receivers, selectors, deadlines and cancelations around the broadcast",
  "Tests broadcast to a fixed set of settled receivers.",
  N, [("broadcast", "neco_chan_broadcast")], observe=["return value, received data"])
p("P26", "Runtimes on different threads are isolated and race-free",
  "Each thread may run its own runtime at the same time: coroutines, identifiers, errors, seeds and statistics of one are invisible to and unaffected by another, and objects that belong to another thread's runtime are refused. No interleaving of the threads has a data race or corrupts shared process-wide state, including global settings, signal state and background workers.",
  ["schedules", "programs"], "every interleaving of two runtimes and their workers within the preemption bound",
  "Thread schedules are not controlled by the tests.",
  ["neco.c", "deps/sco.c", "deps/worker.c"], [("thread-local runtime", "rt (__thread)"), ("locks on shared state", "sco_lock, rt locks, worker locks")], observe=["results per thread; race detector of the engine"])
p("P27", "Process-wide settings and the program entry do what they say",
  "With an allocator set, every block of memory the library allocates comes from it and is given back to it exactly once, and the system's allocator is not used. With panic-on-error set, a call that would report invalid-argument, not-permitted or out-of-memory ends the program and no other outcome does. Every coroutine, however it is started, begins with the configured default cancel state and type. neco_panic always aborts the program. neco_main receives the program's arguments inside a coroutine of the main thread, and when it returns the program ends at once, whatever other coroutines do, with its return value as exit status and without losing buffered output.",
  ["inputs", "programs", "histories"], "every function of the API and every class of argument under the setting, every exit status, every way to start a coroutine",
  "Tests set one option in one situation; the settings apply to every call.",
  N, [("settings", "neco_env_*"), ("panic on error", "panic_on_error, error_guard"), ("program entry", "neco_main, __neco_exit_prog, main")], observe=["allocator calls, program end, cancel settings"])
