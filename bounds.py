"""What each check covers and what lies outside; goes into the evidence and into MANIFEST.json."""
TIME = "Times at which coroutines act are 64-bit symbolic nanosecond values over windows of a few milliseconds (ties included), wake-up latency is one of three values, so the schedule is decided by the solver. "
STD = ["one runtime thread unless workers, a resolver thread or a second runtime are named; the Linux/x86-64 configuration (epoll, pthreads)",
       "the operating system behaves as model/model.c says (clock, nanosleep, epoll, pipes/sockets, pthreads, signals, mmap, getaddrinfo)",
       "COMAP_NSHARDS=EVMAP_NSHARDS=1 (hash shards; a performance knob)",
       "context switches are done by the engine itself; that the assembly does the same is property P22"]
B = {}
def b(pid, bounds, outside, *assume):
    B[pid] = (bounds, outside, STD + list(assume))
b("P01", TIME + "Up to 2 senders x 2 messages and 2 receivers x 2 receives (or 1 sender x 4 messages, 1 receiver x 3) on one channel of symbolic capacity 0..2, message sizes 4 and 5 with symbolic bytes, an optional deadline on every call, one cancel (inline or asynchronous) of any participant and one close at any time.",
  "More coroutines or messages than that, capacities above 2 (the ring buffer wraps within the bounds), message sizes other than 0, 4, 5.")
b("P02", TIME + "3 receivers or 3 senders queueing with one message each, capacity 0..2, close at any time, try-receives, deadlines on all calls of 3 participants; every history of up to 4 (thorough 6) operations on the reference count of a channel or generator.",
  "Longer histories and more waiters.")
b("P03", TIME + "One selector doing 1-2 selects (all six select entry points) over 2-3 channels of capacity 0..1 with 2 senders, a rival receiver, a close of either channel, deadline, try, one cancel; two selectors on one channel (known finding).",
  "More than three channels (the >8 heap path is in P17), more selects in a row.")
b("P04", TIME + "4 writers/readers with blocking calls, 3 with blocking/deadline/try calls, 2 taking it twice, 3 with one cancel (both types) at any moment; symbolic hold times.",
  "More coroutines or rounds.")
b("P05", TIME + "3 waiters and 2 signals/broadcasts, 2 signalers, deadlines, one cancel (both types), mutex contention while waiting and while re-locking.",
  "More waiters, signals or conditions.")
b("P06", TIME + "2 waiters, up to 2 coroutines adding/finishing with symbolic (also negative) deltas, deadlines, one cancel, a second round.",
  "More participants.")
b("P07", TIME + "3 (thorough 4) sleepers with arbitrary durations and relative/absolute forms, 5 (thorough 6) with one form, 2 sleeping twice, with a busy or idle scheduler; one sleep with an arbitrary 64-bit argument; every one of the API's deadline operations with a past or future deadline, on an object that is checked to be usable afterwards.",
  "More than six sleepers, real-time behaviour of the kernel.")
b("P08", TIME + "Every blocking operation of the API x inline/asynchronous x before/while blocking; every operation with a cancel around its deadline; programs of 3 steps of enable/disable/block against up to 2 cancelers with deadlines of their own and canceled themselves; up to 2 nested cleanup handlers that may block, exit at any point, 2 further cancelations meanwhile.",
  "Deeper nesting, more cancelers.")
b("P09", TIME + "Trees of up to 2 children plus a grandchild, 0..7 arguments by both start functions, 4 ways to end, up to 2 joiners (with deadlines, self, bogus ids) and two runs of the runtime one after the other.",
  "More than 7 arguments (the code is a loop over them; 0..7 crosses both of its storage classes), more children.")
b("P10", TIME + "12 ways in which a predecessor ends, 2 kinds of successor (coroutine, generator), pool on/off; 3-4 coroutines at a time over 2 rounds with their stacks on every allocator configuration (default, old entries, no pool, guard pages, no free list, large stacks with gap, heap stacks).",
  "More rounds and stack groups; stack overflow by user code.")
b("P11", TIME + "2 suspending coroutines and up to 2 resumers x 2 resumes, deadlines, one cancel; 3 yielders x 3 yields beside a sleeper, a waiter for I/O and a suspended coroutine.",
  "More coroutines.")
b("P12", TIME + "Up to 3 waiters on one descriptor (both directions, deadlines), 2 readiness changes (data, room, close, hang-up), two waits in a row, pipes and connections, one cancel, descriptor number 0, interrupted epoll_wait.",
  "More descriptors at once, kernel-specific error conditions not in the model, kqueue.")
b("P13", TIME + "A writer with up to 2 writes of 1..4 (or one of 9..10) symbolic bytes into an 8-byte pipe/connection, a reader with up to 3 reads; up to 3 short transfers and 2 interruptions placed by the solver, deadlines, a close of either end or one cancel at any time; write workers on and NECO_BURST 1/4/unlimited; 2 clients connecting and a server accepting with every kernel outcome.",
  "Larger transfers, descriptors that are neither pipe nor socket, disk files.")
b("P14", TIME + "Up to 3 stream operations out of read/readfull/read_byte/unread (thorough 4) over 3..5 symbolic bytes in up to 2 chunks, buffer size 3 (also default 4096, unbuffered, both directions at once), up to 3 writes/flushes of 0..5 bytes against a slow, closing or broken peer, deadlines, one cancel, short transfers, interruptions.",
  "Longer sequences and transfers that fill a 4096-byte buffer.")
b("P15", TIME + "Up to 2 coroutines watching subsets of 2-3 signals, up to 2 raises at any time, unwatch, exit, deadlines, one cancel; writes to a broken pipe with and without worker threads.",
  "Real-time signals, a signal between any two instructions of the runtime thread (delivery happens at system calls).")
b("P16", "Up to 3-4 coroutines with 1-2 work items each on 2 workers with queues of 2, pins symbolic; preemption of the running thread at up to 1-2 symbolic points within its first 30-60 memory accesses plus every blocking point, worker time-outs, up to 2 failing pthread_create, full queues, a cancel at any time. Data races by a vector-clock detector on every path.",
  "More preemptions, weak memory orderings beyond data-race freedom, more workers.")
b("P17", "One failing allocation at any point of any of the operations in harness/oom.c and of neco_start; every integer argument over its full range; bounds, use-after-free, double-free, leak and undefined-arithmetic checks (clang's traps) on every path of twelve other harnesses.",
  "Two or more failing allocations; memory errors outside the histories explored; alignment assumptions of user code.")
b("P18", TIME + "A generator of 2 values and 1-2 consumers x 2 next calls, close/release at any time, extra references, deadlines on next and yield, one cancel of either side.",
  "Longer sequences.")
b("P19", "All 2^64 seeds symbolically; request lengths 0..9 and every split; requests over 700 bytes (several internal parts) with deadline/cancel between parts; injectivity of the state update as one solver query.",
  "Statistical quality; requests longer than 700 bytes.")
b("P20", "Every address text of up to 6 arbitrary bytes and up to 8 characters of the relevant alphabet; every network name; unix paths up to 120 bytes; resolver results of 0..3 addresses or errors, every outcome of each connection attempt, up to 2 failing system calls, deadlines and cancelation.",
  "Longer texts (the parser is a single scan for the last colon), IPv6 scope ids.")
b("P21", "Every function of the API (table in harness/err.c) outside a coroutine and with every class of bad argument (bad integers symbolic); every pair call-after-call for the last error; neco_strerror for every 32-bit code; each blocking operation while another coroutine fails.",
  "Dangling (non-null) pointers.")
b("P22", "All 64-bit contents of all general-purpose registers and of the memory touched, for the switch routine and first entry as compiled by gcc and clang at -O0 and -O2 for x86-64.",
  "Floating-point control words, other processors, the ucontext fall-back.")
b("P23", "1-2 lookups with resolver results, errors and timing symbolic against deadlines and cancelation, one preemption of the resolver thread, one failing allocation, system call or thread creation; the portable pipe with up to 2 failing system calls, a cancel, descriptor number 0.",
  "More concurrent lookups, more than two failures.")
b("P24", TIME + "1-2 coroutines in any of the API's blocking operations leaving by completion, timeout, cancel or exit; an observer at any time and every coroutine itself compare all 12 counters with an exact count.",
  "More coroutines.")
b("P25", TIME + "Up to 4 receivers and 2 selectors, 2 broadcasts/sends/receives/closes at any time, capacity 0..1, deadlines, one cancel, a pending cancel of the broadcaster.",
  "More participants.")
b("P26", "Two runtimes on two threads running any pair of 7 scripts, preemption at up to 2 symbolic points in the first 25 memory accesses after each switch plus every blocking point; every API object used from the wrong thread; a signal striking either thread. Data races by a vector-clock detector.",
  "More preemptions and threads, weak memory.")
b("P27", "Every function of the API with every class of bad argument, with good arguments and with each code 0..-29 of neco_testcode while panic-on-error is set; the set allocator under every operation of the API and all paths of the runtime's own set-up; all four combinations of the cancel defaults for coroutines started in five ways, including from the pool; neco_main with every exit status -1..255, other coroutines sleeping, suspended or none.",
  "Settings changed while runtimes of other threads run (P26 covers their races); the text of panic messages.")
