"""Build configurations and the checks (harness and configurations per property)."""

_BASE = ["-DENABLE_STACK_OVERFLOW_DETECTION", "-DCONFIG_STACK_OVERFLOW_DETECTION=1",
         "-DCONFIG_MEMALLOC_SLICE_ALIGN=64", "-DCONFIG_MEMALLOC_SLICE_MAX_SIZE=4096"]
_SLICE = ["-DENABLE_MEMALLOC_SLICE"]
_COUNT = ["-DCONFIG_MEMALLOC_SLICE_MAX_COUNT=1000"]
_SPLICE = ["-DENABLE_IO_SPLICE_SYSCALL"]
_MMAP = ["-DCONFIG_STACK_BACKEND=STACK_MMAP"]
_HEAP = ["-DCONFIG_STACK_BACKEND=STACK_HEAP"]
_NOCLK = ["-DCONFIG_SCHED_CLOCK=CLOCK_NONE"]

CONFIGS = {
    # as shipped
    "default": _BASE + _SLICE + _COUNT + _SPLICE + _MMAP + _NOCLK,
    # a clock measures the turns of tasks
    "clock": _BASE + _COUNT + _SPLICE + _MMAP + ["-DCONFIG_SCHED_CLOCK=CLOCK_MONOTONIC"],
    # no guard pages
    "noguard": [f for f in _BASE if "OVERFLOW" not in f] + _COUNT + _SPLICE + _MMAP + _NOCLK,
    # every allocation goes to the checked heap
    "noslice": _BASE + _COUNT + _SPLICE + _MMAP + _NOCLK,
    "nosplice": _BASE + _COUNT + _MMAP + _NOCLK,
    "heap": _BASE + _COUNT + _SPLICE + _HEAP + _NOCLK,
    # the allocator with a cache limit that small histories reach
    "small": _BASE + _SLICE + ["-DCONFIG_MEMALLOC_SLICE_MAX_COUNT=3"] + _SPLICE + _MMAP + _NOCLK,
}

CHECKS = {
    "T09": dict(harness="mutex.c", configs=["noslice"],
                oracle="oracle: owner monitor, trylock result, quiescence check for starved waiters",
                note="all programs of lock, trylock, unlock, yield, sleep and stray wakeups; "
                     "2 tasks x 4 operations, 3 x 4, 4 x 2 and priority mixes"),
    "T10": dict(harness="cond.c", configs=["noslice"],
                oracle="oracle: set of all worlds of signalled waiters the property allows",
                note="all programs of 1-4 waiters and 1-2 drivers, 3-4 driver operations, virtual time"),
    "T11": dict(harness="chan11.c", configs=["noslice"],
                oracle="oracle: two FIFO queues with the blocking rules, quiescence check",
                note="all programs of reads and writes by 2-3 tasks, 3-6 operations each, 0-3 buffers, "
                     "message sizes 0..40, priorities, sleeps, stray wakeups"),
    "T12": dict(harness="chan12.c", configs=["noslice"],
                oracle="oracle: two FIFO queues with liveness of the ends, quiescence check, "
                       "checked memory",
                note="all programs of read, write, destroy and task end by 2-3 tasks, 2-6 operations "
                     "each, 0-2 buffers, ends handed between tasks, stray wakeups"),
    "T13": dict(harness="select.c", configs=["noslice"],
                oracle="oracle: readiness of every member computed from the message queues at each "
                       "return, at rest and after draining",
                note="all programs of select, add, del, read, write, close and sleep over 1-3 channels "
                     "with 0-3 buffers, 3-5 operations per task, 1-2 peers"),
    "T07": dict(harness="sleep.c", configs=["noslice"],
                oracle="oracle: exact virtual clock at every return and whenever the system waits",
                note="all programs of 1-4 sleepers (1-2 sleeps each, durations 0, 1 us .. UINT_MAX ms, "
                     "start times around second boundaries) and a driver that wakes them early, keeps "
                     "the thread busy or sleeps; late timer delivery"),
    "T01": dict(harness="sched01.c", configs=["noslice"],
                oracle="oracle: state machine of tasks checked at every switch, at every wait of the "
                       "system and at the return of run",
                note="all programs of 2-4 tasks with 2-3 operations per start (spawn, restart, yield, "
                     "wait, wake, sleep, exit, set priority), up to 4 starts by tasks, up to 3 runs"),
    "T03": dict(harness="sched03.c", configs=["noslice"],
                oracle="oracle: state machine of tasks checked at every switch and whenever the system waits",
                note="all programs of 2-4 tasks with 2-6 operations (yield, wait, wake, spawn, sleep, "
                     "run again)"),
    "T05": dict(harness="sched05.c", configs=["noslice", "default", "heap"],
                oracle="oracle: reference counts of the program, checked memory (every access of the "
                       "library), leak check at the end",
                note="all programs of 2-3 tasks with 2-4 operations (ref, unref, create, start, exit, "
                     "join, wait, restart) on three build configurations"),
    "T06": dict(harness="sched06.c", configs=["noslice"],
                oracle="oracle: start and end counts of the joined task at every return, quiescence check",
                note="all programs of 2-4 tasks with 2-4 operations (join, exit, restart, wait, wake, sleep)"),
    "T02": dict(harness="prio.c", configs=["noslice", "clock"],
                oracle="oracle: turn counts between becoming ready and running against the bounds of "
                       "the property, read-back of priorities",
                note="all priority assignments of 2-3 always-ready tasks over all 16 values (4-5 tasks "
                     "over fewer) for 20-60 turns each, and all programs of 2-3 tasks with 3-5 "
                     "operations (yield, wait, wake, spawn, sleep, priority change), sleeps that end while "
                     "others are ready; pairs of 53 priorities inside and outside of the range; with a scheduling "
                     "clock all such programs with turns of different lengths"),
    "T04": dict(harness="stack.c", configs=["noslice", "heap", "default", "noguard"],
                oracle="oracle: patterns in stacks, locals, preserved registers and heap blocks compared "
                       "after every switch; extent, alignment, disjointness and guard page at every entry",
                note="all switch orders of 2-4 tasks with 2-5 operations (yield, sleep, call, return, spawn, "
                     "exit) over stack sizes 1..9000001 on the heap backend and the mmap one with and without guard"),
    "S01": dict(harness="detect.c", configs=["noslice", "default"],
                oracle="oracle: delivery of the signal as the kernel does it; reports iff the address is in a "
                       "guard area, then the program's previous handler or action takes effect",
                note="all programs of 1-3 tasks with 1-3 operations over 6 kinds of faults, both fault signals, "
                     "4 previous dispositions each, own signal stack or not, 1-2 systems in a row, a second "
                     "thread with or without a system under all interleavings with 2-3 preemptions"),
    "K01": dict(harness="call.c", configs=["noslice", "default"],
                oracle="oracle: run counts, return values and patterns on all stacks and user areas",
                note="all programs of 1-3 tasks with 3-7 operations (new call, nested jump, repeated jump, "
                     "yield, sleep, exit inside a call, destroy) over base and stack size alphabets"),
    "T08": dict(harness="fd.c", configs=["noslice"],
                oracle="oracle: readiness model of every registration, checked at each resume and "
                       "whenever the system waits",
                note="all programs of 1-2 tasks with 2-4 operations (add, mod, del, close, drain, wait, "
                     "yield, wake, sleep, failing registrations) on 1-2 streams, pipe ends or datagram sockets "
                     "against all orders of 1-3 arrivals, departures, end of file and errors"),
    "M01": dict(harness="alloc.c", configs=["default", "small", "noslice"],
                oracle="oracle: extent, alignment, disjointness and byte pattern of every live block "
                       "after every operation; overflowing requests must fail",
                note="all histories of 3-7 operations (malloc, malloc0, calloc, realloc, free) on 1-3 "
                     "blocks over class boundary sizes and sizes nobody can provide, both allocators, up "
                     "to two failing system allocations"),
    "M02": dict(harness="cache.c", configs=["small", "default"],
                oracle="oracle: number of retained blocks per size and least-recently-used order of sizes "
                       "after every operation",
                note="all histories of 4-8 operations over 2-4 size classes with a limit of 3 blocks, and "
                     "bulk histories around the shipped limit of 1000"),
    "B01": dict(harness="circ.c", configs=["noslice"],
                oracle="oracle: byte queue compared with both segment lists after every operation",
                note="all histories of 6-7 operations (write k, read k, start only, finish later, ref, "
                     "unref) for every k on capacities 0-6; overflowing capacities"),
    "I01": dict(harness="io01.c", configs=["noslice"],
                oracle="oracle: byte positions of both directions, pending errors and yielder decisions "
                       "compared at every return, readiness at every wait",
                note="all programs of 1-2 tasks with 1-3 read, readv, write, writev calls on streams and pipe "
                     "ends against all orders of 2-4 arrivals, end of file, errors and short transfers, all "
                     "yielder decisions; all descriptor helpers with up to two failures"),
    "I02": dict(harness="io02.c", configs=["noslice"],
                oracle="oracle: byte positions, message queue, addresses and control data compared at every return; "
                       "readiness at every wait",
                note="all programs of 1-3 socket calls over flags, vector shapes (including empty elements) and "
                     "metadata sizes against all orders of 2-5 arrivals, takes, end of stream and errors, short "
                     "transfers and yielder decisions; all outcomes of connect and accept"),
    "I03": dict(harness="io03.c", configs=["noslice"],
                oracle="oracle: readiness of every entry and virtual time at every wait and return",
                note="all lists of 0-3 entries over seven kinds of descriptors, timeouts and event masks, against "
                     "all orders of 2-3 arrivals, ends, errors and passing times, with stray wakeups"),
    "I04": dict(harness="io04.c", configs=["noslice", "nosplice"],
                oracle="oracle: byte positions of both directions at every wait and return, contents at the far ends",
                note="both implementations over pipes and sockets against all orders of 4-6 arrivals, takes, ends "
                     "and errors, buffer sizes 1-3, short transfers, yielder decisions and one failing call"),
    "O01": dict(harness="cio01.c", configs=["noslice"],
                oracle="oracle: byte positions, messages, errors and yielder decisions compared at every return; "
                       "readiness at every wait",
                note="all programs of 1-2 chain operations over socket, descriptor pair, null and missing innermost "
                     "layers below 0-2 pass-through layers, all vector shapes, three address families, against all orders of 2-5 arrivals, "
                     "takes, ends and errors, short transfers and yielder decisions"),
    "O02": dict(harness="cio02.c", configs=["noslice"],
                oracle="oracle: byte positions at the reader and at the innermost layer after every operation; "
                       "readiness at every wait",
                note="all histories of 2-5 reads, vector reads, peeks, writes, vector writes and flushes over one or "
                     "two buffer layers of sizes 0-4, against all orders of 1-3 arrivals, takes, ends and resets, "
                     "short transfers and yielder decisions"),
    "O03": dict(harness="cio03.c", configs=["noslice"],
                oracle="oracle: byte positions of both directions at every wait and return, contents at the far ends",
                note="pairs of chains (sockets, descriptor pairs and null below pass-through, one or two buffer layers "
                     "of sizes 0-3) against all orders of 4-6 arrivals, takes, ends and errors, splice buffers of "
                     "1-3 bytes, short transfers and yielder decisions"),
    "O04": dict(harness="cio04.c", configs=["noslice"],
                oracle="oracle: reference counts of the program compared with liveness of memory, destructor calls "
                       "and open descriptors after every operation",
                note="all histories of 4-12 ref, unref, push and pop operations on 1-4 plain objects, atomic objects "
                     "and layers of every type, with shared inner layers"),
    "C01": dict(harness="obj01.c", configs=["noslice"],
                oracle="oracle: reference count of the program at destruction, checked memory, and a happens-before "
                       "race detector (vector clocks, C11 orders) over every access of the library and of the object",
                note="2-3 threads with 2-4 operations (use, ref, unref) under all switches at atomic operations and "
                     "system calls up to the stated number of preemptions; first use of all seven object types in "
                     "2-3 threads"),
    "C02": dict(harness="threads.c", configs=["default", "noslice"],
                oracle="oracle: results, order and current task of every thread's own tasks, process-wide signal "
                       "state, and a happens-before race detector over every access of the library",
                note="2-3 threads that each initialise, run and finalise 1-2 systems with one of six workloads (yield, "
                     "sleep, channel, pipe, mutex and condition, memory and chains), all thread switches at system "
                     "calls and atomic operations up to the stated number of preemptions"),
    "D01": dict(harness="dns.c", configs=["noslice", "default"],
                oracle="oracle: scripted resolver with one answer per call, exact virtual clock for the other tasks, "
                       "checked memory, a happens-before race detector and a census of threads, memory and "
                       "descriptors at rest",
                note="1-3 threads with 1-3 calling tasks, 1-2 calls and 1-2 systems each, lookups of 0 or 2.5 ms, all "
                     "thread switches at system calls and lock operations up to the stated number of preemptions, "
                     "spurious wakeups, up to two failing requests"),
    "F01": dict(harness="fault.c", configs=["noslice", "default", "heap", "nosplice"],
                oracle="oracle: documented failure values, a census of memory, mappings and descriptors around each "
                       "refused call, checked memory, and the effect of each call that is tried again",
                note="sequences of up to three calls out of 27 public functions, and up to two systems, with up to "
                     "three refused requests (memory, mappings, descriptors, registrations) at any position"),
}

# not a property: the virtual kernel against the real one
CONFORM = dict(harness="conform.c", configs=["noslice"], oracle="", note="")

# Large instances: sizes and orders from small alphabets in all combinations.
_SCALE = {
    "T01": "sets of 5 to 1031 tasks in several creation orders and priority mixes",
    "T02": "up to 139 tasks and up to 20000 turns",
    "T03": "sets of 5 to 1031 tasks woken in several orders",
    "T05": "sets of 5 to 1031 tasks, up to 70000 references, waves of restarts",
    "T06": "sets of 5 to 1031 tasks joined in several orders",
    "T07": "up to 139 sleepers in several orders of durations",
    "T08": "17 to 2099 descriptors",
    "T09": "crowds of waiters on two mutexes",
    "T10": "crowds of waiters on two conditions",
    "T11": "long bursts through large channels",
    "T12": "many pending messages at the destruction",
    "T13": "crowds of channels in one selector",
    "M01": "every size up to 4479 bytes and sets of 17 to 1031 blocks",
    "B01": "capacities up to 100000 with 12 bursts, up to 70000 references",
    "I01": "streams of up to 210 kB in 1-1024 parts",
    "I02": "streams of up to 210 kB in 1-1024 parts",
    "I03": "5 to 211 entries",
    "I04": "streams of up to 70 kB with buffers of 17 to 65536 bytes",
    "O01": "streams of up to 210 kB in 1-1024 parts",
    "O02": "buffers of 16 to 70000 bytes with streams of up to 210 kB",
    "O03": "streams of up to 70 kB with buffers of 17 to 65536 bytes",
    "O04": "up to 70000 references to every type and chains of up to 139 layers",
    "K01": "nesting up to 40 deep and 1000 jumps in a row",
    "D01": "all kinds of arguments, up to 139 callers",
}
for _k, _v in _SCALE.items():
    CHECKS[_k]["note"] += "; large instances: " + _v
