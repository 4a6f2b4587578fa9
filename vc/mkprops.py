#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
L = "libconcurrent/"
C = L + "concurrent/"
P = L + "primitives/"
I = L + "includes/"
ALLOBJ = [C + f for f in "ccsynch.c dsmsynch.c hsynch.c osci.c fc.c oyama.c sim.c lfuobject.c ccqueue.c dsmqueue.c hqueue.c osciqueue.c fcqueue.c simqueue.c msqueue.c lcrq.c ccstack.c dsmstack.c hstack.c oscistack.c fcstack.c simstack.c lfstack.c".split()]
props = []


def p(id, title, statement, over, quant, why, files, mech, observe):
    props.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
                  "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}})


TESTS = "The existing tests are benchmark runs whose final operation counters are compared: a handful of thread counts under whatever schedule the machine produces, no record of who got which result."
p("C01", "CC-Synch and DSM-Synch apply every request exactly once and atomically",
  "For any sequential function and any set of threads applying operations through CC-Synch or DSM-Synch, each request is applied exactly once, with its own argument and its own thread's identity, between its invocation and its response, and never while another request is being applied. Each operation returns exactly the result of its own request, and the results and the final state are those of some sequential order that respects real time.",
  ["schedules", "programs", "configurations"], "all interleavings of any number of threads and operations, including hand-over of the combining role and the combining limit", TESTS,
  [C + "ccsynch.c", C + "dsmsynch.c"], [("list of announced requests served by one combiner at a time", "CCSynchApplyOp, DSMSynchApplyOp"), ("completed/locked flags hand the combining role over", "CCSynchApplyOp, DSMSynchApplyOp")],
  ["results of the apply operations", "invocations of the sequential function"])
p("C02", "H-Synch is exactly-once and atomic for every number of NUMA nodes",
  "For any sequential function, any number of threads and any number of NUMA nodes (real, or fictitious as chosen by the user), H-Synch applies each request exactly once with its own argument and thread identity, never two at the same time, and returns each thread its own result. The results are those of some sequential order that respects real time.",
  ["schedules", "programs", "configurations"], "all interleavings, machine topologies, thread placements and NUMA settings", TESTS + " Only one topology (the test machine's) is ever seen.",
  [C + "hsynch.c"], [("one combining list per NUMA node plus a central lock", "HSynchApplyOp"), ("mapping of threads to nodes", "HSynchStructInit, HSynchThreadStateInit")], ["results of the apply operation", "invocations of the sequential function"])
p("C03", "Osci is exactly-once and atomic for every mix of threads and fibers",
  "For any sequential function and any number of threads and user-level fibers per thread (or threads of their own in place of the fibers), Osci applies each request exactly once with its own argument and identity, never two at the same time, and returns each fiber its own result. The results are those of some sequential order that respects real time.",
  ["schedules", "programs", "configurations"], "all interleavings of threads and fibers, all fibers-per-thread settings", TESTS,
  [C + "osci.c"], [("per-thread groups of fiber requests announced together", "OsciApplyOp")], ["results of the apply operation", "invocations of the sequential function"])
p("C04", "Flat combining and Oyama's construction are exactly-once and atomic",
  "For any sequential function and any set of threads, the flat-combining object and Oyama's object apply each request exactly once with its own argument and thread identity, never two at the same time, and return each thread its own result. The results are those of some sequential order that respects real time.",
  ["schedules", "programs"], "all interleavings of any number of threads and operations", TESTS,
  [C + "fc.c", C + "oyama.c"], [("publication list scanned by the lock holder", "FCApplyOp"), ("stack of announced requests taken by the lock holder", "OyamaApplyOp")], ["results of the apply operations", "invocations of the sequential function"])
p("C05", "PSim and the lock-free universal object are linearizable",
  "For any sequential function, the wait-free PSim object and the lock-free single-word object give each operation the result it has in one sequential order of all operations that respects real time: no operation is lost, applied twice, or given another thread's result.",
  ["schedules", "programs", "configurations"], "all interleavings, including helpers that act on stale announcements; any number of threads including more than one word of the announcement bit vector", TESTS,
  [C + "sim.c", C + "lfuobject.c", I + "tvec.h"], [("announce array, toggle bits and pooled state copies installed by CAS on a time-stamped pointer", "SimApplyOp"), ("CAS loop on the object", "LFUObjectApplyOp")], ["results of the apply operations"])
p("C06", "The blocking queues are linearizable FIFO queues",
  "For every program and schedule, each of the blocking queues (CC, DSM, H, Osci and FC) behaves as one atomic FIFO queue: a dequeue returns the oldest value, exactly the value that was enqueued, each value at most once, and reports empty only when the queue was empty at some moment of the call.",
  ["schedules", "programs", "configurations"], "all interleavings and operation mixes, in particular queues that are empty or hold one element while both ends are active", TESTS + " Values and order are never looked at.",
  [C + f for f in "ccqueue.c dsmqueue.c hqueue.c osciqueue.c fcqueue.c".split()], [("two combining instances, one per end of a linked list with a dummy node", "*QueueApplyEnqueue, *QueueApplyDequeue")], ["return values of enqueue and dequeue"])
p("C07", "The nonblocking queues are linearizable FIFO queues",
  "For every program and schedule, SimQueue, the Michael-Scott queue and LCRQ each behave as one atomic FIFO queue: a dequeue returns the oldest value, exactly the value that was enqueued, each value at most once, and reports empty only when the queue was empty at some moment of the call. For LCRQ this includes rings that fill up, are closed, wrap around and are replaced.",
  ["schedules", "programs", "configurations"], "all interleavings and operation mixes, all ring sizes", TESTS + " Values and order are never looked at, and a ring of the default size is rarely closed.",
  [C + "simqueue.c", C + "msqueue.c", C + "lcrq.c"], [("helping by toggle bits, per-end states installed by CAS", "SimQueueEnqueue, SimQueueDequeue"), ("CAS on head, tail and next", "MSQueueEnqueue, MSQueueDequeue"), ("rings of cells claimed by fetch-and-add and double-width CAS", "LCRQEnqueue, LCRQDequeue")], ["return values of enqueue and dequeue"])
p("C08", "The blocking stacks are linearizable LIFO stacks",
  "For every program and schedule, each of the blocking stacks (CC, DSM, H, Osci and FC) behaves as one atomic LIFO stack: a pop returns the value on the top, exactly as it was pushed, each pushed value at most once, and reports empty only when the stack was empty at some moment of the call.",
  ["schedules", "programs", "configurations"], "all interleavings and operation mixes", TESTS + " Values and order are never looked at.",
  [C + f for f in "ccstack.c dsmstack.c hstack.c oscistack.c fcstack.c".split()], [("sequential stack under a combining object", "*StackPush, *StackPop")], ["return values of push and pop"])
p("C09", "The nonblocking stacks are linearizable LIFO stacks",
  "For every program and schedule, SimStack and the lock-free stack each behave as one atomic LIFO stack: a pop returns the value on the top, exactly as it was pushed, each pushed value at most once, and reports empty only when the stack was empty at some moment of the call.",
  ["schedules", "programs", "configurations"], "all interleavings and operation mixes; any number of threads including more than one word of the announcement bit vector", TESTS + " Values and order are never looked at.",
  [C + "simstack.c", C + "lfstack.c"], [("helping by toggle bits, time-stamped pointer to a pooled state", "SimStackPush, SimStackPop"), ("CAS on the top pointer", "LFStackPush, LFStackPop")], ["return values of push and pop"])
p("C10", "CLH and MCS locks give mutual exclusion in FIFO order",
  "For any number of threads acquiring and releasing a CLH or an MCS lock any number of times, at most one thread is between acquisition and release. A thread that was already waiting in the queue when another thread asked for the lock gets it first.",
  ["schedules", "programs", "configurations"], "all interleavings of any number of threads and rounds, several locks used by the same thread", "The tests only run a counter benchmark; fairness is never checked.",
  [C + "clh.c", C + "mcs.c"], [("queue of waiting threads built by swap", "CLHLock, MCSLock"), ("hand-over to the successor", "CLHUnlock, MCSUnlock")], ["entry to and exit from the critical section"])
p("C11", "The hash tables behave as one atomic set of keys",
  "For every program and schedule, an insertion makes its key present, a deletion makes it absent and a search reports whether it is present, as in one atomic set of keys with unrestricted 64-bit keys and any number of buckets; operations on one key never affect another, even in the same bucket. An insertion always reports success.",
  ["schedules", "programs", "inputs"], "all interleavings, all keys (negative and extreme ones too), all bucket counts and collision patterns", "The tests insert, look up and delete random keys and look at no answer.",
  [I + "clhhash.h", C + "clhhash.c", I + "dsmhash.h", C + "dsmhash.c"], [("one CLH lock or one DSM-Synch instance per bucket", "HashInsert, HashSearch, HashDelete")], ["return values of insert, search and delete"])
p("C12", "Every blocking operation and lock acquisition eventually completes",
  "As long as all threads keep running, every operation on every blocking object, every lock acquisition and every barrier phase completes: no schedule leaves a thread waiting forever, neither with one thread per core nor with more threads than cores or several fibers per thread.",
  ["schedules", "programs", "configurations"], "all schedules that keep running every thread; lost wake-ups, missed hand-overs, missed yields of a fiber that waits for another fiber of its own thread", "A lost hand-over needs a precise interleaving that a benchmark run on an idle machine may never produce.",
  [C + f for f in "ccsynch.c dsmsynch.c hsynch.c osci.c fc.c oyama.c clh.c mcs.c".split()] + [P + "barrier.c", P + "threadtools.c"], [("spinning on a flag with a yield", "synchResched"), ("hand-over to the next waiting request", "*ApplyOp")], ["completion of operations"])
p("C13", "A combiner serves a bounded number of requests per operation",
  "No thread has to serve an unbounded number of other threads' requests inside one operation of its own: the number of requests a combiner applies during one operation is bounded by a multiple of the number of threads, however fast the other threads issue new ones.",
  ["schedules", "programs"], "all schedules, in particular those that let the other threads issue requests as fast as the combiner serves them", "A benchmark run shows only averages; starving the combiner needs an adversarial schedule.",
  [C + f for f in "ccsynch.c dsmsynch.c hsynch.c osci.c fc.c oyama.c".split()], [("help bound per combining phase", "CCSynchApplyOp, DSMSynchApplyOp, HSynchApplyOp, FCApplyOp"), ("bounded batch", "OsciApplyOp, OyamaApplyOp")], ["invocations of the sequential function by one thread within one operation"])
p("C14", "The Sim family is wait-free",
  "Every operation on PSim, SimQueue and SimStack completes within a number of its own steps that is bounded by a function of the number of threads, whatever the other threads do: run at any speed, be delayed before any step, or stop forever in the middle of their own operations. The results stay linearizable.",
  ["schedules", "crash_points", "programs"], "all schedules and all points at which other threads stop, including schedules that make every CAS of one thread fail", "Threads never stop in the benchmark runs and no adversary is at work.",
  [C + "sim.c", C + "simqueue.c", C + "simstack.c"], [("announcements are served by whoever succeeds; two attempts suffice", "SimApplyOp, SimQueueEnqueue, SimQueueDequeue, SimStackPush, SimStackPop")], ["number of steps of each operation", "results"])
p("C15", "The lock-free objects make progress when threads stop anywhere",
  "On the Michael-Scott queue, LCRQ, the lock-free stack and the lock-free universal object, some operation of the running threads always completes, even if any number of other threads stop forever at any point inside their operations. The results of the completed operations stay linearizable, and the stopped operations may complete later.",
  ["schedules", "crash_points", "programs"], "all points at which threads stop, e.g. between linking a node and swinging the tail, or after claiming a cell of a ring", "Threads never stop in the benchmark runs.",
  [C + "msqueue.c", C + "lcrq.c", C + "lfstack.c", C + "lfuobject.c"], [("helping the lagging tail", "MSQueueEnqueue, MSQueueDequeue"), ("unsafe cells and closed rings", "LCRQEnqueue, LCRQDequeue"), ("CAS loops", "LFStackPush, LFStackPop, LFUObjectApplyOp")], ["completion of operations of running threads", "results"])
p("C16", "Every object stores and returns any 64-bit value unchanged",
  "Used by one thread, every queue, stack, combining object and hash table behaves exactly like its sequential counterpart for every sequence of operations and every 64-bit value, apart from the two values the interface reserves (the guard value and the empty marker). In particular a stored value is never confused with an empty answer or with the kind of the operation.",
  ["inputs", "histories"], "all operation sequences and all values, in particular -1, 0, 1, the smallest and largest integers and neighbours of reserved values", "The benchmarks store thread numbers and ignore what they get back.",
  ALLOBJ + [I + "queue-stack.h", I + "fam.h"], [("markers for empty, removal and unused cells", "queue-stack.h")], ["return values"])
p("C17", "The barrier separates rounds",
  "With a barrier set for n threads, no thread leaves its k-th wait before all n threads have entered their k-th wait, and every thread eventually leaves, for any number of consecutive rounds, any n from one up, one or more fibers per thread, and after the barrier is set again.",
  ["schedules", "configurations", "histories"], "all interleavings of any number of rounds, in particular threads that race into the next round while others are still leaving", "The benchmarks use two rounds separated by long work.",
  [P + "barrier.c"], [("arrive and leave counters with flags", "synchBarrierWait")], ["order of entering and leaving"])
p("C18", "Start and join run every thread once with its own id, over any number of rounds",
  "Starting n threads runs the given function exactly once for each id from 0 to n-1, the argument, the thread-id query and the id of the surrounding POSIX thread are right inside it, and joining returns only after all of them have finished. Any number of rounds with different numbers of threads, fibers and functions can follow each other in one program; in each of them the library's way of waiting gives the processor to other fibers, or to other threads when they outnumber the cores.",
  ["schedules", "configurations", "histories"], "all interleavings of completion and join, all sequences of rounds with n below, at and above the number of cores and with or without fibers", "The benchmarks start and join once per process.",
  [P + "threadtools.c", P + "barrier.c"], [("thread wrappers, id in thread-local storage", "synchStartThreadsN"), ("leave barrier", "synchJoinThreadsN")], ["runs of the function", "synchGetThreadId", "return of join"])
p("C19", "Fibers run once each, keep their data, and can be created again",
  "Inside a thread, up to the declared number of fibers can be live at once; each runs its function once with its own argument, keeps its local state across yields, sees its own index, and yielding gives every live fiber a turn. A fiber can be created in place of any that has finished, a request beyond the limit is refused without harm, waiting for all returns only after all have finished, and finished fibers release their stacks.",
  ["programs", "histories", "schedules"], "all programs of creations, yields and completions in any order", "The benchmarks create all fibers at once and let them finish together.",
  [P + "uthreads.c"], [("table of contexts switched in round-robin order", "synchSpawnFiber, synchFiberYield"), ("stack of a finished fiber is released by the next one", "synchFiberYield")], ["runs of fiber functions", "synchCurrentFiberIndex", "released memory"])
p("C20", "Every placement policy maps threads to existing, distinct cores",
  "For every machine whose NUMA nodes have equally many cores and every placement policy, the preferred core of any thread is an existing core, threads get different cores as long as there are enough cores, the preferred NUMA node is the node of that core, and a started thread is bound to exactly its preferred core. The sparse policies spread consecutive threads over the NUMA nodes and the dense policy fills the nodes one after the other.",
  ["configurations", "inputs"], "all topologies (cores, nodes, with and without SMT numbering), policies and thread ids", "Only the topology of the test machine is exercised.",
  [P + "threadtools.c"], [("formulas per policy", "synchPreferredCoreOfThread, synchPreferredNumaNodeOfThread"), ("affinity call", "synchThreadPin")], ["returned core and node", "affinity mask"])
p("C21", "The memory pool hands out disjoint objects and reuses recycled ones",
  "For any sequence of allocations, recyclings and rollbacks, a pool hands out objects that lie in its memory, never overlap a live object, and keep their contents until recycled; it reuses recycled objects before taking new memory, takes back the most recent allocations on rollback, refuses only object sizes that cannot fit, and returns all its memory when destroyed.",
  ["inputs", "histories"], "all object sizes and operation sequences, including those that cross from one block to the next", "The benchmarks rarely fill a block and look at no address.",
  [P + "pool.c", I + "pool.h"], [("bump allocation in blocks plus a free list", "synchAllocObj, synchRecycleObj, synchRollback, synchDestroyPool")], ["returned addresses", "memory given back"])
p("C22", "Memory from the allocation interface is aligned, disjoint, and really freed",
  "For every size and alignment, allocated memory is aligned as asked, wholly usable, disjoint from other live memory, and given back to the system when freed with the same size, with and without NUMA support.",
  ["inputs", "histories", "configurations"], "all sizes, power-of-two alignments and sequences of allocations and releases", "No test frees aligned memory or looks at the address.",
  [P + "primitives.c"], [("NUMA allocation with manual alignment, or memalign", "synchGetMemory, synchGetAlignedMemory, synchFreeMemory")], ["addresses", "memory held by the process"])
p("C23", "No operation touches memory outside its objects",
  "For every object, configuration, number of threads and schedule, initialising and using the object accesses only the object itself, its thread states and memory the library allocated and did not release, reads no field before it is initialised, and gives each structure the alignment its instructions need. This holds with NUMA support and compact allocation on or off.",
  ["schedules", "configurations", "programs"], "all objects, thread and fiber counts, topologies, initial contents of memory, and schedules", "The tests run without memory checkers and mostly on zeroed memory.",
  ALLOBJ + [P + "pool.c"], [("allocation sizes computed from the number of threads", "*StructInit, *ThreadStateInit")], ["every load and store of the library"])
p("C24", "Reclaiming objects recycle each removed node once and reuse it",
  "For the stacks and queues that support memory reclamation, every removed node is recycled exactly once, no node is recycled while it can still be reached, and a thread that alternates insertions and removals runs forever in bounded memory. Combining objects, locks and hash look-ups need no new memory per operation.",
  ["schedules", "programs", "histories"], "all interleavings and arbitrarily long alternating programs", "The benchmarks never look at memory use; a leak of one node per operation goes unnoticed.",
  [C + f for f in "ccqueue.c dsmqueue.c hqueue.c osciqueue.c fcqueue.c ccstack.c dsmstack.c hstack.c oscistack.c fcstack.c simstack.c".split()] + [P + "pool.c"], [("recycling into the caller's pool", "*Dequeue, *Pop"), ("shared free lists of SimStack", "SimStackPush, SimStackPop")], ["objects taken from and returned to pools"])
p("C25", "Several objects in one program do not influence each other",
  "When a program uses several objects at the same time, of the same or of different kinds, each behaves as if it were alone: operations on one never change, delay forever or corrupt another, even when the same threads use all of them alternately.",
  ["schedules", "programs", "configurations"], "all combinations of objects, programs that use them alternately, and schedules", "Each benchmark uses a single object.",
  ALLOBJ, [("per-object and per-thread state; pools in thread-local storage", "*StructInit, *ThreadStateInit")], ["results of the operations on each object"])
p("C26", "The atomic primitives behave as their documented atomic operations",
  "Each primitive (compare-and-swap of 32, 64 and 128 bits and of pointers, swap, fetch-and-add of 32 and 64 bits, test-and-set of a bit) acts as one indivisible operation with its documented effect and result on every operand, touches no other memory, and all of them agree when used on the same word concurrently. The emulated variants behave the same.",
  ["inputs", "schedules", "configurations"], "all operand values, all interleavings on shared words, native and emulated build options", "The tests use few operand values and only the native variants.",
  [P + "primitives.c", I + "primitives.h"], [("compiler builtins, inline assembly, CAS loops", "_CAS32, _CAS64, _CAS128, _CASPTR, _SWAP, _FAA32, _FAA64, _BitTAS64")], ["returned values", "memory contents"])
p("C27", "Random numbers stay in range and are reproducible",
  "For every seed and range the random generators return numbers inside the documented range, reach all parts of a small range, give the same sequence for the same seed in the same thread regardless of other threads, and never get stuck on one value or with a bit that does not change.",
  ["inputs", "histories"], "all seeds and ranges", "The benchmarks use one seed per thread and never check a number.",
  [P + "fastrand.c"], [("linear congruential and multiply-with-carry generators per thread", "fastrand.c")], ["returned numbers"])
p("C28", "Backoff stays between its bounds and follows its schedule",
  "For every setting, the backoff of a thread starts at its base, grows at every failure and shrinks at every success by the configured factor, never leaves the range between base and cap, and is back at the base after a reset. Delaying terminates.",
  ["inputs", "histories"], "all base, cap and shift settings and all sequences of calls", "The benchmarks never look at the backoff value.",
  [P + "backoff.c", I + "backoff.h"], [("shift and add with clamping", "synchBackoffIncrease, synchBackoffReduce, synchBackoffDelay")], ["value of the backoff"])
p("C29", "Toggle vectors act as vectors of independent bits of any length",
  "For every number of threads, each toggle-vector operation (set, reverse, test, and, or, xor, negate, copy, add, first set bit, count) has the same effect as on a plain array of bits, on one word or many, and does not disturb bits of other threads; concurrent toggling by atomic addition changes exactly the bit of the thread that toggles.",
  ["inputs", "schedules", "configurations"], "all lengths up to several machine words, all bit patterns, all interleavings of concurrent toggles", "The tests use at most a few threads, so a single word.",
  [I + "tvec.h", P + "primitives.c"], [("word-wise bit operations", "tvec.h"), ("fetch-and-add of plus or minus one bit", "TVEC_ATOMIC_ADD_BANK")], ["bits of the vector"])
p("C30", "Benchmark arguments are parsed as documented",
  "For every command line of documented options, in short or long form and any order, each documented setting gets exactly its given value and all others their defaults, the number of threads and operations per thread follow from them, and an unknown or malformed option, or a setting that leaves no threads, ends with the help text and an exit status that says so instead of a crash.",
  ["inputs"], "all combinations, orders and spellings of the documented options and values", "The tests pass a few fixed command lines.",
  [P + "bench_args.c"], [("option table and defaults", "synchParseArguments")], ["parsed settings", "exit status"])
p("C31", "The statistics count exactly the executed atomic operations",
  "In the debug build the reported totals of executed and failed compare-and-swap, swap and fetch-and-add operations equal the numbers that the threads between them executed, for any number of threads and any mix, and the object-level counters (requests served, combining rounds) agree with the operations applied. The millisecond clock never runs backwards and measures real time.",
  ["schedules", "programs", "inputs"], "all programs and interleavings", "The validation scripts use the counters to judge the objects, but nothing judges the counters.",
  [P + "stats.c", P + "primitives.c"], [("thread-local counters summed when a thread stops", "synchStartCPUCounters, synchStopCPUCounters, synchPrintStats")], ["printed statistics"])
p("C32", "Build-time options never change the behaviour of an object",
  "With NUMA support, compact allocation, node recycling, backoff, emulated fetch-and-add or swap, or debugging turned on or off, on every processor model the library distinguishes, and under the compiler optimisations its Makefile asks for, each object keeps its sequential specification, atomicity and progress.",
  ["configurations", "schedules", "programs"], "all build options and processor models, all objects, programs and schedules", "The tests build one configuration (and a debug one) on one processor model.",
  ALLOBJ + [L + "config.h", P + "primitives.c", P + "pool.c"], [("conditional compilation", "config.h"), ("processor-model dependent layout", "synchGetMachineModel")], ["results of operations in each configuration"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in props:
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q) + "\n")
