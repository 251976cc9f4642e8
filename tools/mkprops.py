#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script because JSONL is unpleasant to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

prop("P01", "Asynchronous evaluation computes what sequential execution would",
 "Every value read back from a variable (element read, mapped data, copy, textual output or synchronous reduction) equals the value a sequential element-by-element execution of the traced program (including its cooperative vectors and matrix products) gives. "
 "This holds for every interleaving of the threads that trace and evaluate, every order and overlap in which the thread pool runs the work units of kernels, and every pool size, work-unit size, array size and setting of optimisation flags. "
 "Evaluating, scheduling, flushing or synchronising a variable at any moment, on any thread, never changes its value.",
 ["schedules", "programs", "configurations"],
 "all programs over the traced API, all interleavings of client threads and pool workers, all pool/block/array sizes and JIT flags",
 "tests/*.cpp run fixed programs on one client thread with the OS scheduler; they sample neither overlapping client threads nor worker orders.",
 ["src/eval.cpp", "src/llvm_ts.cpp", "src/llvm_eval.cpp", "src/var.cpp", "src/op.cpp", "src/api.cpp", "src/coop_vec.cpp", "src/llvm_coop_vec.cpp"],
 [("kernel assembly, grouping by size, launch and dependency tracking", "src/eval.cpp jitc_eval_impl/jitc_run"),
  ("task graph (barrier tasks, parents) on the thread pool", "src/llvm_ts.cpp LLVMThreadState::launch/barrier"),
  ("global state lock around tracing", "src/api.cpp lock_guard guard(state.lock)")],
 [("jitc_task", "tail of the chain of asynchronous work", "src/llvm_ts.cpp"),
  ("scheduled / side_effects", "per-thread queues of variables to evaluate", "src/internal.h ThreadState")],
 ["jit_var_read", "jit_var_data + jit_sync_thread", "jit_memcpy", "jit_var_all/any"])

prop("P02", "Writes to arrays happen in program order and never leak into other arrays",
 "Scatters, element writes, asynchronous fills and copies issued by a thread take effect as if executed one after the other in program order: a later gather, read or copy sees all earlier writes to that array and no later ones. "
 "Writing to an array never changes the value of any other variable, even when both shared storage before the write or when unevaluated expressions still refer to the old contents. "
 "Masked-out lanes write nothing. "
 "Writes that belong to an unfinished recording cannot be performed yet: every use of the written array as an operand is refused, and abandoning the recording leaves no trace of them.",
 ["programs", "schedules", "histories"],
 "all sequences of scatter/gather/write/copy/evaluate operations over aliased variables, and all schedules",
 "the existing tests cover a handful of scatter/gather sequences; aliasing x pending side effects x evaluation order is a combinatorial history space.",
 ["src/op.cpp", "src/var.cpp", "src/llvm_scatter.cpp", "src/llvm_packet.cpp", "src/eval.cpp"],
 [("copy-on-write of scatter targets and dirty tracking", "src/op.cpp jitc_var_scatter*, src/var.cpp jitc_var_write"),
  ("side effect queue", "src/eval.cpp"), ("mask stack", "src/var.cpp jitc_var_mask_apply")],
 observe=["jit_var_gather", "jit_var_read", "jit_var_write", "jit_var_data"])

prop("P03", "Atomic scatter operations lose and duplicate no update",
 "When any number of lanes and concurrently running work units update the same array through scatter-reductions, cooperative vector accumulations, counters, exchanges or compare-and-swaps, the final contents equal the initial contents combined with every active update exactly once, whatever reduction strategy is selected. "
 "The old values returned by counter, exchange and compare-and-swap operations are consistent with one serial order of all the updates of each element: a counter hands out each value once, exchanges form one chain, and exactly those compare-and-swaps that report success changed the element.",
 ["schedules", "programs"],
 "all interleavings of work units down to single machine instructions of the generated code, all operand types, operators, strategies, masks and index patterns",
 "lost updates need a preemption between the load and the store of two workers on the same element; a test run hardly ever produces one.",
 ["src/llvm_scatter.cpp", "src/llvm_packet.cpp", "src/llvm_coop_vec.cpp", "src/llvm_eval.cpp", "src/llvm_ts.cpp", "src/op.cpp"],
 [("atomicrmw / cmpxchg code generation and packet-local pre-reduction", "src/llvm_scatter.cpp"),
  ("replicated targets with a final reduction (expand mode)", "src/llvm_ts.cpp reduce_expanded, src/op.cpp jitc_var_expand")],
 observe=["target array after evaluation", "returned old values"])

prop("P04", "Parallel primitives equal their sequential definition for every split of work",
 "Fills, copies, block reductions, inclusive/exclusive/forward/reverse prefix reductions, dot products, full reductions, mask compression, bucket sorting (permutations and bucket offsets), batched matrix products and aggregation produce exactly the result of their sequential definition. "
 "This holds for every element type, operator, array and block size including sizes the block size does not divide, for in-place use where it is allowed, and however the work is split over the pool and interleaved with other work. "
 "Nothing outside the documented output range is written.",
 ["inputs", "schedules", "configurations"],
 "all types, operators, sizes, block sizes, transposes/batch layouts, pool sizes and work-unit orders",
 "tests use a few sizes on the default pool; multi-phase primitives (scan, sort, compress) depend on pool size and on the order in which blocks finish.",
 ["src/llvm_ts.cpp", "src/llvm_red.h", "src/llvm_gemm.h", "src/util.cpp", "src/var.cpp"],
 [("work splitting and two-phase algorithms", "src/llvm_ts.cpp block_reduce, block_prefix_reduce, compress, block_mkperm, batched_gemm, aggregate"),
  ("per-block kernels", "src/llvm_red.h, src/llvm_gemm.h"), ("multi-pass decomposition", "src/util.cpp")],
 observe=["jit_block_reduce", "jit_block_prefix_reduce", "jit_compress", "jit_block_mkperm", "jit_batched_gemm", "jit_aggregate", "jit_reduce", "jit_var_reduce_dot"])

prop("P05", "Live memory is never shared and freed memory not reused too early",
 "Two allocations that are live at the same time never overlap, each is at least as large as requested and suitably aligned, and its contents change only through operations addressed to it. "
 "Memory released while asynchronous work issued earlier still uses it is neither handed out for use that can overlap that work nor returned to the operating system before that work is complete, whichever threads allocate, release, migrate or flush at the same time.",
 ["schedules", "histories"],
 "all interleavings of allocate/free/migrate/flush/evaluate from several threads with running work",
 "reuse races need a worker to be delayed across several host operations; no test controls that.",
 ["src/malloc.cpp", "src/malloc.h", "src/alloc.h", "src/llvm_ts.cpp"],
 [("size-class free lists per (backend, device)", "src/malloc.cpp jitc_malloc/jitc_free"),
  ("deferred release ordered after queued work", "src/llvm_ts.cpp notify_free / src/malloc.cpp"),
  ("cache flush after synchronisation", "src/malloc.cpp jitc_flush_malloc_cache")],
 [("alloc_used / alloc_free", "live blocks and free lists", "src/internal.h State")],
 ["jit_malloc", "jit_free", "jit_malloc_migrate", "device memory contents", "aligned allocation and release at the system boundary"])

prop("P06", "Running out of memory is reported, recovered from and leaves accounts exact",
 "When the system refuses memory, the library first gives back the memory it caches and retries; if that fails too the call reports an error, and afterwards every other variable still has its value and later operations work once memory is available. "
 "The reported high-water mark of memory use is never below the memory simultaneously in use by live allocations nor above what was ever actually obtained, is unaffected by refused requests, and restarts from current use when cleared. "
 "Flushing the allocation cache returns all unused memory to the system and never any memory in use.",
 ["fault_sequences", "programs", "schedules"],
 "every position at which an allocation can be refused, in every program and schedule",
 "tests never make an allocation fail.",
 ["src/malloc.cpp", "src/llvm_memmgr.cpp", "src/eval.cpp", "src/init.cpp"],
 [("retry after flush, error report, usage counters", "src/malloc.cpp jitc_malloc"),
  ("code memory", "src/llvm_memmgr.cpp")],
 observe=["jit_malloc", "jit_malloc_watermark", "jit_flush_malloc_cache", "system allocation calls"])

prop("P07", "A failed evaluation leaves the computation state consistent",
 "If an evaluation is aborted by an error (memory exhaustion, compilation failure, an error raised while the program is recorded, or a forbidden synchronisation), the error reaches the caller, no lock stays held, and no variable takes a wrong value. "
 "Variables whose kernels were not launched stay unevaluated and can be evaluated later with the right result; pending side effects are applied at most once; memory used by work already launched stays valid until that work is done. Side effects that belong to the part of the evaluation that did not start may be dropped, but never executed in part.",
 ["fault_sequences", "schedules", "programs"],
 "every failure position inside an evaluation consisting of any number of kernels, under every schedule of the work already launched",
 "no test injects a failure in the middle of an evaluation.",
 ["src/eval.cpp", "src/init.cpp", "src/llvm_core.cpp", "src/api.cpp"],
 [("rollback of a partial evaluation", "src/eval.cpp jitc_eval_rollback"), ("locks released by scope guards", "src/lock.h")],
 observe=["jit_eval", "jit_var_eval", "jit_var_read"])

prop("P08", "Variables and memory are released exactly once, never early, never leaked",
 "A variable stays valid and readable as long as a reference to it, an unevaluated expression or a pending side effect needs it; once the last of these is gone its storage is released and its free notification is delivered exactly once. "
 "Evaluation notifications are delivered once per evaluation of a live variable, in any interleaving of threads. "
 "After all references are dropped and work is finished no variable and no memory remains in use, and the shutdown report names no leak.",
 ["histories", "schedules", "fault_sequences"],
 "all programs, interleavings and injected failures after which all user references are dropped",
 "tests check leaks only after fixed single-threaded programs.",
 ["src/var.cpp", "src/var.h", "src/eval.cpp", "src/init.cpp", "src/free_slots.h"],
 [("reference counts and recursive release", "src/var.cpp jitc_var_dec_ref/jitc_var_free"), ("variable callbacks", "src/eval.cpp, src/var.cpp jitc_var_set_callback")],
 observe=["jit_var_ref", "jit_var_set_callback", "jit_var_whos", "shutdown warnings", "system allocation calls"])

prop("P09", "Reuse of equal expressions never changes results",
 "Merging of structurally equal expressions, constant propagation and algebraic simplification are invisible: a program gives the same values with these optimisations on and off, in any combination of optimisation flags and in any scope. "
 "In particular a merged expression never confuses two different constants, sizes, types or memory states (for example reads before and after a write to the same array), and a slot reused by a new variable is never mistaken for the variable that had it before.",
 ["programs", "schedules", "configurations"],
 "all programs x optimisation flag settings x threads sharing the table of expressions",
 "tests compare fixed programs; collisions in the shared expression table depend on the history of all threads.",
 ["src/var.cpp", "src/op.cpp", "src/internal.h"],
 [("local value numbering table", "src/var.cpp jitc_var_new, src/internal.h VariableKey/LVNMap"), ("constant folding", "src/op.cpp")],
 observe=["values read back under different flags"])

prop("P10", "The in-memory kernel cache is transparent and safe to flush at any time",
 "Whether a kernel is compiled afresh, found in the in-memory cache or loaded from disk, and whether its twin is being compiled by another thread at the same time, an evaluation executes code equivalent to its own trace. "
 "Flushing the kernel cache at any moment, from any thread, terminates, never removes code that launched or about-to-be-launched work uses, and only costs recompilation. "
 "The reported counts of launches and misses equal the launches and compilations that took place.",
 ["schedules", "histories"],
 "all interleavings of evaluations and flushes on several threads",
 "a flush racing with a launch needs a preemption inside a window of a few instructions.",
 ["src/eval.cpp", "src/io.cpp", "src/internal.h", "src/llvm_ts.cpp", "src/llvm_memmgr.cpp"],
 [("kernel cache keyed by IR", "src/eval.cpp jitc_run"), ("flush", "src/io.cpp jitc_flush_kernel_cache"), ("statistics", "src/eval.cpp")],
 observe=["jit_flush_kernel_cache", "jit_launch_stats", "jit_kernel_history"])

prop("P11", "A damaged or unreadable kernel cache never produces wrong code or errors",
 "A kernel found in the on-disk cache is used only if it is complete, undamaged and was produced for exactly the program and target at hand; entries that are truncated, corrupted, stale or belong to another program with the same name hash are treated as missing, and the kernel is compiled instead. "
 "Any failure of the file system (unreadable directory, I/O error, full disk, short read or write, missing permissions) only costs a compilation: the evaluation still succeeds with the right result, and no intact entry of another program is deleted or altered.",
 ["fault_sequences", "histories"],
 "all file contents, all sequences of I/O failures at every file operation",
 "tests run on an intact file system with a private cache directory.",
 ["src/io.cpp", "src/io.h", "src/eval.cpp", "src/llvm_core.cpp"],
 [("header, checksum and key comparison on load", "src/io.cpp jitc_kernel_load"), ("temporary file, then publish", "src/io.cpp jitc_kernel_write")],
 observe=["results of evaluations", "cache directory contents", "jit_kernel_history cache_disk"])

prop("P12", "Concurrent processes and crashes never expose a partial cache entry",
 "Any number of processes may share a cache directory: at every moment each visible entry is either absent or complete, also when a process is killed at any point of writing it; an entry that is incomplete because the machine lost unsynchronised data is recognised and replaced. "
 "After a crash later processes work normally, can store and reuse the entries the crashed process was writing, and are not blocked or misled by what it left behind. "
 "An entry that was stored and not swept is found by the next process that compiles the same program.",
 ["crash_points", "schedules", "fault_sequences"],
 "every interleaving of several processes' file operations, and a crash after every file operation",
 "needs several processes and a crash at a chosen file operation.",
 ["src/io.cpp"],
 [("exclusive temporary name, link/rename publish", "src/io.cpp jitc_kernel_write"), ("stale temporary files", "src/io.cpp")],
 observe=["cache directory contents after every step", "jit_kernel_history cache_disk"])

prop("P13", "The cache sweep respects its budget, order and interval",
 "A sweep of the cache directory deletes least recently used entries first and only as many as needed to get below its size budget; it never deletes files that are not cache entries, entries in recent use while older ones suffice, or anything when the directory is within budget. "
 "Sweeps are separated by the configured interval (except that processes which claim a stale time stamp simultaneously may both sweep), simultaneous sweeps together delete no more than one would, and after a sweep that met no errors the directory is within budget. "
 "Clock jumps, files that appear or vanish meanwhile, and I/O errors never make a sweep delete more than that, fail an evaluation, or stop later sweeps for good.",
 ["histories", "fault_sequences", "schedules"],
 "all directory contents, modification times, clock jumps, I/O faults and concurrent processes",
 "tests never fill a cache directory; the sweep runs on a background thread once per interval.",
 ["src/io.cpp"],
 [("sweep thread, lock file/time stamp, LRU by modification time", "src/io.cpp jitc_cache_sweep")],
 observe=["cache directory contents before/after"])

prop("P14", "Every call returns: no deadlock, lost wake-up or unbounded wait",
 "With work that itself terminates, every API call on every thread returns within a bounded number of scheduler steps once the schedule is fair, whatever combination of evaluating, synchronising, flushing, freeing, waiting on events and shutting down runs concurrently, and whatever callbacks (logging, variable, host function) the library invokes meanwhile. "
 "All asynchronous work that was issued is eventually executed exactly once, after the work it depends on.",
 ["schedules", "histories"],
 "all interleavings of API calls of several threads, under fair scheduling",
 "a test that passes shows one schedule without deadlock.",
 ["src/lock.h", "src/eval.cpp", "src/llvm_ts.cpp", "src/init.cpp", "src/io.cpp", "src/log.cpp"],
 [("recursive state lock and its release around blocking waits", "src/lock.h lock_release"), ("task waits", "src/llvm_ts.cpp sync_stream")],
 observe=["completion of each call", "thread pool idle at the end"])

prop("P15", "Log messages reach the callback exactly once, in order, and unharmed",
 "Every message at or above the configured level is delivered to the callback exactly once with its full text, and messages of one thread arrive in the order in which they were issued, whichever threads log at the same time. "
 "A message that nothing defers has been delivered when the call that issued it returns, unless another thread is just delivering messages. Messages below the level are not delivered, and a callback that calls back into the library neither deadlocks nor loses messages. "
 "When a deferral hook is installed, messages it defers are delivered by the next flush, still exactly once and in order.",
 ["schedules", "histories"],
 "all interleavings of logging threads, level changes, callback changes and deferral decisions",
 "tests log from one thread.",
 ["src/log.cpp", "src/log.h", "src/lock.h"],
 [("queue of deferred messages delivered without the state lock", "src/log.cpp")],
 observe=["LogCallback invocations"])

prop("P16", "The instance registry is a bijection under concurrent use",
 "Within each (variant, domain) the registered pointers and their non-zero identifiers are in one-to-one correspondence at all times; identifiers are the smallest ones free, look-ups in both directions agree, and the reported bound is the largest live identifier. "
 "Registration, removal, enumeration and clearing from several threads behave as if executed one at a time; removed pointers are no longer found, registering a pointer twice and looking up an unknown one are reported as errors and change nothing. Clearing disables all instances (their identifier becomes zero) until they are removed, and instances that outlive a shutdown can still be removed.",
 ["schedules", "histories"],
 "all histories of registry operations on several threads",
 "tests register a few instances from one thread.",
 ["src/registry.cpp", "src/registry.h", "src/free_slots.h"],
 [("domain tables, reverse map and identifier free list", "src/registry.cpp")],
 observe=["jit_registry_put/remove/id/ptr/peek/id_bound/get_pointers/clear"])

prop("P17", "Events report completion exactly when the recorded work is done",
 "Once an event has been recorded, a query reports completion only after all work issued by the recording thread before it is done, waiting on it returns only then, and never waits for work issued later. "
 "A recorded event eventually completes, may be recorded again, and may be destroyed at any time; elapsed times between completed events are non-negative in the order of recording.",
 ["schedules", "histories"],
 "all interleavings of record/query/wait/destroy with running work on several threads",
 "tests poll an event on a fast pool; the windows are a few instructions wide.",
 ["src/llvm_ts.cpp", "src/init.cpp", "src/api.cpp", "src/internal.h"],
 [("event task handles", "src/llvm_ts.cpp event_*")],
 observe=["jit_event_record/query/wait/elapsed_time"])

prop("P18", "Host callbacks run once, after earlier and before later dependent work",
 "A function enqueued on the host queue runs exactly once, after all work its thread issued before has finished, and in the order in which the thread enqueued such functions; it observes the memory effects of that earlier work. "
 "Memory effects of the function are seen by work issued after it, and synchronising the thread waits for it.",
 ["schedules", "histories"],
 "all interleavings of enqueued callbacks, kernels, copies and synchronisation on several threads",
 "tests have at most one callback in an otherwise idle pool.",
 ["src/llvm_ts.cpp", "src/api.cpp"],
 [("host function tasks chained to the queue", "src/llvm_ts.cpp enqueue_host_func")],
 observe=["callback invocations and the memory they see"])

prop("P19", "Replaying a frozen function equals running it again",
 "Replaying a recording with any admissible inputs gives the outputs and performs the array updates that tracing and running the function anew on these inputs would, for other contents, sizes, evaluation states and aliasing of inputs than those recorded, and in any interleaving with other threads. "
 "Inputs the recording cannot serve, or a recording whose kernels were discarded in the meantime, are rejected by the dry run or an error instead of giving other results. "
 "Recording itself does not change the results of the recorded function, and aborting a recording leaves no trace.",
 ["programs", "inputs", "histories", "schedules"],
 "all recorded functions, all later inputs, all schedules",
 "tests replay fixed functions a few times on one thread.",
 ["src/record_ts.cpp", "src/record_ts.h", "src/llvm_ts.cpp"],
 [("operation log and slot mapping", "src/record_ts.cpp RecordThreadState"), ("width inference and dry run", "src/record_ts.cpp Recording::replay")],
 observe=["jit_freeze_replay outputs", "jit_freeze_dry_run", "contents of inputs after replay"])

prop("P20", "The kernel history lists every launch exactly once, in order",
 "While the history is enabled it contains one entry for each kernel or primitive launched, in launch order, with the right kind, width and input/output counts and with consistent cache information; fetching it returns each entry exactly once and empties it. "
 "Entries are complete when they are handed out (execution finished), clearing discards all of them, and nothing is recorded while the history is disabled.",
 ["schedules", "histories"],
 "all programs and interleavings of launching and history-fetching threads",
 "tests fetch short histories from one thread.",
 ["src/eval.cpp", "src/llvm_ts.cpp", "src/util.cpp", "src/init.cpp"],
 [("KernelHistory append/get/clear", "src/init.cpp / src/internal.h")],
 observe=["jit_kernel_history", "jit_kernel_history_clear"])

prop("P21", "Shutdown completes all work and the library can be initialised again",
 "Shutting down, lightly or fully, waits for all asynchronous work including that of other or finished threads, drops writes that were never evaluated, keeps variables still referenced usable after a light shutdown, releases all resources nobody references, and can be repeated. "
 "After it, initialising again (synchronously or asynchronously, from any number of threads at once) gives a library that behaves like a fresh one: statistics, caches, registry and identifiers carry nothing over that changes results.",
 ["histories", "schedules"],
 "all programs before and after shutdown, any number of shutdown/initialise rounds, any thread interleaving",
 "the test runner shuts down once per test from the only client thread.",
 ["src/init.cpp", "src/api.cpp", "src/llvm_core.cpp", "src/registry.cpp", "src/malloc.cpp", "src/llvm_api.cpp"],
 [("jit_init / jit_shutdown", "src/init.cpp")],
 observe=["jit_init", "jit_shutdown", "jit_has_backend", "values after re-initialisation"])

prop("P22", "One thread's control state is invisible to other threads",
 "Pending evaluations and side effects, mask stack, prefix and scope stacks, flags, current instance and recording sessions of a thread are changed by no operation of another thread, including device-wide synchronisation, cache flushes and evaluations that happen at the same time. "
 "A thread that issues a fixed program sees the same state transitions and results as if it ran alone, and a call that is refused with an error leaves the state of its own thread as it was.",
 ["schedules", "histories"],
 "all interleavings of threads using thread-local facilities with threads using global operations",
 "tests have a single client thread.",
 ["src/internal.h", "src/init.cpp", "src/eval.cpp", "src/var.cpp", "src/api.cpp"],
 [("per-thread ThreadState", "src/internal.h ThreadState, src/init.cpp jitc_init_thread_state"), ("temporary reset during synchronisation", "src/init.cpp jitc_sync_thread")],
 observe=["jit_var_mask_peek", "jit_prefix", "jit_scope", "jit_flags", "jit_var_state", "values"])

prop("P23", "Symbolic loops, conditionals and calls equal their scalar meaning",
 "A recorded loop, conditional or indirect call gives, for every lane, the values and side effects of running the control flow scalar-wise for that lane: as many iterations as its condition holds, exactly the taken branch, exactly the selected instance's function (zero and no effect where masked or null). "
 "This holds for nested constructs, with side effects inside, under all optimisation flags (state elimination, function merging, constant propagation), and equals explicit evaluation iteration by iteration or instance by instance.",
 ["programs", "inputs", "schedules", "configurations"],
 "all loop/branch/call structures, lane data, flags and schedules of the resulting work",
 "tests contain a few loops and calls; nesting x optimisation x divergence is a combinatorial space.",
 ["src/loop.cpp", "src/cond.cpp", "src/call.cpp", "src/llvm_eval.cpp", "src/eval.cpp"],
 [("loop recording and simplification", "src/loop.cpp"), ("conditionals", "src/cond.cpp"), ("call recording, merging, data block", "src/call.cpp")],
 observe=["jit_var_loop_*", "jit_var_cond_*", "jit_var_call", "jit_var_call_reduce", "jit_var_call_getter"])

prop("P24", "Conversion between half and single precision is exact or rounds to nearest",
 "Converting a half-precision value to single precision and back is the identity, and converting single to half precision rounds to nearest even with correct overflow, infinities, NaNs and subnormals.",
 ["inputs"],
 "all 2^16 half and 2^32 single precision values",
 "the test samples special values.",
 ["include/drjit-core/half.h", "tests/half.cpp"],
 [("software conversion", "include/drjit-core/half.h")], observe=["drjit::half"])

prop("P25", "GPU backends keep the same guarantees on their streams and devices",
 "On the CUDA, OptiX and Metal backends memory reuse, ordering, events and multi-device migration give the same observable guarantees as on the CPU backend.",
 ["schedules", "programs"],
 "all programs and stream interleavings on GPU devices",
 "needs GPU hardware and drivers.",
 ["src/cuda_ts.cpp", "src/cuda_core.cpp", "src/metal_ts.mm", "src/optix_core.cpp"],
 [("streams and events", "src/cuda_ts.cpp")], observe=["device results"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
