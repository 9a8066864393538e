#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))
TP = ["src/thread_pool.cpp", "include/muu/thread_pool.h"]
CPP, H = TP
RING = ("per-worker ring buffer of task slots (front/back counters modulo capacity)", "which slots hold not-yet-started tasks", CPP + ": thread_pool_queue")
MON = ("busy counter of the monitor", "tasks enqueued and not yet retired", CPP + ": thread_pool_monitor")
POOLTESTS = "tests/thread_pool.cpp runs a handful of pools with whatever interleaving the OS happens to produce"

prop("T01", "Every enqueued task runs exactly once",
 "For a pool that stays alive until it has been waited on, every callable handed to enqueue() by any thread is invoked exactly once: none is lost, none runs twice, however producers, workers, waiters and wake-ups interleave. This holds when the internal queues are full, wrap around or are contended, and when the same slots are reused many times.",
 ["schedules", "histories", "configurations", "fault_sequences"],
 "all interleavings of any number of producer threads and workers, all worker counts and queue sizes, with spurious wake-ups, failed try-locks, stalled threads and late timers",
 POOLTESTS + "; a lost or doubled task needs a specific preemption between producer, home worker and stealing worker or a specific wrap position",
 TP, [("slot acquire/publish under the queue lock", CPP + ": thread_pool_queue::acquire/unlock"), ("pop by move under the queue lock", CPP + ": try_pop/pop/pop_front_task"), ("worker loop with stealing", CPP + ": thread_pool_worker")],
 [RING, MON], ["thread_pool::enqueue", "thread_pool::wait", "the callables themselves"])

prop("T02", "wait() returns only after all earlier work is finished and released",
 "When wait() returns, every task whose enqueue() or for_each() call happened before that wait() began has finished executing and its stored callable has been destroyed. Everything those tasks wrote is visible to the waiting thread without further synchronisation.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of producers, workers and one or more waiting threads, including waits that overlap further submissions by other threads",
 "the tests check a counter after one wait on a lightly loaded pool; the window between a task being popped, finishing, being destroyed and being counted is a few instructions wide",
 TP, [("count before the slot becomes poppable, uncount after the task is gone", CPP + ": thread_pool_queue::unlock, thread_pool_worker loop"), ("predicate loop under the monitor mutex", CPP + ": thread_pool_monitor::wait")],
 [MON], ["thread_pool::wait return", "plain memory written by tasks", "destructors of callables"])

prop("T03", "wait() always returns once the tasks are finite",
 "If every enqueued task terminates and no further tasks keep arriving, every thread blocked in wait() is released: no wake-up is lost, no waiter is forgotten among several, and wait() on an idle pool returns immediately. Repeated submit-and-wait rounds never wedge the pool.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of several waiters, producers and workers, with spurious wake-ups, slow threads and clock jumps; stated as progress within a bounded number of steps once faults stop",
 "a hang depends on the last task finishing between a waiter's check and its sleep, or on several simultaneous waiters; the tests use one waiter and one lucky schedule",
 TP, [("broadcast to all waiters when the busy counter reaches zero", CPP + ": thread_pool_monitor::decrement"), ("check under the same mutex that guards the counter", CPP + ": thread_pool_monitor::wait")],
 [MON], ["thread_pool::wait"])

prop("T04", "Destroying a pool finishes running tasks, discards the rest, and is prompt",
 "Destroying a pool lets tasks that are already executing finish, does not start any task afterwards, and destroys the callable of every task that never started exactly once without invoking it. The destructor always returns, within a bounded delay beyond the running tasks, and when it has returned no worker thread, task execution or memory of the pool remains.",
 ["schedules", "histories", "crash_points", "fault_sequences"],
 "destruction at every possible point of a history of submissions, running tasks, idle polling and queue states, under all interleavings with workers and with stalled threads, spurious wake-ups and clock jumps",
 "the tests deliberately sleep before destroying a pool because immediate destruction hung on their CI; they never check what happens to queued tasks",
 TP, [("terminate flags checked before every pop", CPP + ": thread_pool_queue::terminate/pop/try_pop, thread_pool_worker::terminate"), ("join then drain", CPP + ": ~thread_pool_impl, ~thread_pool_queue"), ("idle poll timeout of 100 ms bounds a missed wake-up", CPP + ": thread_pool_queue::pop")],
 [RING, ("terminated flags", "queue or worker must not start further tasks", CPP)], ["~thread_pool", "callable invocations and destructors", "live threads and allocations"])

prop("T05", "for_each over an integer range visits every value exactly once",
 "for_each(start, end, task) eventually invokes the task for every value of the half-open range exactly once and for no other value, whatever the integer or enum type, range size relative to the number of workers and free queue space, and however other threads use the pool concurrently. An empty range invokes nothing, and a range given backwards visits the values from end+1 up to and including start, each once.",
 ["schedules", "inputs", "configurations", "fault_sequences"],
 "all ranges, integer types, worker counts and queue sizes, under all interleavings with concurrent producers and with contended or nearly full queues (which select between single-queue and per-batch placement)",
 "the tests use a few sizes on an idle pool; which queue is chosen, whether the batches share a queue and whether placement must wait depend on the schedule",
 TP, [("batch splitting", H + ": batch_size_generator, for_each, enqueue_for_each_batch"), ("shared-queue reservation with fallback", CPP + ": lock_multiple; " + H + ": no_available_queue")],
 [RING], ["values received by the task", "thread_pool::wait"])

prop("T06", "for_each over a collection visits every element exactly once",
 "for_each over iterators or a collection eventually invokes the task exactly once with a reference to each element itself (never a copy) and with nothing else, for contiguous, random-access and node-based collections, however other threads use the pool concurrently. An empty or inverted iterator range invokes nothing, and the task handed in by the caller may be a temporary.",
 ["schedules", "inputs", "configurations", "fault_sequences"],
 "all collection kinds and sizes, worker counts and queue sizes, under all interleavings with concurrent producers and contended queues",
 "the tests visit a couple of small vectors on an idle pool",
 TP, [("iterator batch splitting", H + ": for_each_with_iterators, enqueue_for_each_with_iterators_batch"), ("task captured by value or address", H + ": batched_task, wrap_batched_task"), ("shared-queue reservation with fallback", CPP + ": lock_multiple")],
 [RING], ["element addresses received by the task", "thread_pool::wait"])

prop("T07", "A for_each batch index names one batch, run by one thread at a time",
 "The batch index passed to a for_each task is always smaller than the pool's worker count, and two invocations of the same for_each call that receive the same index never run concurrently and always see each other's effects in order, so per-batch scratch data needs no locking. Each batch covers a contiguous, in-order stretch of the range, batches differ in size by at most one, and there are never more batches than workers.",
 ["schedules", "inputs", "configurations"],
 "all ranges and collections, worker counts, queue sizes and interleavings, several for_each calls in flight",
 "the tests only bound the index; whether two threads ever share one concurrently is a property of the schedule",
 TP, [("one task per batch carrying its index", H + ": enqueue_for_each_batch, enqueue_for_each_with_iterators_batch"), ("distribution of the remainder", H + ": batch_size_generator")],
 [], ["the index argument", "plain per-batch memory written by the task"])

prop("T08", "Worker indices are in range and never shared by concurrently running tasks",
 "A task that accepts the worker index receives a value smaller than workers(); two tasks of the same pool that receive the same index never overlap in time and are ordered, so per-worker scratch data needs no locking. workers() itself is the requested count (or the hardware concurrency when zero was requested), limited to the documented maximum, and constant.",
 ["schedules", "histories", "configurations"],
 "all interleavings, worker counts (including zero and excessive requests), hardware concurrency values including an unknown one, and task mixes including stolen tasks",
 "the tests do not look at the worker index under load; stolen tasks are where a wrong index would appear",
 TP, [("index captured once per worker thread and passed on invocation", CPP + ": thread_pool_worker; " + H + ": thread_pool_task::operator()"), ("worker count clamp", CPP + ": calc_thread_pool_workers")],
 [], ["the worker index argument", "thread_pool::workers"])

prop("T09", "Back-pressure: capacity() tasks never block, excess waits, none is dropped",
 "A pool whose workers are all busy accepts capacity() further tasks from any mix of threads without blocking; it never holds more than capacity() unstarted tasks, and an enqueue beyond that waits and then succeeds once space appears instead of dropping or overwriting work. capacity() is at least the requested queue size (up to the documented memory cap) and constant.",
 ["schedules", "histories", "configurations", "fault_sequences"],
 "all queue sizes, worker counts and fill levels, including exactly full and one more, under all interleavings of several blocked producers with failing try-locks and stalled threads",
 "the tests never fill a queue; exactness of the limit and release of blocked producers depend on schedule and configuration",
 TP, [("full check under the queue lock, retry with back-off", CPP + ": thread_pool_impl::lock"), ("per-queue capacity", CPP + ": calc_thread_pool_worker_queue_size, thread_pool_queue::full/available")],
 [RING], ["thread_pool::enqueue return time", "thread_pool::capacity", "set of started tasks"])

prop("T10", "A queued task starts promptly while any worker is idle",
 "Whenever a task is queued and at least one worker has nothing to do, the task starts within a bounded delay of a few idle-poll intervals, no matter in which internal queue it landed, which workers are busy or blocked in long tasks, and whether a wake-up was missed or the wall clock was changed. Consequently tasks that wait for each other across workers do not deadlock as long as there are enough workers.",
 ["schedules", "histories", "fault_sequences"],
 "all placements of tasks to queues and patterns of busy workers, with lost-race wake-ups, late timers, failing try-locks and jumps of the wall clock; the bound is in simulated time",
 "the tests never keep one worker busy while feeding its queue, and cannot provoke a missed wake-up or a clock change",
 TP, [("stealing scan over all queues before blocking", CPP + ": thread_pool_worker loop"), ("bounded blocking on the own queue against the steady clock", CPP + ": thread_pool_queue::pop")],
 [RING], ["task start times on the simulated clock"])

prop("T11", "Pool operations are data-race-free and publish memory both ways",
 "Using one pool from many threads at once (enqueue, for_each, wait, workers, capacity) involves no data race inside the library. Whatever a thread wrote before submitting a task is visible to that task, and whatever a task wrote is visible to any thread that has since returned from wait() or from the pool's destructor.",
 ["schedules", "histories"],
 "all interleavings of all public operations; decided with vector clocks on every memory access, so a missing ordering is seen even in runs where the values come out right",
 "the tests run on strongly ordered hardware without a race detector and check only final counters",
 TP, [("queue and monitor mutexes", CPP + ": thread_pool_queue, thread_pool_monitor"), ("atomic queue cursor and terminate flags", CPP + ": next_queue, terminated_"), ("thread start and join", CPP + ": thread_pool_worker")],
 [], ["plain memory exchanged between submitters, tasks and waiters", "the library's own memory"])

prop("T12", "A pool that cannot be constructed reports it and leaves nothing behind",
 "If memory runs out or a worker thread cannot be started at any point of constructing a pool, the constructor throws a standard exception and returns control. It does not hang, crash or terminate, every worker it had already started is stopped and joined, and all memory is released, so a later construction can succeed.",
 ["fault_sequences", "crash_points", "configurations", "schedules"],
 "failure at each allocation and each thread creation, for all worker counts and names, under all interleavings with the workers already started",
 "the tests cannot make thread creation or allocation fail",
 TP + ["include/muu/aligned_alloc.h"], [("unwinding guards", CPP + ": thread_pool_impl constructor (unwind_queues, unwind_workers), muu_impl_thread_pool_create")],
 [], ["exceptions from the constructor", "live threads and allocations afterwards"])

prop("T13", "Moving a pool transfers its workers and tasks without losing either",
 "Move-constructing or move-assigning a pool, even with tasks queued or running, transfers workers and tasks intact: they go on to run exactly once under the new owner, and the source reports zero workers and capacity and can be destroyed or assigned to. A pool that is assigned over is shut down like a destroyed one, so its threads and memory do not leak, and self-assignment leaves a pool usable.",
 ["schedules", "histories"],
 "all sequences of moves, submissions, waits and destructions over several pool objects, at every point of the tasks' execution",
 "the tests move a freshly made idle pool once",
 TP, [("ownership of one storage pointer", H + ": thread_pool move constructor, move assignment, destructor")],
 [], ["workers()/capacity() of source and target", "task executions", "live threads and allocations"])

prop("T14", "Submitted callables keep their value, alignment and lifetime through the queue",
 "Whatever kind of callable is submitted (captureless, trivially copyable up to the in-place size, move-only, copy-only, default-construct-and-assign, over-aligned, function pointer or reference, large lvalue), the invocation sees exactly the captured value at a correctly aligned address. Every stored object that is constructed is destroyed exactly once, is never invoked, moved from or destroyed outside its lifetime, and a large lvalue is invoked in place rather than copied.",
 ["inputs", "histories", "schedules"],
 "all callable categories and payload sizes, at every slot position including wrap-around, whether popped by the home worker, stolen, or discarded at destruction",
 "the tests submit a few lambdas; relocation of a stored object between slot and worker happens at points they cannot observe",
 TP, [("type-erased store/move/invoke/destroy", H + ": thread_pool_task, thread_pool_task_traits_*"), ("relocation out of the slot", CPP + ": pop_front_task")],
 [RING], ["constructors, destructors and invocations of instrumented callables"])

prop("T15", "Pools are independent of each other",
 "Several pools in one process, created, used and destroyed concurrently from different threads, behave as if each were alone: tasks run on the pool they were submitted to, waiting on or destroying one pool neither waits for nor disturbs the tasks of another, and a task of one pool may submit to and wait on another pool. The first pools may be created simultaneously.",
 ["schedules", "histories"],
 "all interleavings of creating, using and destroying several pools from several threads, including cross-pool submission and a pool whose tasks never finish while another is waited on",
 "the tests use pools one after another from one thread",
 TP, [("no shared mutable state between pools; thread-safe first use of the cached limits", CPP + ": calc_thread_pool_workers, thread_pool_storage")],
 [], ["task executions per pool", "wait() and destructor return"])

prop("S01", "spin_mutex gives mutual exclusion and publishes the critical section",
 "At most one thread is ever between a successful lock() or try_lock() and its unlock(), and everything written before an unlock() is visible after the next successful lock() or try_lock(), on any conforming memory model. This also holds when it is used through the standard lock wrappers.",
 ["schedules", "histories"],
 "all interleavings of any number of threads mixing lock, try_lock and unlock, with the C++ memory model's ordering checked by vector clocks rather than by the host CPU",
 "there is no spin_mutex test; on strongly ordered hardware a weakened ordering is invisible",
 ["include/muu/spin_mutex.h"], [("atomic exchange with acquire, store with release", "include/muu/spin_mutex.h: lock/try_lock/unlock")],
 [("held_", "whether the mutex is owned", "include/muu/spin_mutex.h")], ["plain memory guarded by the mutex"])

prop("S02", "spin_mutex makes progress and try_lock() tells the truth without blocking",
 "A thread in lock() acquires the mutex in bounded time once the holder releases it and others stop taking it, after any number of contended attempts. try_lock() never waits for the holder: it returns true exactly when it took the mutex, succeeds when nobody holds or is taking it, fails while somebody else holds it, and a failed attempt neither releases nor blocks the mutex.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of lockers, try-lockers and holders that are stalled or yield inside the critical section; stated as bounded steps once the holder has left",
 "there is no spin_mutex test; starvation and false answers depend on the interleaving",
 ["include/muu/spin_mutex.h"], [("test-and-test-and-set with back-off", "include/muu/spin_mutex.h: lock"), ("load before exchange", "include/muu/spin_mutex.h: try_lock")],
 [("held_", "whether the mutex is owned", "include/muu/spin_mutex.h")], ["return values and return times of lock/try_lock"])

prop("U01", "Generated UUIDs are well-formed and unique across threads",
 "Every UUID produced by generate() is a version 4, standard-variant, non-nil UUID, and no two UUIDs generated in a process are equal, however many threads generate concurrently, start and exit. This does not depend on every single word from the system's entropy source being distinct, and generation involves no data race. Every bit that is not fixed by version and variant varies between generated UUIDs. Named UUIDs made concurrently from the same namespace and name are identical (version 5).",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of generating threads, thread exits and restarts, with the entropy source returning repeated individual words to different threads",
 "the tests generate a few UUIDs on one thread with real entropy, where a collision of the seed is never seen",
 ["src/uuid.cpp", "include/muu/uuid.h"], [("per-thread engine seeded from the entropy source", "src/uuid.cpp: random_device, mersenne_twister"), ("version and variant bits", "src/uuid.cpp: muu_impl_uuid_generate")],
 [], ["uuid values, version(), variant()"])

prop("G01", "Scope guards run exactly when their scope is left the right way",
 "A scope_guard runs its callable exactly once when its scope is left by any route, a scope_fail exactly once if and only if the scope is left by an exception, a scope_success exactly once if and only if it is not, and none of them after dismiss(). This stays true for guards created and destroyed inside destructors that run during the unwinding of another exception, for nested and rethrown exceptions, and independently per thread.",
 ["fault_sequences", "schedules", "programs"],
 "exceptions injected at arbitrary points of arbitrarily nested scopes, callbacks and unwinding destructors, on several threads whose unwinding interleaves",
 "the tests throw once from a flat scope on one thread",
 ["include/muu/scope_guard.h"], [("count of in-flight exceptions recorded at construction and compared at destruction", "include/muu/scope_guard.h: scope_guard_storage, ~scope_guard_base")],
 [], ["callable invocations"])

prop("E01", "emplacement_array conserves elements when construction or allocation fails",
 "If constructing an element throws, the array is exactly as it was before the attempt; if storage cannot be allocated, construction throws a standard exception instead of yielding an unusable array. Over any history of emplacing, clearing, moving and assigning, every element constructed is destroyed exactly once, in its proper place and alignment, and elements keep their addresses, order and values until cleared or destroyed.",
 ["fault_sequences", "histories", "inputs"],
 "exceptions at any element construction and failure of any allocation, at any point of any history of operations over several arrays",
 "there is no emplacement_array test; allocation failure cannot be provoked by one",
 ["include/muu/emplacement_array.h", "include/muu/aligned_alloc.h"], [("count incremented only after a throwing construction succeeded", "include/muu/emplacement_array.h: emplace_back, emplace_back_with"), ("release on destruction and move", "include/muu/emplacement_array.h: release, operator=")],
 [], ["element constructors and destructors", "size(), capacity(), data()"])

prop("B01", "blob keeps its bytes, size and alignment, also when memory runs out",
 "Over any history of construction, copying, moving, assigning and resizing, a blob holds exactly the bytes a simple byte-vector model predicts (the common prefix survives a resize), at an address with at least the requested alignment, and a moved-from blob is empty. If an allocation fails, the operation throws a standard exception and the blob is left valid with its previous contents; no memory is leaked, lost or released twice, and self-assignment is harmless.",
 ["fault_sequences", "histories", "inputs"],
 "failure of any allocation at any point of any history of operations over several blobs of any size and alignment",
 "the tests run one fixed history and cannot make an allocation fail",
 ["include/muu/blob.h", "include/muu/aligned_alloc.h"], [("assign/resize reallocation logic", "include/muu/blob.h: assign, resize"), ("aligned allocation", "include/muu/aligned_alloc.h")],
 [("size_, alignment_, data_", "the blob's contents", "include/muu/blob.h")], ["size(), data(), alignment()", "exceptions", "live allocations"])

prop("P01", "string_param keeps its text through moves, trims and failing conversions",
 "A string_param stands for the text it was given, whatever the encoding and form it came in (views, pointers, strings it may keep, strings it must not touch), over any history of moving, assigning, trimming and converting: every conversion yields exactly that text in the requested encoding, and empty(), bool and owning() agree with it. A conversion that runs out of memory throws a standard exception and leaves the text as it was. An owning string_param does not depend on its source any more, nothing is leaked, released twice or read after its release, and ill-formed text is memory-safe too.",
 ["fault_sequences", "histories", "inputs"],
 "failure of any allocation at any point of any history of operations over several string_params of all source encodings and forms, with texts from every length class of UTF-8 and UTF-16 and with ill-formed ones; texts whose byte order the library cannot tell (no byte order mark and more zero low bytes than zero high bytes) are excluded",
 "the tests construct five forms of constant strings and read them back without converting, moving or trimming, and cannot make an allocation fail",
 ["src/string_param.cpp", "include/muu/string_param.h", "include/muu/strings.h", "include/muu/utf_decode.h"], [("lazy conversion in place", "src/string_param.cpp: get_view, move_into_string"), ("move and destruction by mode", "src/string_param.cpp: operator=, destroy, visit"), ("transcoding", "include/muu/strings.h: utf_transcode")],
 [("mode_, storage_", "kind and value of the payload", "src/string_param.cpp")], ["views and strings it converts to", "owning(), empty()", "exceptions", "live allocations"])

prop("C01", "Threads that use their own objects do not disturb each other",
 "Hashing, naming, parsing and printing UUIDs, converting and trimming text, string_param, the containers, scope guards and vector, rotation and geometry computations can be carried out by any number of threads at once, each on its own objects or all reading the same constant objects (other than a string_param, which converts in place). This involves no data race, and every thread gets exactly what the same calls give when one thread makes them alone, in whatever order and however often they are made, also after a call that ran out of memory.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of threads performing any mix of these operations on their own or on shared constant objects, and all histories of earlier operations in the process; results are compared with those of the same calls made sequentially, and every memory access is judged by vector clocks",
 "the tests run on one thread, where scratch buffers and caches shared behind the interface cannot be noticed",
 ["src/hashing.cpp", "src/uuid.cpp", "src/string_param.cpp", "src/vector_types_common.cpp", "include/muu/hashing.h", "include/muu/strings.h", "include/muu/uuid.h"], [("no state shared between objects", "src/hashing.cpp, src/uuid.cpp: muu_impl_uuid_generate_named, include/muu/strings.h: utf_transcode")],
 [], ["digests, uuids, texts, containers' contents, numbers computed"])

prop("O01", "Printing to a failing output device fails like any stream output",
 "When the device behind an output stream rejects, truncates or throws at any point while a library object is printed to it, the failure shows up in the stream exactly as for built-in types: as stream state, or as an exception if the stream has exceptions enabled. The program is never terminated, the characters the device did accept are a prefix of the text an unfailing device would have received, and nothing more is printed once the stream has failed.",
 ["fault_sequences", "inputs"],
 "device failure of each kind at each character position, with exceptions enabled or not, for every printable type, narrow and wide, with an unbuffered or a buffered device, streams used again after a failure",
 "the tests print into string streams, which never fail",
 ["src/vector_types_common.cpp", "src/stream_printer.h", "src/uuid.cpp", "src/hashing.cpp", "include/muu/string_param.h", "include/muu/half.h"], [("piecewise output through the stream", "src/stream_printer.h: stream_printer"), ("preformatted buffers", "src/uuid.cpp: print; src/hashing.cpp")],
 [], ["characters accepted by the stream buffer", "rdstate()", "exceptions"])

prop("O02", "Printing leaves the stream's formatting as it found it",
 "After a vector, matrix, quaternion, angle or geometric object has been printed, the stream's format flags, precision and fill character are what they were before and the field width is zero, whether the output succeeded, failed part-way or threw. Concurrent printing on different streams by different threads does not interfere: each stream receives exactly its own text.",
 ["fault_sequences", "schedules", "inputs"],
 "all combinations of prior formatting state, device failure of each kind at each position, every printable object type, and interleavings of threads printing to their own streams",
 "the tests check the text from default-formatted string streams only",
 ["src/vector_types_common.cpp", "src/stream_printer.h"], [("state saver restored by destructor", "src/stream_printer.h: stream_saver")],
 [], ["flags(), precision(), fill(), width() of the stream", "text received by each device"])

prop("A01", "Accumulated results do not depend on how the samples were split and merged",
 "Samples of any arithmetic type may be fed to any number of accumulators, by any threads, one by one or in ranges, in any order and partition (for example one accumulator per worker, per batch or per task), and the accumulators merged in any order, as a chain or as a tree, also when some are empty. The result counts every sample, has the smallest and largest of them as min() and max(), and the sum: exactly for integers, and with compensated accuracy for floating-point types, that is within a few roundings of the result plus second-order terms, so that small samples are not lost among large ones. An accumulator that saw no sample is empty(), has a sum of zero, and merging it changes nothing.",
 ["schedules", "inputs", "histories"],
 "all interleavings of workers taking samples and merging partial results, all partitions, orders and merge shapes, for integer, half, float and double samples including ones of very different magnitudes and extreme integers",
 "the tests feed one fixed list of samples to a single accumulator; which samples meet in which accumulator, and in which order partial results are merged, is up to the schedule in any parallel use",
 ["include/muu/accumulator.h", "include/muu/thread_pool.h"], [("compensated summation and merging", "include/muu/accumulator.h: kahan_accumulator, accumulator::add")],
 [("min, max, sum, compensation and count", "state of an accumulator", "include/muu/accumulator.h")], ["sample_count(), empty(), sum(), min(), max()"])

prop("H01", "Hashing a stream that arrives in pieces gives the digest of the whole stream",
 "However a stream of bytes is cut into pieces, empty and single-byte ones included, whatever form the pieces have (bytes, ranges, narrow or wide strings, the latter standing for their UTF-8 form), whichever threads take turns in feeding it, and however often the consumer goes back to a copy taken earlier and continues from there, SHA-1 and FNV-1a (32, 64, 128 bits) yield the standard digest of the bytes consumed. Buffers may be reused as soon as a call returns. A finished SHA-1 digest is final, copies taken before or after finishing continue independently, and hashers of different streams never influence each other.",
 ["histories", "fault_sequences", "schedules", "inputs"],
 "all partitions of streams of every length, with interruptions at any point after which the consumer resumes from a checkpoint, streams handed from thread to thread, and many streams being hashed at once; wide text whose byte order the library cannot tell (a code unit with a zero low byte, or a leading byte order mark in either byte order) is excluded",
 "the tests hash a few short strings in one call; partial blocks, padding boundaries, restarts and hand-overs are not sampled",
 ["include/muu/hashing.h", "src/hashing.cpp"], [("block buffering and padding", "src/hashing.cpp: sha1::add, finish"), ("running state", "include/muu/hashing.h: fnv1a")],
 [("block, processed byte count, digest", "what has been consumed so far", "include/muu/hashing.h")], ["value() after finish()"])

prop("D01", "UTF decoding follows the stream unit by unit and reports damage where it occurs",
 "Fed one code unit at a time, the UTF-8 and UTF-16 decoders yield exactly the encoded code points, each as its last unit arrives, and in between say that more input is needed. On a damaged stream they report an error at the first unit that cannot continue a well-formed sequence (overlong forms, surrogates and values above U+10FFFF included) and consume that unit; after clear_error() decoding resumes with the next unit. A decoder copied at any point continues from there. utf_decode() of well-formed text visits the same code points with their positions and lengths, forwards or backwards, until it is told to stop; of damaged text, walking forwards, it visits what the decoder yields and, one by one and in their places, the units of each sequence that the decoder rejects.",
 ["fault_sequences", "histories", "inputs"],
 "all streams of code points over a transport that loses, repeats, flips or replaces any unit, truncates, or breaks down so that the consumer goes back to its last checkpoint; utf_decode() on text whose byte order is not in doubt (no UTF-16 or UTF-32 unit with a zero low byte, no leading byte order mark in either byte order)",
 "the tests decode sample strings; damage at an arbitrary unit, and what the decoder makes of the units after it, is not sampled",
 ["include/muu/utf8_decoder.h", "include/muu/utf16_decoder.h", "include/muu/utf_decode.h"], [("decoder state machine", "include/muu/utf8_decoder.h; include/muu/utf16_decoder.h"), ("walk over whole text", "include/muu/utf_decode.h")],
 [("state and partial code point", "what has been consumed of the current sequence", "include/muu/utf8_decoder.h")], ["error(), has_value(), needs_more_input(), value()", "arguments of the visitor"])

prop("U02", "A UUID sent as text arrives unchanged or is refused",
 "Printing a UUID gives its canonical 8-4-4-4-12 form, and parsing that text, narrow or wide and in any encoding, gives the same UUID back. Parsing accepts exactly the text with 32 hexadecimal digits of either case, with hyphens and ASCII whitespace only between octets, and around it whitespace and at most one pair of braces; anything else, such as text damaged in transit, is refused and never read beyond its end. UUIDs named in a name space are the version 5 UUIDs that RFC 4122 prescribes, for every party that computes them. The fields, the 128-bit integer, version(), variant() and the hash agree with the bytes, and comparison is the lexicographical order of the bytes.",
 ["fault_sequences", "histories", "inputs"],
 "all UUIDs (random, named, arbitrary bytes) and name data, all textual variants, all encodings, over a transport that loses, doubles, swaps, flips or replaces any code unit or truncates the text; text whose byte order is in doubt and text that ends in the middle of a code point is excluded",
 "the tests parse and print sample strings; which of the many ways a text can be damaged is accepted is not sampled",
 ["include/muu/uuid.h", "src/uuid.cpp"], [("parser state machine", "include/muu/uuid.h: uuid_parser"), ("formatter and naming", "src/uuid.cpp: print, muu_impl_uuid_generate_named"), ("ordering and fields", "include/muu/uuid.h: compare, uuid_slicer")],
 [("bytes", "the UUID in network byte order", "include/muu/uuid.h")], ["parse()", "operator<<", "compare()", "std::hash", "field accessors"])

prop("X01", "Text relayed between parties in different encodings stays the same text",
 "Well-formed text that is passed from thread to thread through any chain of the five encodings with transcode() arrives as the same code points, whatever its length and content, NUL and supplementary-plane characters included; text that already has the wanted type is handed through as a view of the same buffer. trim(), trim_left() and trim_right() give the part of the very same buffer without leading and/or trailing white space. The source is never modified. When memory runs out transcode() throws a standard exception and leaves nothing behind, and repeating it later succeeds with the same result. Ill-formed text never leads outside its buffer.",
 ["schedules", "fault_sequences", "histories", "inputs"],
 "all texts, all chains of encodings and trims along a route of peer threads, an allocation failing at any point of a conversion, and interleavings of peers; ill-formed text is only required to be handled memory-safely, and text whose byte order the library cannot tell (a 16 or 32 bit unit with a zero low byte, a leading byte order mark in either byte order) is excluded",
 "the tests convert sample strings once; that conversions compose, survive failing allocations and do not disturb each other is not sampled",
 ["include/muu/strings.h", "include/muu/utf_decode.h", "include/muu/utf8_decoder.h", "include/muu/utf16_decoder.h", "include/muu/impl/unicode_char32_t.h"], [("conversion by decoding and appending", "include/muu/strings.h: transcode, utf_transcode"), ("trimming by walking code points from either end", "include/muu/strings.h: trim_left, trim_right")],
 [], ["the string or view returned", "exceptions", "live allocations"])

prop("L01", "A tagged_ptr keeps its pointer and its tag apart",
 "Over any history of construction, reset, assignment, copying and changes of the pointer, the tag or single tag bits, a tagged_ptr returns exactly the pointer and the tag last stored in it: changing one never alters the other. This holds for any pointer with the promised alignment (null and function pointers included) and any tag that fits (negative integers, enums and small objects included), with or without spare pointer bits; can_store_tag() accepts exactly the tags that fit. Equal contents compare equal. Used in a std::atomic by several threads, both parts change together: a lock-free stack with version tags neither loses nor duplicates a node, and a single tag bit is claimed by one thread at a time.",
 ["schedules", "histories", "inputs"],
 "all histories of operations over alignments from 1 to 4096, tags of integer, enum and trivial object types, 64, 57 and 48 significant pointer bits; all interleavings of threads that push, pop, claim bits and replace the pointer through compare-exchange, including spuriously failing ones and stalled threads",
 "the tests store a few sample pointers and tags, on one thread",
 ["include/muu/tagged_ptr.h"], [("packing and masking", "include/muu/tagged_ptr.h: pack_both, set_ptr, set_tag"), ("trivially copyable word", "include/muu/tagged_ptr.h: tptr_base")],
 [("bits_", "pointer and tag in one word", "include/muu/tagged_ptr.h")], ["ptr()", "tag()", "tag_bit()", "comparison", "nodes taken from the stack"])

def na(id, title, statement, files, mech, why):
    prop(id, title, statement, ["inputs"], "all inputs; no schedule, clock, fault or second party is involved", why, files, [mech])
na("N05", "Vector, matrix, quaternion and angle algebra obeys its laws",
 "Products, inverses, transposes, normalisation and conversions between rotations satisfy their algebraic identities up to rounding for all finite inputs.",
 ["include/muu/vector.h", "include/muu/matrix.h", "include/muu/quaternion.h", "include/muu/euler_angles.h", "include/muu/axis_angle.h"], ("closed-form arithmetic", "include/muu/matrix.h"), "tests sample values")
na("N06", "Geometric containment, collision and merge tests are consistent",
 "Collision is symmetric, containment implies collision, and merged volumes contain their parts, for all shapes.",
 ["include/muu/bounding_box.h", "include/muu/bounding_sphere.h", "include/muu/oriented_bounding_box.h", "include/muu/triangle.h", "include/muu/plane.h", "include/muu/ray.h", "include/muu/line_segment.h"], ("pairwise tests", "include/muu/impl"), "tests sample shapes")
na("N07", "half conversions and arithmetic are IEEE binary16",
 "Conversion from and to binary32 is correctly rounded, and every half value round-trips.",
 ["include/muu/half.h"], ("conversion tables and intrinsics", "include/muu/half.h"), "tests sample values")
na("N08", "Bit operations match their definitions for every width",
 "Population count, leading and trailing counts, bit ceil/floor, byte reversal and packing agree with their definitions on all values of every unsigned type, at compile time and at run time.",
 ["include/muu/bit.h", "include/muu/popcount.h", "include/muu/countl.h", "include/muu/countr.h", "include/muu/byte_reverse.h"], ("intrinsics with portable fallbacks", "include/muu/bit.h"), "tests sample values")
na("N09", "span, static_array, fixed_string and integral_range behave as sequences",
 "Element access, slicing, concatenation and iteration agree with the corresponding standard sequence model and never leave the underlying storage.",
 ["include/muu/span.h", "include/muu/static_array.h", "include/muu/fixed_string.h", "include/muu/integral_range.h"], ("pointer and index arithmetic", "include/muu/span.h"), "tests sample values")
na("N10", "compressed_pair, function_view and typedefs preserve their payload",
 "Both members of a pair and the referenced callable are returned exactly as stored.",
 ["include/muu/compressed_pair.h", "include/muu/function_view.h", "include/muu/strong_typedef.h"], ("empty-base storage", "include/muu/compressed_pair.h"), "tests sample values")
na("N12", "Packed unit vectors stay within their documented error",
 "A packed unit vector decodes to a unit vector within its documented angular error of the one it was made from.",
 ["include/muu/packed_unit_vector.h"], ("octahedral packing", "include/muu/packed_unit_vector.h"), "tests sample values")
na("N13", "Preprocessor, type-trait and metaprogramming facilities agree with the language",
 "Type traits, type lists and type names agree with the type system for every type.",
 ["include/muu/meta.h", "include/muu/type_list.h", "include/muu/type_name.h"], ("compile-time computation", "include/muu/meta.h"), "decided at compile time; no execution is involved")

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
