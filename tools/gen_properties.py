#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The entries below are the source of truth."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": ["stingraykit/" + f for f in files],
         "mechanism": [{"name": n, "where": "stingraykit/" + w} for n, w in mech],
         "hook_needed": None}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

# ------------------------------------------------------------------ concurrency
prop("T01", "Condition waits: no lost wake-up, lock re-held, timeout and cancel honoured",
 "A thread that waits on a condition variable while holding its mutex is released by every later broadcast, by the expiry of its timeout, and by cancellation of the token it waits with, and never stays asleep once one of those happened. When the wait returns the mutex is held again, a wait that returned because its token was cancelled says so, and other waiters are not disturbed.",
 ["schedules"], "all interleavings of 2-3 waiters, a broadcaster and a canceller (timeouts firing at any point), up to the preemption bound",
 "Unit tests run one lucky schedule with generous sleeps; a wake-up lost between registering for cancellation and going to sleep needs a particular preemption.",
 ["thread/ConditionVariable.h", "thread/posix/PosixConditionVariable.cpp", "thread/CancellationRegistrator.h"],
 [("cancellable wait registers handler, waits, unregisters", "thread/ConditionVariable.h"), ("wait/timed wait/broadcast", "thread/posix/PosixConditionVariable.cpp")])

prop("T02", "Cancellation tokens run each handler at most once and unregister safely",
 "Cancelling a token runs the registered cancellation handler exactly once, registering on an already cancelled token tells the caller so, and once unregistration has returned the handler is not running and will never run. Every sleep or wait bound to the token ends promptly after cancellation or at the nearest of its time limits, a sleep says truthfully whether it lasted the whole time, and the token reports itself cancelled from then until it is reset.",
 ["schedules", "histories"], "all interleavings of register/unregister, sleep, cancel and reset by 2-3 threads, up to the preemption bound, for the plain, timed, joining and dummy tokens",
 "The dangerous windows are between the cancel flag being set, the handler being called and unregistration returning; tests never place a preemption there.",
 ["thread/CancellationToken.cpp", "thread/CancellationToken.h", "thread/TimedCancellationToken.cpp", "thread/JoiningCancellationToken.cpp", "thread/CancellationRegistrator.h", "thread/ICancellationToken.h"],
 [("cancel state machine under one mutex", "thread/CancellationToken.cpp"), ("timeout view of a parent token", "thread/TimedCancellationToken.cpp"), ("forwarding of handlers to both joined tokens", "thread/JoiningCancellationToken.cpp")])

prop("T03", "After a task life token is released its tasks neither run nor start",
 "When releasing a task life token returns, no task guarded by it is running (except the very task that performs the release) and none will ever start afterwards; before release every guarded attempt succeeds. Releasing from inside a guarded task does not deadlock and still prevents all later starts.",
 ["schedules"], "all interleavings of 2 executing threads and 1 releasing thread, including nested execution and release from within, up to the preemption bound",
 "Tests check the flag before and after release in one thread; the guarantee is about the overlap of the release with a task that is just starting or finishing.",
 ["thread/TaskLifeToken.cpp", "thread/TaskLifeToken.h", "FunctionToken.h", "function/CancellableFunction.h"],
 [("life-assurance counter and release wait", "thread/TaskLifeToken.cpp"), ("guarded invocation", "function/CancellableFunction.h")])

prop("T04", "A disconnected signal handler is never running and never called again",
 "Every handler connected for the whole duration of an emission is invoked exactly once by it, in connection order, with the emitted arguments. When releasing a connection returns, its handler is not running in another thread and is never invoked again, no matter which emissions are in progress; handlers may connect, disconnect (themselves included) and emit from within handlers. (Signals declared threadless promise the release guarantee only outside an emission.)",
 ["schedules", "histories"], "all interleavings of an emitter, a connector and a disconnector, and all operation sequences (connect, disconnect, emit, nested variants) up to the depth bound, for every threading and connection policy",
 "Tests disconnect from the emitting thread or sleep; the race between an emission that has already picked up a handler and its disconnection is only visible under a specific schedule.",
 ["signal/signals.h", "signal/signal_policies.h", "signal/signal_policies.cpp", "signal/signal_connector.h", "FunctionToken.h", "thread/TaskLifeToken.cpp"],
 [("handler list traversal with per-handler life tokens", "signal/signals.h"), ("threading policies", "signal/signal_policies.h")])

prop("T05", "A subscriber to a stateful signal sees the current state and every change once",
 "A subscriber that connects to a signal that publishes current state on connection first receives the state as it is at the moment of connection and then every later change exactly once and in order, so its reconstructed value always ends equal to the published one. This holds when the connection races with changes, provided the publisher changes its state under the signal's lock.",
 ["schedules", "histories"], "all interleavings of publishers and subscribers (2-3 threads, 1-3 changes) up to the preemption bound; all sequential histories up to the depth bound",
 "A lost or duplicated first notification appears only when a change falls between taking the snapshot and being added to the handler list.",
 ["signal/signals.h", "ObservableValue.h", "IObservableValue.h", "signal/signal_policies.h", "signal/ValueFromSignalObtainer.h", "signal/SignalToFuture.h"],
 [("populate-and-add under the signal mutex", "signal/signals.h"), ("set-and-notify under the same mutex", "ObservableValue.h")])

prop("T06", "Task executors run every accepted task once, in order, and survive exceptions",
 "Tasks given to an executor by one thread run in submission order, one at a time, each exactly once, on the executor's own thread; a task that throws does not prevent the later ones from running. A task whose life token was released before it started never runs, and destroying the executor returns with no task running and none lost that was promised to run.",
 ["schedules", "fault_sequences"], "all interleavings of 1-2 submitting threads, the worker and the destroying thread, with throwing tasks and released life tokens, up to the preemption bound",
 "Tests submit from one thread and sleep; lost wake-ups on submission, drain-versus-stop races and exception paths need specific schedules.",
 ["thread/ThreadTaskExecutor.cpp", "thread/ThreadTaskExecutor.h", "thread/ThreadlessTaskExecutor.cpp", "thread/ThreadlessTaskExecutor.h"],
 [("queue, condition variable and worker loop", "thread/ThreadTaskExecutor.cpp"), ("explicit draining", "thread/ThreadlessTaskExecutor.cpp")])

prop("T07", "A thread pool runs every queued task exactly once within its thread limit",
 "Every task queued to a live thread pool runs exactly once, never on more worker threads at a time than the pool's limit, and a task that throws does not take its worker down. Destroying the pool returns only when no task is running, and no task runs twice or is run after destruction. Waiting for a free worker ends when there is one, and otherwise reports whether it was cancelled or timed out; what a task owns is given up without holding up other users of the pool.",
 ["schedules", "fault_sequences"], "all interleavings of 1-2 submitters, up to 2 workers with idle timeouts firing at any point, and destruction, up to the preemption bound",
 "Worker hand-over between 'about to go idle' and 'new task arrives' is a window of a few instructions that tests do not hit.",
 ["thread/ThreadPool.cpp", "thread/ThreadPool.h"],
 [("worker hand-over and idle timeout", "thread/ThreadPool.cpp")])

prop("T08", "Timers fire on time, in order, the right number of times, never after cancel",
 "A one-shot timer callback runs exactly once and not before its delay has elapsed, periodic callbacks keep running at their period, and callbacks that fall due run in order of due time. When releasing a timer's token returns, its callback is not running and never runs again; destroying the timer stops everything, and a throwing callback does not stop the others.",
 ["schedules", "histories", "fault_sequences"], "all interleavings of the timer thread, setters and cancellers under a virtual clock where time may advance at any point, up to the preemption bound",
 "Real-time tests use long margins, so they cannot see an early firing, a missed wake-up when a nearer deadline is added, or a cancel racing with a callback.",
 ["timer/Timer.cpp", "timer/Timer.h"],
 [("deadline queue and worker loop", "timer/Timer.cpp")])

prop("T09", "A future delivers its promise's one outcome to every waiter",
 "Whatever a promise is given first - a value or an exception - is what every holder of the future gets, every waiter is released, and nothing done later changes the outcome: setting a second value, retrieving the future twice, or using an empty one is rejected with the documented error. Abandoning a promise unsatisfied releases waiters with a broken-promise error, a timed or cancelled wait reports that without disturbing the outcome, and a function run asynchronously yields exactly its result or its exception.",
 ["schedules", "histories"], "all interleavings of a setter and 1-2 waiters (plain, timed, cancellable), up to the preemption bound; all operation sequences on promise and future pairs up to the depth bound",
 "Tests set the value first or sleep; the interleaving of setting with the beginning of a wait and the combination of misuse sequences is not enumerated.",
 ["future.h", "function/AsyncFunction.h", "ExceptionPtr.h", "signal/SignalToFuture.h"],
 [("shared result state under one mutex", "future.h"), ("asynchronous call wrapper", "function/AsyncFunction.h")])

prop("T10", "Shared objects are destroyed exactly once, when the last owner is gone",
 "An object under shared ownership is destroyed exactly once, by whoever drops the last strong reference, and never while a strong reference exists; this holds for copies, moves, casts and self-owning handles made and dropped concurrently. Promoting a weak reference yields either a strong reference to the still living object or nothing, and expired weak references never come back.",
 ["schedules", "histories"], "all interleavings of 2-3 threads copying, dropping and promoting up to the preemption bound; all sequential operation sequences up to the depth bound",
 "Reference-count races need a preemption between reading and changing a counter; tests use these pointers from one thread.",
 ["shared_ptr.h", "shared_ptr.cpp", "self_counter.h", "self_counter.cpp", "ref_count.h", "unique_ptr.h", "thread/atomic/AtomicInt.h"],
 [("strong and weak counters", "shared_ptr.h"), ("conditional increment on promotion", "ref_count.h")])

prop("T11", "Threads run their function once, can be interrupted, and are joined on destroy",
 "A started thread runs its function exactly once; destroying or joining the thread object returns only after the function finished, with its effects visible. Destroying the thread object cancels the token its function was given, which ends its cancellable waits, and an exception escaping the function does not bring the process down; each thread has thread local values of its own, made on first use and destroyed once when it ends, never used after that.",
 ["schedules", "fault_sequences"], "all interleavings of the creating thread and 1-2 child threads, including throwing bodies, up to the preemption bound",
 "Tests join long after the body finished; the start-up window and interruption before the first wait are not covered.",
 ["thread/Thread.cpp", "thread/Thread.h", "thread/IThreadEngine.cpp", "thread/posix/PosixThreadEngine.cpp", "thread/posix/ThreadLocal.h", "thread/ThreadOperation.cpp"],
 [("start, interrupt and join", "thread/posix/PosixThreadEngine.cpp"), ("thread local values", "thread/posix/ThreadLocal.h")])

prop("T12", "One-time initialisation happens once and is complete before anyone uses it",
 "However many threads race to a one-time initialiser or a lazily created singleton, exactly one runs the initialisation, and everybody returns only after it is complete, seeing the same fully constructed object. Destruction, where offered, happens once, and a singleton that can be re-created is never created twice at the same time.",
 ["schedules"], "all interleavings of 2-3 racing first users (and late destruction) up to the preemption bound, each execution from a fresh process state",
 "Once a test process has touched the static state the race cannot happen again, so ordinary tests exercise at most one schedule of it.",
 ["thread/call_once.h", "thread/posix/PosixCallOnce.cpp", "Singleton.h", "SafeSingleton.h", "PhoenixSingleton.h", "lazy.h"],
 [("once flag", "thread/posix/PosixCallOnce.cpp"), ("lazy creation", "SafeSingleton.h")])

prop("T13", "Locks, semaphores, barriers and atomics keep their exclusion contract",
 "No two threads are ever inside sections guarded by the same mutex or spin lock at once, a recursive mutex is released only after as many unlocks as locks, a semaphore never admits more than its count, and a timed semaphore wait says truthfully whether it acquired. A barrier lets nobody through before the last participant arrives, then lets all through with exactly one told it was last, and can be used again; a synchronised value is always seen whole, and no update made through an atomic operation is lost.",
 ["schedules"], "all interleavings of 2-3 threads, with spurious wake-ups where the platform permits them, up to the preemption bound",
 "Exclusion failures need two threads inside a window of a few instructions; tests lock and unlock from one thread.",
 ["thread/Thread.h", "thread/posix/PosixThreadEngine.cpp", "thread/posix/PosixSemaphore.cpp", "thread/posix/PosixSemaphore.h", "thread/GenericMutexLock.h", "thread/GenericSemaphoreLock.h", "thread/Barrier.h", "thread/SyncValue.h", "thread/atomic/Spinlock.h", "thread/atomic/AtomicFlag.h", "thread/atomic/AtomicInt.h"],
 [("scoped locking", "thread/GenericMutexLock.h"), ("arrival counting", "thread/Barrier.h")])

prop("T14", "Release actions run exactly once, when the last responsible holder lets go",
 "The action behind a token, finaliser, scope guard or holder runs exactly once: when it is reset, overwritten, or its last holder goes away, and never while it is still held; a dismissed guard never runs it. A pool or map of tokens releases each token it holds exactly once, and only on explicit release or destruction, also when used by several threads.",
 ["histories", "schedules"], "all operation sequences over a handful of holders up to the depth bound; all interleavings of two threads sharing a pool up to the preemption bound",
 "Move, self-assignment, re-entrant release and exception paths multiply; tests check a few sequences.",
 ["Token.h", "FunctionToken.h", "ObjectToken.h", "MultiToken.h", "Holder.h", "Finalizer.h", "ScopeExit.h", "ActionTransaction.h", "ActionTransaction.cpp"],
 [("release on reset", "Token.h")])

prop("T15", "Pooled objects stay valid while in use and are collected exactly once after",
 "An object added to an object pool stays alive and unchanged for as long as anyone outside holds it, however often and from wherever the pool is collected meanwhile. Collection destroys exactly the objects nobody else holds, each exactly once and outside any use, and destroying the pool leaves alone those still held.",
 ["schedules", "histories"], "all interleavings of two threads adding, copying, dropping and collecting up to the preemption bound; all sequences up to the depth bound",
 "Destroying an object still in use requires a collection to race with the last release; tests are single-threaded.",
 ["ObjectPool.h"], [("unique-ownership check before collection", "ObjectPool.h")])

prop("T16", "Log records reach every attached sink once and none after detaching",
 "A record whose level passes the effective threshold (named or global) is delivered exactly once to every attached sink, with its text, level and logger name intact, and one below the threshold to none. After a sink's token is released it receives none of the records logged from then on, a sink that throws does not keep records from the others, and every sink sees each thread's records in the order they were logged.",
 ["schedules", "histories", "fault_sequences"], "all interleavings of two loggers and a detaching thread up to the preemption bound; all configuration sequences of levels and sinks up to the depth bound",
 "Tests only look at output of one thread; the detach race and level combinations are not enumerated.",
 ["log/Logger.cpp", "log/Logger.h", "log/LoggerStream.cpp", "log/LoggerStream.h", "log/LoggerMessage.cpp", "log/LoggerMessage.h"],
 [("sink list under a lock", "log/Logger.cpp")])

prop("T17", "Profilers report what took too long, exactly then, and attribute it correctly",
 "A watched activity is reported once per elapsed 30-second period, with its own name, never early and never after it has ended, and is noted at its end if and only if it took longer than its threshold, without deadlock, race or delay when it ends or the profiler is released. Durations between checkpoints are non-negative, keep their names and add up to the elapsed time even with several threads setting them, and nested profile sessions sum repeated children and give percentages of the enclosing session. A thread operation is reported exactly while the current thread is constrained from it, whatever the nesting and the other threads.",
 ["schedules", "histories", "inputs"], "all interleavings of activities with the reporting thread up to the preemption bound, in virtual time; all sequences of starts, ends, checkpoints and nested sessions up to the depth bound, over lengths around every threshold",
 "No test exercises these classes: reports are driven by real 30-second timers racing with the end of the activity.",
 ["diagnostics/AsyncProfiler.cpp", "diagnostics/AsyncProfiler.h", "diagnostics/CheckpointProfiler.cpp", "diagnostics/CheckpointProfiler.h", "diagnostics/ProfileSession.h", "diagnostics/Profiler.h", "diagnostics/SystemProfiler.cpp", "diagnostics/SystemProfiler.h", "diagnostics/ThreadTimeProfiler.h", "thread/ThreadOperation.cpp", "thread/ThreadOperation.h"],
 [("sessions ordered by their next report", "diagnostics/AsyncProfiler.cpp"), ("percentages of the enclosing session", "diagnostics/ProfileSession.h"), ("constraints kept per thread", "thread/ThreadOperation.cpp")])

# ------------------------------------------------------------------ streams
prop("I01", "A buffered byte stream delivers exactly the written bytes, in order",
 "The bytes a consumer obtains from a circular buffer or buffered stream are exactly the bytes the producer wrote, in order, without loss, duplication or alteration, for every sequence of writes, partial reads and wrap-arounds, and with writer and reader in different threads. Reported sizes equal what is really stored, clearing empties, the end-of-data mark is delivered after all data, and a full or empty buffer blocks rather than corrupts and is resumed by the other side or by cancellation.",
 ["schedules", "histories", "inputs"], "all operation sequences up to the depth bound over small capacities; all interleavings of one writer and one reader (and a canceller) up to the preemption bound",
 "Wrap-around, exact-fit and cancellation at the boundary combine in ways tests sample a few times.",
 ["io/CircularBufferBase.h", "io/MemoryCircularBuffer.h", "io/BithreadCircularBuffer.cpp", "io/BithreadCircularBuffer.h", "io/SharedCircularBuffer.h", "io/DataBuffer.h", "io/IntermediateDataBuffer.h", "io/BufferedDataMediator.h"],
 [("read and write offsets with contiguity flag", "io/CircularBufferBase.h"), ("reader/writer locks", "io/BithreadCircularBuffer.cpp"), ("full/empty condition variables", "io/SharedCircularBuffer.h")])

prop("I02", "A packet buffer delivers whole packets with their metadata, in order",
 "Every packet accepted by a packet buffer comes out once, whole, contiguous, in order and together with its own metadata, whatever the packet sizes and wrap-arounds; a packet that does not fit waits or is discarded whole according to the chosen mode, and a packet its consumer refused stays available.",
 ["schedules", "histories", "inputs"], "all packet-size sequences up to the depth bound over small capacities in both overflow modes; all interleavings of writer and reader up to the preemption bound",
 "Padding at the end of storage, discards and pending consumers interact; tests cover a couple of sizes.",
 ["io/PacketBuffer.h", "io/BithreadCircularBuffer.cpp"], [("packet queue plus padding", "io/PacketBuffer.h")])

prop("I03", "Pipes carry every byte once, in order, and report a closed end",
 "What is read from a pipe is exactly what was written to it, in order, for any sizes on both sides and with reader and writer in different threads; a reader of a pipe whose writer closed gets the remaining bytes and then a closed-pipe error (or end of data), and a cancelled read or write reports the cancellation without losing or repeating anything that was transferred.",
 ["schedules", "histories"], "all size combinations up to the bound and all interleavings of one writer, one reader and a canceller up to the preemption bound",
 "Partial transfers, close and cancel at every possible moment are a product space tests do not enumerate.",
 ["io/BithreadPipe.h", "io/BufferedPipe.cpp", "io/SynchronizedPipe.h", "io/PipeReader.cpp", "io/PipeDataSource.cpp"],
 [("rendezvous of reader and writer", "io/BithreadPipe.h"), ("buffering", "io/BufferedPipe.cpp")])

prop("I04", "A paged buffer keeps a faithful seekable window over everything pushed",
 "Reading a paged buffer from any position still inside its window yields exactly the bytes pushed at that position, whatever the push sizes relative to the page size; popping drops exactly the requested oldest bytes, seeking keeps data and position consistent, and the size it reports is the number of bytes still readable.",
 ["histories", "inputs", "schedules"], "all push/read/pop/seek sequences up to the depth bound with tiny pages; all interleavings of one pusher and one reader up to the preemption bound",
 "Page boundaries, partial pages and pops that cross them multiply; tests use one configuration.",
 ["io/PagedBuffer.cpp", "io/PagedBuffer.h"], [("page list with head and tail offsets", "io/PagedBuffer.cpp")])

prop("I05", "An asynchronous byte stream applies its operations in program order",
 "Writes issued on an asynchronous byte stream (at positions chosen by seeks, across reconfigurations) take effect on the underlying stream as if executed one after another in the order issued: what is finally stored is what a synchronous stream would hold, however writes were merged, buffered, split by a partially accepting underlying stream or delayed. A write reports exactly how much it accepted, the position and the seeks from current and end behave as on a synchronous stream, a blocking sync returns only after all earlier writes reached the stream and it was synced, and destruction writes out everything accepted. A failure of the underlying stream surfaces in the waiting sync and in every later operation.",
 ["schedules", "histories", "fault_sequences"], "all short programs of write/seek/sync/reconfigure against the worker thread and scripted failures, all interleavings up to the preemption bound",
 "Reordering and merging bugs depend on how far the background worker has got at each call.",
 ["io/AsyncByteStream.cpp", "io/AsyncByteStream.h"], [("operation queue and write merging", "io/AsyncByteStream.cpp")])

prop("I06", "Byte streams behave like a file: position, size, content and bounds",
 "Memory, chunked, buffered and offset-window byte streams behave like one ordinary file: reads return what was last written at that position, writes advance the position and extend the size, seeking from begin, current and end goes where it says, positions outside the allowed range are refused and leave the stream unchanged, and a windowed stream never touches bytes outside its window.",
 ["histories", "inputs"], "all operation sequences (read, write, seek in three modes, tell, size) up to the depth bound over tiny capacities and chunk sizes",
 "Each stream has a handful of tests; chunk-crossing operations after odd seeks are not enumerated.",
 ["io/MemoryByteStream.h", "io/ChunkedMemoryByteStream.h", "io/BufferedStream.h", "io/ByteStreamWithOffset.h", "io/ByteStreamWithOffsetAndSize.h", "io/IByteStream.h"],
 [("position arithmetic", "io/MemoryByteStream.h"), ("chunk arithmetic", "io/ChunkedMemoryByteStream.h"), ("write-back and read-ahead buffers", "io/BufferedStream.h")])

prop("I07", "Data adapters neither lose, duplicate nor reorder data",
 "Adapters between data sources and consumers - packetisers, aligners, readers, buffers, interceptors, pipes of stages - pass on exactly the bytes they receive, in order, only regrouped: packets have the configured size, aligned consumers see only whole multiples plus the final remainder where promised, and bytes a consumer did not take are offered again.",
 ["histories", "inputs", "fault_sequences"], "all sequences of chunk sizes and of consumer answers (takes nothing, takes part, takes all, cancels) up to the depth bound",
 "The interplay of partial consumption and internal regrouping is a product of small choices tests sample once or twice.",
 ["io/DataPacketer.h", "io/DataAligner.h", "io/DataUtils.h", "io/BufferedDataMediator.h", "io/BufferedDataConsumer.cpp", "io/BufferedDataSource.cpp", "io/DataSourceReader.cpp", "io/IDataSource.h", "io/ByteArrayDataSource.h", "io/ByteStreamDataSource.h", "DataPipe.h", "BandwidthReporter.h"],
 [("regrouping buffers", "io/DataPacketer.h")])

# ------------------------------------------------------------------ collections
prop("C01", "Sorted, ordered and inline containers agree with their standard models",
 "Vector-backed sorted maps and sets hold the same contents, in the same order, and give the same answers (found, inserted, removed, bounds) as the standard sorted containers after every sequence of operations; insertion-ordered ones additionally keep insertion order, and in-place vectors behave as ordinary vectors below, at and beyond their in-place capacity; a two-way map stays one-to-one. Elements are constructed and destroyed exactly once each, also when an element's copy throws.",
 ["histories", "fault_sequences"], "all operation sequences up to the depth bound over 3-4 keys, with element-copy failures at every point",
 "Tests insert in one order and look up; iterator-returning overloads, hints, range erases and duplicate keys are sampled.",
 ["collection/flat_map.h", "collection/flat_set.h", "collection/ordered_map.h", "collection/ordered_set.h", "collection/inplace_vector.h", "collection/array.h", "collection/bimap.h", "collection/IntrusiveList.h"],
 [("binary search over a vector", "collection/flat_map.h"), ("list plus index", "collection/ordered_map.h"), ("in-place storage", "collection/inplace_vector.h"), ("embedded links", "collection/IntrusiveList.h")])

prop("C02", "Lists, sets, dictionaries and multi-collections implement their contracts",
 "Every list, set, multiset, dictionary and multi-dictionary implementation answers exactly like the corresponding abstract collection after any sequence of adds, sets, removals, lookups and clears; removing or reading what is absent is reported as documented, and enumerating yields exactly the contents, in the documented order, unaffected by later changes to the collection where a copy is promised. Counted collections report an element present exactly while it has been added more often than removed.",
 ["histories"], "all operation sequences up to the depth bound over 3 keys and 2 values for each implementation",
 "Copy-on-write enumeration and duplicate handling depend on the history before the call.",
 ["collection/GenericList.h", "collection/GenericSet.h", "collection/GenericDictionary.h", "collection/SortedMultiSet.h", "collection/MultiMapDictionary.h", "collection/RefCountingMap.h", "collection/RefCountingSet.h", "collection/RefCounter.h", "collection/RefCountingValue.h", "collection/ListCaster.h", "collection/SetCaster.h", "collection/DictionaryCaster.h"],
 [("copy on write", "collection/GenericList.h"), ("reference counting", "collection/RefCountingMap.h")])

prop("C03", "Caches never exceed capacity, never serve stale values, evict by policy",
 "A cache returns for a key exactly the value last stored under it or nothing, never holds more than its capacity, and evicts in the order its policy prescribes (oldest first, least recently used, or two-queue); removing and clearing forget exactly what they name.",
 ["histories"], "all set/get/remove/clear sequences up to the depth bound over 4-5 keys and capacities 0-3, compared with a list-based reference model",
 "Eviction order depends on the whole access history; tests check one history per cache.",
 ["collection/QueueCache.h", "collection/TwoQueueCache.h", "collection/ICache.h", "collection/DefaultCacheSizeMapper.h"],
 [("queue plus index with size accounting", "collection/QueueCache.h"), ("two queues", "collection/TwoQueueCache.h")])

prop("C04", "Transactions on collections apply atomically, in isolation, or not at all",
 "Changes made in a transaction are visible inside it at once and to nobody else until commit; commit applies all of them as one change, and rollback or abandonment applies none. The difference reported to observers on commit, applied to the previous contents, gives exactly the new contents, and only one transaction can be open at a time.",
 ["histories", "schedules"], "all sequences of operations, commits, rollbacks and resets up to the depth bound over lists, sets and dictionaries, with an observer attached; all interleavings of two competing transactions up to the preemption bound",
 "Diff construction depends on the interplay of removals and re-additions of the same key within one transaction.",
 ["collection/TransactionalList.h", "collection/TransactionalSet.h", "collection/TransactionalDictionary.h", "collection/TransactionHelpers.h", "collection/DiffEntry.h"],
 [("copy, diff and swap on commit", "collection/TransactionalDictionary.h")])

prop("C05", "Replaying an observable collection's notifications reproduces its contents",
 "A subscriber that applies the notifications of an observable collection to its own copy always has exactly the collection's contents, starting from an empty copy at connection time, through any sequence of additions, updates, removals and clears, and never receives a notification for an operation that was refused or found nothing to remove; the collection otherwise behaves exactly like the plain collection it wraps, and the view of one key or one element tells its subscribers every value it takes. This also holds when the subscription races with changes made by another thread.",
 ["histories", "schedules"], "all operation sequences with subscription at every point up to the depth bound; all interleavings of one mutator and one subscriber up to the preemption bound",
 "Duplicate notifications and missing removals on overwrite depend on the history; tests check one event at a time.",
 ["collection/ObservableListWrapper.h", "collection/ObservableSetWrapper.h", "collection/ObservableDictionaryWrapper.h", "collection/MultiMapObservableDictionary.h", "collection/SortedObservableMultiSet.h", "collection/ObservableSetEntry.h", "collection/ObservableDictionaryKeyValue.h", "collection/ObservableCollectionLocker.h"],
 [("mutate then notify under one lock", "collection/ObservableDictionaryWrapper.h")])

prop("C06", "Range and sequence combinators yield exactly what their definition says",
 "Filtering, transforming, taking, dropping, reversing, concatenating, cycling, zipping, splitting, flattening, joining, casting, diffing and searching a range or enumeration yields exactly the elements the corresponding definition over a plain list yields, in the same order, whichever source kind is used, however combinators are nested, and however the range is traversed: forwards, backwards, from the end, by jumps, through copies and repeatedly; positions, distances and equality of ranges agree with the elements they stand at.",
 ["inputs", "programs"], "all input lists up to the length bound over a 3-letter alphabet, all nestings of combinators up to depth 2-3, forwards and backwards, compared with a naive list evaluation",
 "Tests apply each combinator to one or two lists; boundary lengths combined with nesting and reverse traversal are a product space.",
 ["collection/Range.h", "collection/RangeBase.h", "collection/EnumerableHelpers.h", "collection/Transformers.h", "collection/ToRange.h", "collection/KeyValueEnumerableHelpers.h", "collection/DataJoiner.h", "collection/iterators.h", "collection/ForEach.h"],
 [("lazy range adaptors", "collection/Range.h"), ("enumerator adaptors", "collection/EnumerableHelpers.h")])

prop("C07", "Comparers define consistent orders",
 "Every ready-made comparer is an equivalence or a strict ordering: equal things compare equal both ways, order is antisymmetric and transitive, three-way, less and equality views agree with one another, and composed comparers (by members, by collection, through pointers, reversed) agree with lexicographic comparison of the parts.",
 ["inputs"], "all pairs and triples of values from small domains, all compositions up to depth 2",
 "Consistency is a property of triples of inputs; tests look at single pairs.",
 ["compare/comparers.h", "compare/CollectionComparer.h", "compare/MemberListComparer.h", "compare/MemberToValueComparer.h", "compare/Comparable.h"],
 [("comparer composition", "compare/comparers.h")])

prop("C08", "Byte arrays are safe views: sharing, sub-ranges and growth stay in bounds",
 "A byte array, view or owner gives access to exactly its own range; sub-ranges alias the same memory at the right place and out-of-range requests are refused without touching memory. Copies share, explicit copies do not, resizing keeps existing content, and the storage lives as long as any view that owns it.",
 ["histories", "inputs"], "all operation sequences up to the depth bound over arrays of up to 4 bytes, including sub-range of sub-range",
 "Offset and size arithmetic must hold for every combination, not the sampled ones.",
 ["collection/ByteData.h", "collection/BytesOwner.h"], [("offset, size and bounds checks", "collection/ByteData.h")])

# ------------------------------------------------------------------ strings, numbers, formats
prop("S01", "Text encoders and decoders are exact inverses and reject malformed input",
 "Encoding bytes as hexadecimal or a UUID, or text between encodings, and decoding it back gives the original; decoding accepts exactly well-formed input and reports everything else as an error rather than returning garbage. Walking UTF-8 text forwards or backwards yields the same code points, and malformed sequences are never read past the end.",
 ["inputs"], "all byte strings up to the length bound over an alphabet of boundary bytes, all code points at encoding boundaries, all UUID shapes with one perturbation",
 "Tests decode a few literals; malformed and truncated sequences are an input space.",
 ["string/Hex.h", "UUID.cpp", "string/Unicode.cpp", "string/Utf8IteratorRange.h", "string/Utf8StringUtils.h", "locale/StringCodec.cpp", "locale/LangCode.cpp"],
 [("digit tables", "string/Hex.h"), ("sequence decoding", "string/Utf8IteratorRange.h")])

prop("S02", "Converting values to text and back gives the same value",
 "For every value of the supported types, converting it to text and parsing that text gives the value back, and the text is the canonical decimal or documented form; parsing refuses text that is not a complete, in-range representation instead of returning a wrong number.",
 ["inputs"], "all 8- and 16-bit integers, all boundary values of wider types, all strings up to length 4-5 over digits, signs and letters",
 "Overflow and malformed-input behaviour is a property of every input; tests parse a few.",
 ["string/ToString.h", "string/ToString.cpp", "string/lexical_cast.h", "string/string_stream.h", "EnumToString.cpp", "string/HumanReadableSize.cpp", "serialization/FloatString.cpp", "string/StringReader.h"],
 [("integer formatting and parsing", "string/ToString.h")])

prop("S03", "String utilities agree with their plain definitions on every input",
 "Splitting then joining with the same separator gives the original text, replacing replaces every non-overlapping occurrence left to right, trimming removes exactly the leading and trailing set, prefix and suffix tests, padding, case mapping and searching (also of transliterated text) agree with their character-by-character definitions; string views behave as the substring they denote, and multi-pattern search reports exactly the occurrences a naive search finds.",
 ["inputs"], "all strings up to the length bound over 2-3 letter alphabets for every argument position",
 "Tests use a few literals; empty pieces, adjacent separators and overlapping matches are combinations.",
 ["string/StringUtils.h", "string/StringUtils.cpp", "string/string_view.h", "string/AhoCorasick.h", "string/Comparers.h", "locale/Translit.cpp"],
 [("split result ranges", "string/StringUtils.h"), ("automaton with suffix links", "string/AhoCorasick.h")])

prop("S04", "Formatting, pattern parsing and numeric expressions follow their templates",
 "Formatting substitutes exactly the numbered arguments with their requested widths, leaves other text untouched and refuses malformed templates; parsing a text against a pattern gives every marker the text up to the first occurrence of what follows it, and succeeds exactly when the whole text is covered, no marker is empty and every value converts; formatting text values with the same pattern then reproduces the text. The expression generated for a numeric range matches exactly the decimal numerals of that range; a translated text holds exactly the translations put into it, copies are independent, and formatting, building, joining and selecting work per language with the declared fallbacks.",
 ["inputs", "histories"], "all templates, patterns and texts up to the length bound over a small alphabet with markers; all ranges of up to three digits and between boundary values; all short histories of translated texts",
 "Adjacent markers, repeated separators, unusual range ends and shared dictionaries combine in ways tests sample.",
 ["string/StringFormat.h", "string/StringParse.h", "string/RegexUtils.cpp", "string/RegexUtils.h", "string/TranslatedString.cpp", "string/TranslatedString.h", "string/TranslatedStringUtils.h"],
 [("marker scan", "string/StringFormat.h"), ("range decomposition", "string/RegexUtils.cpp")])

prop("D01", "Calendar arithmetic and time formatting agree with the proleptic calendar",
 "Converting an instant to broken-down calendar time and back gives the same instant, and the broken-down form is the one the Gregorian calendar prescribes for every day; adding, subtracting, rounding and comparing instants, durations and intervals that fit their representation obey ordinary arithmetic. Texts written in a supported date, duration, time-zone or ISO 8601 form parse back to the same value, and alternative representations (Julian days, NTP timestamps, Windows file times) convert both ways, before and after their epochs, without loss beyond their resolution. Values out of range are refused, not truncated, by time zones and ISO 8601 forms.",
 ["inputs"], "every day of a 400-year cycle plus range boundaries, all unit boundaries of durations, all format variants",
 "Tests check a handful of dates; leap-year and sign boundaries are exactly where such code fails.",
 ["time/Time.cpp", "time/Time.h", "time/BrokenDownTime.cpp", "time/NtpTimestamp.cpp", "time/TimeInterval.h", "time/TimeEngine.h", "time/ElapsedTime.cpp", "time/RemainingTime.h"],
 [("broken-down conversion", "time/Time.cpp")])

prop("N01", "Number types obey exact arithmetic",
 "Big integers, decimals, rationals and fixed-point numbers give the mathematically exact (or, for division, rounding and square roots, correctly rounded) result of every operation whose result fits, compare consistently with their values and convert to text and back unchanged; decimal overflow, a division by zero and a conversion that cannot be represented are reported. Bit masks, powers, greatest common divisors, rounding of fractions, alignment of non-negative values, numeric ranges, sizes, rectangles, averages and accumulators agree with their arithmetic definitions.",
 ["inputs", "histories"], "all operand pairs and triples over a set of boundary values for every operation, compared with wide built-in arithmetic",
 "Carries, signs and normalisation fail at digit boundaries that tests hit only by chance.",
 ["BigNum.cpp", "BigNum.h", "Decimal.cpp", "Decimal.h", "Rational.h", "fixed_point.h", "math.cpp", "math.h", "NumericRange.h", "BitwiseOperations.h", "Accumulators.h", "Average.h", "Rect.h", "Size.cpp"],
 [("digit-wise arithmetic", "BigNum.cpp"), ("mantissa and exponent alignment", "Decimal.cpp")])

prop("N02", "Reading and writing bit fields is exact at every offset and width",
 "Reading a bit field of any width at any bit offset yields exactly those bits in the requested order of significance, writing a field changes exactly those bits, reading back gives what was written, and any access beyond the data is refused. Reading a stream of fields one by one equals reading them from the concatenation.",
 ["inputs", "histories"], "all offsets and widths up to 64 over boundary byte patterns; all sequences of field widths up to the depth bound",
 "Tests read a few widths at a few offsets; errors sit at byte-crossing combinations.",
 ["BitsGetter.h", "io/BitStream.h", "BitwiseOperations.h", "IntegerBuilder.h"], [("shift and mask accumulation", "BitsGetter.h")])

prop("Z01", "Serialised data restores to an equal value or is rejected",
 "Deserialising what was serialised gives an equal value for every supported type and nesting (integers, floating-point numbers, text with any characters, bytes, optionals, pairs, variants, standard and library collections, time and locale types, composites, any, objects through pointers with their class or key), also when it is restored over an existing value, and a stored tree injected into another stream is the same tree. Data of a wrong type, length, variant index, class or missing field is reported as an error and never accepted as a partly filled value; checked integer reading refuses values out of range.",
 ["inputs", "programs"], "all values up to the size bound over boundary alphabets for each supported type and nesting depth 2, plus every wrong-type read",
 "Tests round-trip a few structures; empty, nested and boundary values are combinations.",
 ["serialization/Serialization.cpp", "serialization/Serialization.h", "serialization/Serializer.h", "serialization/IntegerDeserializer.h", "serialization/SerializationHelper.h", "serialization/Composite.h", "serialization/SettingsValue.h", "serialization/StringProxySerialization.h", "serialization/FloatString.cpp"],
 [("type-directed writers and readers", "serialization/Serialization.h")])

prop("Z02", "Compressed text decompresses to exactly the original",
 "Compressing any text with a dictionary and decompressing it with the same dictionary returns exactly the original, for every input over the dictionary's alphabet and every dictionary content, and neither direction reads or writes outside its buffers.",
 ["inputs"], "all texts up to the length bound over 2-3 letter alphabets, for dictionaries built from all short training texts",
 "Arithmetic-coder carries and context switches depend on the exact symbol sequence.",
 ["compression/ArithmeticCoder.h", "compression/ArithmeticDecoder.h", "compression/ICompressionEngine.h", "compression/ppm"],
 [("interval narrowing and renormalisation", "compression/ArithmeticCoder.h")])

prop("V01", "Optionals, variants, anys and tuples hold exactly one live value",
 "An optional, variant or type-erased value holds exactly the value last put into it; every contained object is constructed once and destroyed once through any sequence of assignment, move, swap, emplace and reset, also when a constructor throws, after which the holder is in a documented state. Access as the wrong type is refused, visiting calls the matching alternative, and comparison agrees with the contents.",
 ["histories", "fault_sequences"], "all operation sequences up to the depth bound over two holders with tracked element types, with construction failures at every point",
 "Lifetime errors need particular sequences (assign over other type, throw, reset); tests check single steps.",
 ["optional.h", "variant.h", "any.h", "any.cpp", "VariantMultidispatch.h", "Tuple.h", "TypeErasure.h", "lazy.h"],
 [("storage plus discriminator", "variant.h"), ("type-erased storage", "any.cpp")])

prop("V02", "Calling through functions and binders equals calling the target directly",
 "Calling a stored function, a bound call or a composed functor invokes the target exactly once with exactly the given and bound arguments in the right positions (a temporary forwarded to several parameters excepted), by reference where promised, returning its result or exception; copies are independent calls of the same target, and the target and bound arguments live as long as any copy and are destroyed exactly once.",
 ["programs", "inputs"], "all binder shapes up to three parameters with every placement and repetition of placeholders and values; all copy/assign/call sequences up to the depth bound",
 "The space of placements is combinatorial; tests use a few.",
 ["function/function.h", "function/bind.h", "function/functional.h", "function/FunctorInvoker.h", "function/PackArguments.h"],
 [("argument routing", "function/bind.h")])

prop("V03", "Command lines, progress aggregation and versions follow their declared shape",
 "Parsing a command line accepts exactly the declared options and arguments, stores each value in its destination and rejects the rest without side effects; aggregated progress is monotone while parts are monotone, stays within bounds and completes exactly when all parts do; version values parse and print as inverses.",
 ["inputs", "histories"], "all argument vectors up to length 4 over a small token alphabet; all progress histories up to the depth bound",
 "Combinations of missing, repeated and unknown items are an input space tests do not cover.",
 ["CmdLine.cpp", "CmdLine.h", "ProgressValue.cpp", "AggregateProgressReporter.h", "Version.cpp"],
 [("token scan", "CmdLine.cpp")])

prop("V04", "Dispatch by value, tag or dynamic type reaches exactly the registered target",
 "A value table maps and unmaps every value through its first matching entry, or its default, and fails exactly when there is none; a tag reaches exactly the target registered for it, an object exactly its own visitor overload, a class name exactly the class registered under it in the innermost context; and checked casts succeed exactly when the object has the type. A creator makes a new object of its class from the arguments it was given, or, if it is a single instance creator, always the same one.",
 ["inputs", "histories"], "all byte values over a family of generated tables; all byte tags over registries of every shape up to five; all visitor and object pairs; all registration histories up to the depth bound",
 "A value, tag or type that falls between the sampled entries is dispatched wrongly without any visible failure.",
 ["Mapper.h", "GenericEntityFactory.h", "IVisitor.h", "Creators.h", "dynamic_caster.h", "TypeInfo.h", "factory/Factory.h", "factory/Factory.cpp"],
 [("table lookup", "Mapper.h"), ("tag tree", "GenericEntityFactory.h"), ("visitor fallback", "IVisitor.h"), ("context chain", "factory/Factory.cpp")])

prop("V05", "Checks fail exactly on violation, and failures keep what, where and kind",
 "Overflow, range, null and condition checks fail exactly when the checked relation does not hold; a thrown failure is caught as exactly its type and bases and keeps its message and place through copying and rethrowing, every system error code becomes its documented kind and text, and wrapping or logging a failure loses, repeats or swallows nothing it should not.",
 ["inputs", "fault_sequences"], "all 8-bit operand pairs and all boundary pairs of wider types; all failure kinds and messages; all errno values; all nestings and sequences of guarded bodies up to the depth bound",
 "A check off by one at a type's edge, or a failure reported as another kind, is invisible until that very value or failure happens.",
 ["exception.h", "exception.cpp", "SystemException.h", "SystemException.cpp", "log/Logger.h", "diagnostics/ExternalAPIGuard.h"],
 [("CheckIntegerOverflow", "exception.h"), ("error names", "SystemException.cpp"), ("STINGRAYKIT_TRY", "log/Logger.h")])

def main():
    ids = [p["id"] for p in P]
    assert len(ids) == len(set(ids))
    for p in P:
        for f in p["anchors"]["files"]:
            if not os.path.exists("/repo/" + f): sys.exit("missing %s %s" % (p["id"], f))
        n = p["statement"].replace("e.g.", "").count(". ") + 1
        assert n <= 3, (p["id"], n)
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
main()
