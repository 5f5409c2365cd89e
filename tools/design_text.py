# Hand-written parts of DESIGN.md; assembled by gen_design.py.
INTRO = r"""# Deciding stingraykit's semantic properties by model checking

The family used for every property is model checking of **the real code**: the checked program is compiled from
/repo's working tree on every run, so there is no separate model that could drift away from it. Two explorers,
both written for this task and contained in /verif (about 2,000 lines of C++), enumerate executions exhaustively
within stated bounds; nothing is sampled.

## E1 - stateless exploration of thread interleavings (`mc/`, all `T*`, the concurrent halves of `I*`, `C04`, `C05`)

*What runs.* The sources of /repo that a property touches (`tools/deps.json` records the closure) and a small closed driver
(`harness/<ID>.cpp`: 2-4 threads, a few operations each) are compiled with `-fsanitize=thread`, but linked with our own
runtime (`mc/rt.cpp`) instead of libtsan. The runtime supplies the `__tsan_*` hooks and replaces the pthread primitives (mutex,
condition variable, semaphore, once, static-initialisation guards, thread create/join), time, and sleeping. Logical threads are
fibres; only one runs at a time and every visible operation is a scheduling point, so the runtime owns every scheduling decision.

*What is enumerated.* By depth-first search over the tree of decisions: all schedules with at most *k* deviations, where a deviation is a
preemption (switching away from a thread that could go on), a timeout of a timed wait firing while others can still run, or a spurious wake-up
(scenarios marked `Spurious`). Free switches (blocked or finished thread) are all enumerated without a cost; scenarios marked `Delay`
use delay bounding instead (every non-default choice counts). *k* is raised from 0 by iterative deepening up to the bound in the table
below; the evidence says which bound was completed for each scenario and whether the tree was exhausted at it (`all_interleavings`: no
execution was cut by the bound, hence *every* interleaving was covered). `mc::Pick` adds environment choices (which operation, which task
throws, which reader length), enumerated in the same tree. Work is divided over 8 processes by prefix.

*What is checked on every execution.* The scenario's own assertions; deadlock (nobody can run, somebody is not finished: this is how lost
wake-ups show); livelock (step horizon); happens-before data races (vector clocks; all accesses of the instrumented code); use after
free, double free, overflow of heap blocks (allocator with quarantine and shadow); leaks where marked; misuse of primitives
(unlocking a mutex of another thread, destroying a locked one or one being waited on); uncaught exceptions; determinism of the replay.

*What the environment model assumes.* Sequential consistency (data races are reported, so for race-free code this is no
restriction; relaxed atomics are not explored beyond it). `pthread_mutex_timedlock` does not time out. AsyncProfiler is stubbed out everywhere but in T17. `pthread_cancel`-based
interruption is not modelled. One-time static initialisation happens in a warm-up (over all environment picks) outside the explored
tree, except in scenarios marked `ForkEach`, where each execution starts in a fresh process.

## E2 - exhaustive enumeration of operation sequences and inputs (`seq/`, all other properties and the sequential halves)

*What runs.* The real classes, compiled with `-fsanitize=address` (`-std=gnu++14` as the project; a few large template instantiations without ASan, mode `seqfast`), driven by a harness that makes
choices with `seq::Pick(n)`; depth-first search enumerates **every** combination of choices (every sequence of operations up to the depth,
every argument from the alphabet, every position of a failure), optionally merging equal states (`seq::State`: the canonical state of
model and object was reached before with as many steps left; used only where the hash covers everything later steps can depend on).
Inputs (texts, numbers, dates) are enumerated the same way: all strings up to a length over an alphabet chosen to contain each
character class the code distinguishes, all pairs/triples of boundary values.

*What is checked.* After every step, the result of the operation, the whole observable state and any exception are compared with a
deliberately plain reference model (standard containers, `__int128` arithmetic, character-by-character definitions, day-by-day calendar).
Instance-counting payloads (`Tr`) detect double destruction, leaks and use of dead objects; fault injection (the n-th copy throws, the n-th
write of the stream below fails or is partial) is one more enumerated choice; ASan reports, hangs (20 s watchdog), aborts and
unexpected exceptions are violations. A violation is written as the list of choices and can be replayed.

## Running, replaying, evidence

`run.py <ID> [--tier quick|thorough]` builds the parts of the property from /repo (`VERIF_REPO` overrides) into `/verif/build`, runs all
scenarios, writes `evidence/<ID>.json` (per scenario: bound requested and completed, executions, steps, states, longest
decision sequence, distinct outcomes) and on a violation `out/replay_*.txt` plus the `VIOLATION property=<ID> replay=<path>` line. Exit code is 0
if everything explored held, 1 with a violation, and 2 if the check itself could not be built or run (never a pass).
Quick runs the bounds of the column *quick* and then spends what is left of a few seconds on the next bound; thorough raises them until a time
budget is used and reports what it completed. `known-findings.txt` lists findings and fixes.

There are no hooks in /repo: neither engine needs changes of the sources (everything is interposed at link time), so `hooks` in the manifest is empty.
"""

HOW = {
"T01": "Every interleaving of waiters, broadcasters, cancellers and expiring timeouts on `ConditionVariable`/`TimedWait`/token waits (1-3 waiters, one or two tokens). Deadlock = lost wake-up; mutex ownership on return is checked by the primitives' owner tracking; the returned `ConditionWaitResult` is compared with what had happened by then (total order of events).",
"T02": "Registration, cancellation, reset and unregistration of handlers on `CancellationToken`, `JoiningCancellationToken` and `TimedCancellationToken` raced against each other and against sleeps and waits. Oracle: call counters and in-call flags; \"unregistered => not inside and never again\"; sleeps end with the right answer in virtual time.",
"T03": "Release raced with 1-2 executors of guarded sections, nested guards, release from inside, `ResetToken`, `TaskLifeHolder`. Oracle: no section active when Release returns and none starts later.",
"T04": "Emission (1-2 emitters) raced with connection, disconnection (from other threads and from handlers), destruction of the signal, throwing handlers, external mutexes, handlers deferred to an executor. Oracle: per-handler call log against connection lifetime in the event order.",
"T05": "`signal` with state populator and `SignalHolder`/observable values: subscription raced with changes, two publishers, two subscribers, async handlers. Oracle: a replayed copy equals the published value and each change appears exactly once and in order after the snapshot.",
"T06": "`ThreadTaskExecutor` and `ThreadlessTaskExecutor`: submission, tokens, throwing tasks, submission from tasks, destruction. Oracle: order, thread identity, exactly-once, destruction of task objects.",
"T07": "`ThreadPool`: one-two submitters, limits 1-3, waiting queue, refusing mode, throwing tasks, idle time-outs, destruction at every moment. Oracle: number of concurrently active tasks, exactly-once, reuse.",
"T08": "`Timer`, `ExecutionDeferrer`: virtual clock; one-shot, periodic, equal deadlines, cancel at any moment including during the callback, set/release from inside, destruction. Oracle: due times in virtual microseconds and call counts.",
"T09": "`promise`/`future`/`shared` waiters, `AsyncFunction`, `SignalToFuture`: set, exception, abandon, timed and cancelled waits from 2-3 threads; plus all operation sequences on promise/future pairs (E2) against a small state machine.",
"T10": "`shared_ptr`/`weak_ptr`/`self_count_ptr`/`unique_ptr`: copies, casts, aliases, promotion, `release_if_unique` raced in three threads; E2 drives all sequences over a set of pointers side by side with `std::shared_ptr`.",
"T11": "`Thread`: start, destroy, interruption through the token, nested threads, two starters, throwing functions. Oracle: run counts, happens-before of the effects, thread limit.",
"T12": "`call_once`, `Singleton`, `SafeSingleton`, `PhoenixSingleton`: racing first uses, failing constructors, at-exit destruction. Fresh process per execution.",
"T13": "`Mutex` (recursive), `SpinLock`, `Semaphore`, `Barrier` (incl. spurious wake-ups), `SyncValue`, `Atomic`. Oracle: critical-section occupancy, counts, linearised values.",
"T14": "`Token`, `TokenPool`, `ThreadlessTokenMap`, `MultiToken`, `SharedHolder`, `ScopedHolder`, `Finalizer`, `ScopeExitInvoker`, `ActionTransaction`: racing resets and releases (E1), all short operation sequences including re-entrant release actions and throwing rollbacks (E2).",
"T15": "`ObjectPool`: drop, copy, promotion and destruction raced with collection; E2: all sequences of add/drop/collect with destructors that use the pool.",
"T16": "`Logger`: loggers raced with attaching/detaching sinks and named loggers; E2: all level settings, several sinks, throwing and re-entrant sinks, stream building, hidden duplicates, action logger.",
"T17": "activities of every length against the 30-second reporting period in virtual time, three overlapping ones in every order of starts and ends, two threads against the reporting thread with every timing of its timeouts; every sequence of checkpoints from one thread and all interleavings from two; every nesting of profile sessions; thresholds at, below and above the duration; all nestings of thread operation guards and their isolation between threads. This is the one check linked with the real AsyncProfiler.",
"I01": "`CircularBuffer` (1-4 bytes), discarding variant, `DataBuffer`/`BithreadCircularBuffer`: E2 enumerates all sequences of writes/partial reads/pops/clears against a queue; E1 all interleavings of producer, consumer, canceller, `EndOfData`, exceptions.",
"I02": "`PacketBuffer`: capacities 2-5, all sequences of packet sizes, consumer answers, discard/wait mode (E2); writer/reader/canceller interleavings (E1).",
"I03": "`BithreadPipe`/`SynchronizedPipe`/`BufferedPipe`, `PipeReader`, `DataSourceFromPipe`: all splits of reads and writes, closing, cancellation, timeouts (virtual clock).",
"I04": "`PagedBuffer` on memory pages (page 1-4 bytes): all push/read/seek/pop sequences including refused operations and page write failures; pushes and reads raced.",
"I05": "`AsyncByteStream` over a recording stream: all programs of writes/seeks/syncs/reconfigurations up to the bound in all interleavings with the worker thread, with partial writes, errors and full buffers. Oracle: a synchronous stream executing the same program.",
"I06": "Every byte-stream class over all operation sequences (read/write/seek/tell with in- and out-of-range arguments) against a plain file model; stacked streams; faults of the stream below.",
"I07": "All packet/alignment sizes, source chunkings, consumer answers (0..n, cancellation at any call) for aligners, (de)packeters, interceptors, mediators, readers, takers, skippers and stacks of two. Oracle: concatenation of bytes and of metadata.",
"C01": "All operation sequences over 3 keys for `flat_map/set`, `ordered_map/set` against std containers, incl. hints, ranges, throwing copies; `inplace_vector` around its inline capacity; `bimap`; `IntrusiveList`; `array`.",
"C02": "All operation sequences over 3 keys/values for every implementation of the abstract collections (array/linked lists, sorted/hash/flat/ordered sets and dictionaries, multi-collections, ref-counted set, casters) against a std model, incl. open enumerators while the collection changes and exceptions named in the interface.",
"C03": "All sequences of set/get/remove/clear for FIFO, LRU and two-queue caches with item counts or sizes, with an eviction handler re-entering the cache; policy models written from the definition.",
"C04": "`TransactionalDictionary/Set/List`: all sequences inside and outside transactions with two tentative openers (E2), diff applied to the old contents compared with the new; races of reader, committer and second opener (E1).",
"C05": "Every observable collection and view: all operation sequences with a subscriber joining at every point, replaying notifications into its own copy (E2); subscriber and mutator raced (E1).",
"C06": "All compositions of up to three combinators over all short lists for bidirectional, forward and generated sources; walking programs (forwards, backwards, First/Last, copies) compared with the same definition over a std::vector; enumerables and `foreach` likewise.",
"C07": "All pairs and triples over small domains for every comparer and composition of depth two: antisymmetry, transitivity, agreement of the three views, agreement with lexicographic comparison.",
"C08": "All sequences of construct/sub-range/copy/resize/append/assign over arrays of up to 4 bytes and a view graph; offsets and sizes in and out of range up to ~0; aliasing modelled byte by byte; lifetime by ASan and counters.",
"S01": "All byte strings up to a length over class-representative bytes for UTF-8/16/32, hex, UUID; every byte of every code page; walking iterators in both directions; locale strings; round trips both ways.",
"S02": "All boundary integers of every width, texts up to a length over digits/signs/letters, enums with all flag sets, floats by boundary mantissas, sizes, collections, lines; oracle: exact 128-bit parsing.",
"S03": "All texts up to a length over 2-4 letters and all patterns/positions/limits for the string utilities, `string_view`, `StringRef`, edit distance, Aho-Corasick and byte patterns; oracle: naive definitions.",
"S04": "All templates up to a length over markers, digits, percent signs and letters; all texts x patterns for `StringParse`; all range texts for `StringMatcher`/numeric ranges; translated strings.",
"D01": "Every day of 1600-2500 (and boundaries), every second of boundary days, all texts of each supported format for boundary fields, durations around carries; oracle: day-by-day calendar and 128-bit arithmetic.",
"N01": "All pairs/triples of boundary values for every operation of big integers, decimals, rationals, fixed-point, rects, ranges, averages, bit helpers; oracle: `__int128`/digit strings.",
"N02": "All offsets, widths and values for compile-time and run-time bit fields, all programs of stream reads/writes/skips up to the bound; oracle: one bit at a time.",
"Z01": "All values of small domains of every supported type and nesting serialised, restored into fresh and into used targets; then all single mutations of the stored tree (kinds, missing keys, lengths, indices) must be refused or mean what they say.",
"Z02": "All dictionaries of small weight vectors (incl. skewed ones that postpone bits) x all texts up to a length x output buffer sizes and consumers that take partially.",
"V01": "All sequences of assign/move/swap/emplace/reset/self-assignment over two holders with throwing copies at every position, instance-counted payloads; wrong-type access.",
"V02": "All binder shapes of up to three parameters with every placement and repetition of placeholders, values, nested binders (generated, three files); all copy/assign/call sequences on stored functions; functional adapters.",
"V03": "All argument vectors up to three words over the declared options; all sequences of progress updates; all versions and version texts up to a length.",
"V04": "Every value of the 8-bit domain through every table of two entries and a default over eight kinds of entry (value, range, bi/tri/quad/multi value, failure), against a linear reference; every 8-bit tag over registries of one to five entries in many orders and tag offsets; every sequence of visits over the pairs of visitor and object; every cast between the nodes of a virtual diamond; every sequence of registrations in two nested factory contexts, re-queried after each step.",
"V05": "Every pair of 8-bit operands and every pair of edge values of 16 to 64 bits through the overflow check against 128-bit arithmetic; every index and range in -3..6; 36 failure types with six messages, each thrown, described, copied and tried against 15 handler types; every errno in 0..159 against the C library's own name and text; every nesting of three wrappers around five bodies; every sequence of three logged or swallowed bodies; every sequence of five API guards.",
}

ASSUME = """T01-T13, E1 in general: see the environment model above.
`Singleton<T>`: detection of use after destruction is not claimed.
`ExecutionDeferrer`: a second concurrent Cancel returns immediately (not claimed to wait).
`ScopedHolder` with a throwing cleanup; HideDuplicatingLogs' exact counting: not claimed.
`CancellationToken::Sleep` returning early on a spurious wake-up, `PosixSemaphore` with EINTR: not claimed.
I01: an empty Push on a memory buffer throws in debug builds (by design). I03: zero-size writes with PipeReader. I07: the final remainder DataAligner drops at end of data, and exceptions thrown by consumers; the unbuffered aligner promises only relative alignment. I04: Clear of a shared buffer is refused while a write is active. I06: a buffered stream with alignment assumes full blocks except at the end and a start at position 0; a chunked stream read at its end throws. I05 has no reads.
C01: contents of vector-backed containers after a throwing element copy. C02: whether a RefCounter counts when its release callback throws; ListCaster::Contains(null); concurrent const enumeration. C03: setting a known key counts as newest; an oversized value flushes the cache; throwing value copies. C04: IsDirty of lists may be true without a net change; Set::Apply(Updated) is unsupported; throwing predicates/handlers. C05: the value in Remove notifications is the argument given (partial comparers only with RemoveWhere/RemoveAll); contents inside bulk-operation notifications. C06: Prev at the first element, wrapping of Cycle, Flatten over by-value containers, the number of functor calls. C07: fuzzy equality, collators. C08: appending to a view whose beginning vanished; sizeLimit == ~0.
N02: narrowing destination types, sign extension, little-endian non-whole-byte widths, GetRemainingBitsCount beyond the end, fill value of grown bytes. N01: AlignUp/Down of negatives or near overflow, Decimal with the minimum mantissa negated, fixed_point overflow, sums whose operands do not fit when aligned, "-.5", odd radices, open/closed Rect operations.
S01: UTF-32 surrogates, PackUtf8 of surrogates, how many bytes a malformed sequence consumes (only progress), U+FFFD as report for ISO-8859-7 AE, Translit, FromHex of signed types, abbreviated dumps, CP866 pseudographics (reported invalid). S02: bool is not parsed back from its text, "-0" for unsigned, 16-digit doubles do not round-trip, human-readable sizes with blanks, denormals (the project uses -ffast-math). S03: a split range refers to its string (no temporaries), empty split delimiters, order of non-ASCII bytes without case, duplicate/empty Aho-Corasick patterns. S04: literal percent signs in patterns, repeated or adjacent markers, "%0%", values stored before a later mismatch; widths pad with zeros also before a sign.
D01: trailing garbage/overflow in sscanf-based parsers, out-of-range calendar fields in texts are normalised, extreme TimeDuration overflow, "hh:mm" texts, order of BrokenDownTime; rounding of a fraction at once or digit by digit.
Z01: unchecked integers narrow modulo 2^n (only MakeIntegerDeserializer checks), an empty text gives the default value, optional of nullable, unknown extra properties are ignored, duplicate entries, unknown two-letter language codes, restoring TransactionalSet, contents of a target after a refused read. Z02: corrupted data, unreachable memory thresholds, unknown symbols with an empty dictionary.
V01: emplace from the holder's own value, throwing moves, constructors throwing into a never-empty variant (terminates by design); after a failure the holder keeps its value or is empty. V02: a temporary forwarded to a repeated placeholder; calling moved-from functions. V03: completion; ProgressValue overflow; optional build of Version (absent < present).
"""

FALSE_ALARMS = """While the harnesses were written, alarms in which the code was right were settled by correcting the oracle or the property's statement; what was conceded is in the list above (most entries there began as such an alarm). The notable ones: RoundFraction rounds digit by digit, which MathTest asserts, so N01 and D01 accept rounding at once or digit by digit; S01 accepts U+FFFD as the report for the one code page that maps a byte to it; C05 accepts the argument instead of the stored value in removal notifications; C06 makes no claim about First() and wrapping of endless ranges; I07 does not claim the aligner's final remainder; S04 accepts zero padding before a sign; Z01 does not claim that unknown properties are refused. None of them is listed as a finding.
"""
