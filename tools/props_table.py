NOTE = ("All paths of the analysed functions in the compiler's MIR are covered (loops to a fixpoint, callees inlined), for all inputs. "
        "It is a static argument modulo the trusted models of std, the hash table and the async runtime listed in the evidence; "
        "numeric reasoning is limited to syntactic facts on normalised terms, and the analysis fails closed when it cannot complete.")
PATHS = "path-sensitive dataflow on rustc MIR (callees, closures and coroutines inlined)"

P("C01", "An expired entry is never served",
  "Once an entry's time-to-live, time-to-idle or per-entry expiration deadline has passed on the cache's clock, no read operation of any cache type returns its value, reports it as present, yields it from iteration or passes it to a caller's closure as the current value. "
  "This holds whether or not maintenance has run since the deadline passed.",
  ["histories", "inputs", "configurations", "schedules"],
  "every read entry point (get, contains_key, get_with family, entry API, compute family, iteration) of the sync, segmented and async caches, every combination of configured expirations, every path",
  "Tests advance a mock clock for a few configurations on a few entry points; they do not cover each entry point times each kind of deadline, nor paths taken only when a concurrent call changes the map.",
  READ_FILES, [("visibility tests on the looked-up entry", "get_with_hash / do_get_with_hash / scanning_get in base_cache.rs"),
               ("deadline comparison", "is_expired_entry_wo, is_expired_entry_ao, is_expired_by_per_entry_ttl in base_cache.rs")],
  PATHS + ": an obligation per exposure of a looked-up value")
P("C02", "invalidate_all hides every older entry at once",
  "After invalidate_all returns, no read operation exposes an entry that was written before the call, in any segment, before and after maintenance physically removes it. No other operation makes entries invisible this way.",
  ["histories", "schedules"],
  "every read entry point of every cache type after invalidate_all, every path; every segment",
  "Tests call invalidate_all once on a small cache and read with get/contains_key; other entry points, all segments and entries in arbitrary pending states are not sampled.",
  READ_FILES, [("invalidation time stamp", "valid_after in base_cache.rs"), ("per-segment broadcast", "src/sync/segment.rs invalidate_all")],
  PATHS + ": exposure obligations plus a must-effect rule per segment")
P("C03", "invalidate_entries_if removes every matching older entry",
  "After invalidate_entries_if returns Ok, no read exposes an entry that was written before the call and for which the predicate answers true, neither while the background scan is pending, running, interrupted, nor after it finished. "
  "When the feature was not enabled in the builder the call returns an error and nothing is registered.",
  ["histories", "schedules", "inputs"],
  "every read entry point, every batch boundary of the scan, every interleaving of a read with the end of a scan, every segment",
  "Tests register a predicate on a handful of entries, far below one scan batch, single-threaded.",
  BASE + ["src/sync/invalidator.rs", "src/future/invalidator.rs", "src/sync/segment.rs"],
  [("predicate registry and scan", "invalidator.rs apply_predicates / scan_and_invalidate / invalidate"), ("read filter", "base_cache.rs get")],
  PATHS + ": exposure obligations; scan-completeness and registration rules")
P("C04", "A live entry is never hidden",
  "A read reports a key absent, or runs the caller's initializer, only if the key is not in the map or the entry found there was shown to be expired, invalidated, or rejected by the caller's own replacement predicate. A read never reports presence for a key that is not in the map.",
  ["inputs", "configurations", "histories"],
  "every read entry point, every path that ends in absent or in running the initializer after the lookup found an entry",
  "Tests cannot enumerate the combinations of configured deadlines and entry metadata under which a wrong comparison hides a live entry.",
  READ_FILES, [("visibility tests", "base_cache.rs get_with_hash / do_get_with_hash"), ("post-init re-check", "get_or_insert_with_hash_and_fun")],
  PATHS + ": an obligation per absent outcome")
P("C05", "Reads refresh idleness only, and only reads that should",
  "Every read that exposes an entry's value moves its last-access time to the current time and reports the hit to the eviction policy; contains_key and iteration do neither. "
  "No read changes an entry's write time, and an entry's access time and the invalidation time stamp never move backwards under any interleaving.",
  ["inputs", "schedules", "histories"],
  "every read entry point and every path on which it exposes a value; every interleaving of two updates of one time stamp",
  "Tests observe idle expiration for get on one thread; the monotonicity of the stamp under concurrent updates and the quietness of every other entry point is not sampled.",
  READ_FILES + ["src/common/time/instant.rs", "src/common/time/atomic_time.rs"],
  [("access recording", "record_read_op and set_last_accessed in base_cache.rs"), ("monotone atomic instant", "AtomicInstant::set_instant")],
  PATHS + " plus an atomic read-modify-write decision analysis")

WRITE_FILES = ["src/sync/cache.rs", "src/future/cache.rs", "src/sync/segment.rs"] + BASE
P("C06", "Every change of the map reaches the eviction policy exactly once",
  "Every insertion, update or removal that a caller's operation makes in the cache is reported to the eviction policy (the write log) exactly once, with the key, entry, weights and generation of that change; nothing is reported for a change that was not made. "
  "For the async cache this also holds when the operation's future is dropped at any await point: the report is kept and delivered by a later operation.",
  ["histories", "schedules", "crash_points", "inputs"],
  "every path of every mutating operation of the three cache types, every await point at which its future may be dropped",
  "Tests cancel one insert at two hand-picked points; a lost or duplicated report shows only as slowly drifting counters, leaked entries or an entry that is never evicted.",
  WRITE_FILES, [("write log", "schedule_write_op / do_insert_with_hash / do_remove_entry"), ("cancellation guard", "CancelGuard and retry_interrupted_ops in future/base_cache.rs")],
  PATHS + ": ordered effect traces per path, including drop of the future at each await point")
P("C07", "Each value a caller removes reaches the listener once, with the right cause",
  "When an eviction listener is set, every update, invalidate or remove that takes a value out of the cache calls the listener exactly once with that key and value. The cause is Expired if the value's time-to-live or time-to-idle had already passed, otherwise Replaced for an update (or Explicit if the value had already been invalidated) and Explicit for a removal. The listener is not called when nothing was removed.",
  ["histories", "inputs", "configurations"],
  "every path of every mutating operation of the three cache types, every state of the old value",
  "Tests compare the notifications of short scripted histories; combinations of pending expiry, pending invalidation and operation kind are sampled sparsely.",
  WRITE_FILES + ["src/notification/notifier.rs", "src/future/notifier.rs"],
  [("notification on update and removal", "notify_upsert / notify_invalidate in base_cache.rs"), ("listener call", "RemovalNotifier::notify")],
  PATHS + ": a must-call-exactly-once rule with arguments and cause tied to established facts")
P("C08", "Notifications for one key are delivered in the order of its changes",
  "With an eviction listener set, operations on one key change the map and notify the listener as one step with respect to each other, so the listener sees the removals of a key in the order in which they happened. No operation can deadlock with maintenance over that mutual exclusion, and it is always released, also when an async operation's future is dropped.",
  ["schedules", "histories", "crash_points"],
  "every interleaving of writers of one key and maintenance, every exit of every mutating operation",
  "Two threads must collide on one key within microseconds for a missing lock to show; tests do not explore schedules.",
  WRITE_FILES + ["src/sync/key_lock.rs", "src/future/key_lock.rs"], [("per-key lock", "maybe_key_lock / key_lock.rs")],
  PATHS + ": lock-state (typestate) analysis over the effect traces")
P("C12", "The Expiry policy is asked exactly when documented and obeyed",
  "With an Expiry policy set, creating an entry asks expire_after_create, replacing one asks expire_after_update, and a recording read asks expire_after_read, each once, with that key, value, the time of the operation and the remaining lifetime; the returned duration, counted from that time, becomes the entry's new deadline, None clears it. Nothing else asks the policy or changes an entry's deadline.",
  ["inputs", "configurations", "histories"],
  "every path of every read and write entry point of the three cache types, all combinations of configured deadlines",
  "Tests use one Expiry implementation with fixed durations; combinations with TTL/TTI, unchanged durations, None results and each entry point are not covered.",
  WRITE_FILES + ["src/policy.rs"], [("callbacks", "expire_after_create / expire_after_read_or_update in base_cache.rs"), ("deadline", "EntryInfo::set_expiration_time")],
  PATHS + ": a must-call rule with argument and result provenance")
P("C25", "insert stores what it was given; remove returns what it took out",
  "After insert(k, v) returns on a cache with non-zero capacity, the map holds v under k with its lifetime counted from the call, whether k was new or existing. remove(k) returns the value it removed, and None exactly when it removed nothing.",
  ["inputs", "histories", "schedules"],
  "every path of insert, invalidate and remove of the three cache types, including the table's internal retries",
  "Tests insert and remove a few keys; the retry paths of the lock-free table, in which the insertion closure runs although the value is in the end replaced, are not exercised.",
  WRITE_FILES, [("insertion", "do_insert_with_hash in base_cache.rs"), ("removal", "do_remove / invalidate_with_hash")],
  PATHS + ": provenance of the stored and returned terms")

MAINT_FILES = BASE + ["src/common/concurrent/deques.rs", "src/common/deque.rs", "src/common/timer_wheel.rs", "src/sync/invalidator.rs", "src/future/invalidator.rs"]
P("C09", "Maintenance removes entries only for a valid reason, and tells the listener why",
  "Maintenance (run by run_pending_tasks or on behalf of any operation) removes an entry from the map only if, at that moment and judged on the very entry being removed, it is expired, invalidated (by time stamp or by a registered predicate), chosen by the size-based eviction policy, or was rejected by admission. "
  "Each such removal calls the listener, if one is set, exactly once with that key and value and the matching cause (Expired, Explicit, or Size). An entry concurrently replaced since it was selected is not removed.",
  ["histories", "schedules", "configurations"],
  "every removal made in a maintenance run of the sync and async caches, every interleaving with a concurrent update of the selected entry",
  "The window between selecting a victim and removing it is a few instructions; tests run maintenance single-threaded on a mock clock.",
  MAINT_FILES, [("conditional removals", "evict_lru_entries / remove_expired_ao / remove_expired_wo / evict_expired_entries_using_timers / handle_upsert in base_cache.rs"), ("listener calls", "notify_single_removal")],
  PATHS + ": per-removal obligations over the effect traces of every maintenance function")
P("C10", "Maintenance bookkeeping matches the map",
  "Every write operation applied by maintenance and every entry removed by it changes the bookkeeping by exactly that entry: an admitted entry that leaves the map is marked not admitted, unlinked from the access-order and write-order queues and the timer wheel, and its policy weight is taken off the counters once; "
  "an entry that is admitted is marked, linked into the queues that the configuration requires, and its weight is added once; an update replaces the old weight by the new one. No stale write operation changes the bookkeeping of a newer one. Every processed read moves its entry to the back of the access-order queue and re-times it in the timer wheel exactly when the read changed its expiry.",
  ["histories", "schedules", "configurations", "inputs"],
  "every path of every maintenance function of the sync and async caches in the configurations with and without weigher, TTL, TTI, Expiry and predicates",
  "entry_count and weighted_size drift by one per faulty path; tests compare them after short scripted histories.",
  MAINT_FILES, [("write-op application", "apply_writes / handle_upsert / handle_admit / handle_remove in base_cache.rs"), ("queues", "Deques"), ("counters", "EvictionCounters")],
  PATHS + ": an effect-accounting analysis per processed entry")

P("C11", "The eviction policy admits and evicts what it promises to",
  "TinyLFU: an entry that fits within the capacity is always admitted; one whose own weight exceeds the maximum capacity is always rejected; otherwise it is admitted only if its estimated popularity is strictly higher than the summed popularity of the least-recently-used victims that maintenance would evict for it and those victims weigh at least as much as it does, and then exactly those victims are evicted. LRU always admits what fits the capacity on its own. "
  "Entries beyond capacity are evicted from the least-recently-used end, only while the cache is over capacity, and only as much as the exact excess requires. Every decision is taken on the counters that include the changes already made in the same run; each processed read raises the key's popularity exactly once.",
  ["inputs", "histories", "configurations"],
  "every weight, popularity, capacity and order of operations reaching handle_upsert, admit and evict_lru_entries of both caches, with and without weigher, for both policies",
  "Off-by-one or stale comparisons in admission change which entries survive without failing anything; tests replay one documented trace.",
  MAINT_FILES + ["src/policy.rs"], [("admission", "handle_upsert / admit / AdmissionResult in base_cache.rs"), ("eviction", "evict_lru_entries / weights_to_evict"), ("popularity", "apply_reads, FrequencySketch")],
  PATHS + ": comparisons read as linear inequalities over the policy quantities, with counters tracked across the run")

P("C17", "A maintenance run looks for everything that is due",
  "When a maintenance run (run_pending_tasks or one on behalf of another operation) ends, it has processed the recorded reads and pending writes that were waiting when it started, and has looked for every kind of entry that can be due under the cache's configuration: past time to live, past time to idle, past its own expiration, older than invalidate_all, matched by a predicate. "
  "A scan stops only when the next entry is not due, nothing is left, an entry whose write is still pending was met, or its batch is used up, and in that case a further run is asked for. No due entry met by a scan is passed over.",
  ["histories", "configurations", "inputs"],
  "every path of the maintenance runs of both caches and of every scan they make, for every combination of expiration settings",
  "An entry kind forgotten in one configuration stays in the cache for ever, invisible to reads but holding memory and never reported to the listener; tests exercise each setting alone, on a mock clock and with few entries.",
  MAINT_FILES, [("maintenance run", "do_run_pending_tasks in base_cache.rs"), ("scans", "remove_expired_ao / remove_expired_wo / evict_expired_entries_using_timers / invalidate_entries / evict_lru_entries"), ("logs", "apply_reads / apply_writes")],
  PATHS + ": obligation (what must have been looked for) and loop-exit analysis")

P("C18", "What is configured takes effect and is reported",
  "A cache built by any of the builders, or by new, behaves according to exactly the settings made on the builder: each of capacity, weigher, eviction policy, time to live, time to idle, expiry, listener, invalidation closures, hasher, name and clock reaches the cache (every segment of a segmented cache, which gets an equal share of the capacity, rounded up) unchanged, is independent of the other settings, and nothing that was not set is in effect. "
  "Expirations of over 1000 years are refused. policy(), name(), entry_count() and weighted_size() report these settings and counters, for a segmented cache those of the whole.",
  ["configurations", "inputs"],
  "every setter and build function of the four builders, for each setting alone, none, and all together with each eviction policy; every reporting method of the three cache types",
  "A constructor passes a dozen positional arguments, several of the same type; tests build a handful of combinations, and what a lost setting breaks shows only in the behaviour it should have had.",
  ["src/sync/builder.rs", "src/future/builder.rs", "src/common/builder_utils.rs", "src/policy.rs", "src/sync/segment.rs", "src/sync/cache.rs", "src/future/cache.rs", "src/sync/base_cache.rs", "src/future/base_cache.rs"],
  [("builders", "CacheBuilder in sync/builder.rs and future/builder.rs"), ("construction", "BaseCache::new / Inner::new in base_cache.rs, Inner::new in segment.rs"), ("reports", "policy / name / entry_count / weighted_size")],
  "abstract interpretation of the builders on concrete setting combinations; comparison of the constructed terms with the settings")

P("C19", "An operation on a key concerns that key only, in the segment responsible for it",
  "Every operation that names a key reads, creates, replaces, removes, locks and waits for the entry of exactly that key: the map, the waiter table and the key locks are searched with the hash of that key and compare with that key. "
  "In a SegmentedCache every such operation goes to the one segment that the key's hash selects, the same for all operations, so that a key is never held in two segments; operations on the whole cache reach every segment.",
  ["inputs", "configurations", "histories"],
  "every keyed operation of the three cache types and the four entry selectors, all paths; any number of segments",
  "A hash or segment computed differently in one of some sixty operations loses entries only for some keys and only when that operation is mixed with others; tests use few keys and mostly one segment.",
  ["src/sync/segment.rs", "src/sync/cache.rs", "src/future/cache.rs", "src/sync/base_cache.rs", "src/future/base_cache.rs", "src/sync/entry_selector.rs", "src/future/entry_selector.rs", "src/sync/value_initializer.rs", "src/future/value_initializer.rs", "src/sync/key_lock.rs", "src/future/key_lock.rs"],
  [("segment choice", "Inner::select / segment_index_from_hash in segment.rs"), ("hashing", "BaseCache::hash, ValueInitializer, KeyLockMap"), ("selectors", "OwnedKeyEntrySelector::new / RefKeyEntrySelector::new")],
  PATHS + ": provenance of the hash, key and segment index arguments of every table operation")

P("C20", "Maintenance happens by itself, one run at a time; no writer waits for ever",
  "A cache in use performs maintenance without being asked: whenever the read or write log reaches its flush point, the interval since the last run is over, or a run left entries to evict, the next operation on the cache tries to run it. Runs never overlap; one whose caller is dropped half-way is continued by the next, and a finished one does not stand in the way of further runs. "
  "A writer that finds the write log full keeps trying to run maintenance and to send its operation, which it never drops, changes or sends twice; an asynchronous writer that goes to sleep is woken whenever room may have been made or the maintenance lock was released, however the holder ended.",
  ["schedules", "crash_points", "histories"],
  "every path of the write schedulers, triggers, read recorders and housekeepers of both caches, including a drop at every await point",
  "A lost wake-up or a run that is never started shows only with a full log and a particular interleaving or cancelled task; tests mostly call run_pending_tasks themselves.",
  ["src/common/concurrent/housekeeper.rs", "src/future/housekeeper.rs", "src/sync/base_cache.rs", "src/future/base_cache.rs", "src/sync/cache.rs", "src/common/concurrent/constants.rs"],
  [("housekeepers", "Housekeeper in common/concurrent/housekeeper.rs and future/housekeeper.rs"), ("writers", "schedule_write_op"), ("triggers", "apply_reads_if_needed / apply_reads_writes_if_needed / record_read_op")],
  PATHS + ": ordered lock / run / wake / send traces, including future-drop paths, and path-condition analysis of the triggers")

P("C22", "The recency queues and timers are exactly what their operations made of them",
  "The order in which entries are evicted for size, expired by time_to_live / time_to_idle and scanned for predicates is the order of their accesses and writes, for any number of entries and any sequence of operations: appending, moving to the back, unlinking and taking from the front of a queue, also while a scan over it is suspended, leave exactly the sequence they should, losing, duplicating or mixing up no entry and touching no freed one. "
  "An entry with a deadline of its own has its timer in the place of that deadline; advancing the time reports it if and only if its deadline has passed, otherwise keeps it scheduled, skips no bucket the elapsed time covers, and an advance given up half-way is repeated; a timer left over from an earlier deadline is never acted upon.",
  ["inputs", "histories"],
  "every operation of the intrusive queues, the per-entry node pointers and the hierarchical timer wheel, on lists of any length",
  "A link or cursor that is wrong in one constellation of neighbours, or a bucket that is skipped for one distance between two advances, needs that constellation; tests use a few short lists and deadlines.",
  ["src/common/deque.rs", "src/common/concurrent/deques.rs", "src/common/concurrent.rs", "src/common/timer_wheel.rs"],
  [("lists", "Deque in common/deque.rs"), ("node pointers", "Deques in common/concurrent/deques.rs, DeqNodes in common/concurrent.rs"), ("timers", "TimerWheel and TimerEventsIter in common/timer_wheel.rs")],
  "local shape analysis of the list operations over MIR (abstract heaps with a frame, all aliasings of node, neighbours, ends and cursor), typestate of node pointers, one-round transition analysis of the timer iterator, constant-table obligations")

P("C23", "Popularity is counted faithfully, stays within its range and fades",
  "The popularity estimate that decides which entry stays when the cache is full is, for every key, hash function and access history, never lower than the number of recorded accesses of the key since the last aging (up to 15), plus half of what it was before: every recorded read counts exactly once, under its own key, in the same four counters the estimate is read from; no count spills into another counter; aging halves every counter, happens after a bounded number of recorded accesses, and cannot fail. "
  "The estimates are in use before the cache is full.",
  ["inputs", "histories"],
  "the count-min sketch and its use by the maintenance of both caches",
  "An overflow of one counter into its neighbour, or an aging that underflows, needs a particular coincidence of hashes and counts; tests sample a few.",
  ["src/common/frequency_sketch.rs", "src/sync/base_cache.rs", "src/future/base_cache.rs"],
  [("sketch", "FrequencySketch in common/frequency_sketch.rs"), ("recording", "Inner::apply_reads in {sync,future}/base_cache.rs"), ("switching on", "should_enable_frequency_sketch, enable_frequency_sketch")],
  "path summaries of the sketch operations over MIR (abstract interpretation with followed short loops), agreement of increment and estimate row by row, bit-vector basis argument for aging, per-operation counting on all paths of the read-log loop")

P("C21", "Time stamps, versions and deadlines are recorded and compared exactly",
  "Whatever the times, durations, update counts and interleavings: a point in time is never recorded late and an expiration deadline is handed out as it was set, less than 4.1 microseconds early and never late (or as none exactly if none was set); a recorded last access or last write never moves backwards; adding a duration saturates instead of wrapping; times converted for user callbacks are the times recorded. "
  "After any number of updates of one key, an entry counts as having a pending write exactly while the last applied version differs from its own, an older version applied late never replaces a newer one (within half of the version range), and each change of the deadline gets a new generation.",
  ["inputs", "histories", "schedules"],
  "EntryInfo, AtomicInstant, Instant and Clock",
  "The failures are at wrap-arounds, saturation and collisions with the markers for `unset`, and in lost updates between a load and a store: after 2^16 updates of one key, at the ends of 64-bit ranges, or in an interleaving of two updates.",
  ["src/common/concurrent/entry_info.rs", "src/common/time/atomic_time.rs", "src/common/time/instant.rs", "src/common/time/clock.rs", "src/common/concurrent.rs"],
  [("versions", "EntryInfo::{set_policy_gen,incr_entry_gen,is_dirty,new}"), ("deadlines", "EntryInfo::{set_expiration_time,expiration_state}"), ("time stamps", "AtomicInstant in common/time/atomic_time.rs"), ("arithmetic", "Instant, Clock in common/time/"), ("accessors", "AccessTime implementations in common/concurrent.rs")],
  "path summaries as decision tables over MIR (atomic cells as symbols, all calls followed), evaluated as functions over every 16-bit version distance, every 12-bit generation and the basis vectors, powers of two and limits of 64-bit quantities; single-step check for every update that depends on the cell")

FLIGHT_FILES = ["src/sync/value_initializer.rs", "src/future/value_initializer.rs", "src/sync/cache.rs", "src/future/cache.rs", "src/sync/segment.rs", "src/sync/entry_selector.rs", "src/future/entry_selector.rs"]
P("C13", "Concurrent initialization of a key runs one initializer and shares its outcome",
  "Of concurrent get_with / try_get_with / optionally_get_with / or_insert_with calls of one kind for one absent key, exactly one runs its initializer; the others wait and get its value, or its error (None). "
  "The value is in the cache before any other caller may initialize the key again; an error inserts nothing. If the initializer panics or its future is dropped, nothing is inserted and one of the waiting callers runs its own initializer instead; the panic reaches only the caller whose initializer panicked. Calls with different error types never receive each other's outcome.",
  ["schedules", "histories", "crash_points"],
  "every path of every initializing operation of the three cache types and the entry selectors, including panic of the initializer and drop of the future at every await point",
  "Tests start a few callers with sleeps; they cannot enumerate the interleavings around registration, re-check, insertion and release, nor the drop points.",
  FLIGHT_FILES, [("single flight", "ValueInitializer::try_init_or_read"), ("outcome types", "type_id_for_* / post_init_for_*")],
  PATHS + ": ordered effect traces over the waiter registry, lock, cache and caller code, including unwind and future-drop paths")
P("C14", "No caller is ever left waiting on, or blocked by, a dead waiter",
  "However a single-flight or compute operation ends - return, error, panic of the caller's code, drop of its future at any await point - its waiter is removed from the registry, its lock is released and its value is set to something that waiting callers can go on from. So a later call for the key always makes progress, and no waiting caller hangs or panics because of it.",
  ["crash_points", "schedules"],
  "every exit of every single-flight and compute operation, every await point",
  "A leaked waiter shows only if the future is dropped in one of many windows and the same key is then requested again.",
  FLIGHT_FILES, [("waiter guard", "WaiterGuard and its Drop"), ("registry", "try_insert_waiter / remove_waiter")],
  PATHS + ": typestate of the waiter (locked, registered, set, removed, released) on all exits")
P("C15", "Compute operations on a key are serialized and do exactly what the closure chose",
  "and_compute_with, and_try_compute_with, and_upsert_with (and and_try_compute_if_nobody_else) hand the closure the current entry, and no two of them run for one key at the same time. Put stores exactly the given value, Remove removes the entry, Nop, an error or a panic change nothing; "
  "the result (Inserted, ReplacedWith, Unchanged, Removed, StillNone, the error) and its entry's value and flags say what was done. If another computation is running, and_try_compute_if_nobody_else does not run its closure and reports the current state.",
  ["schedules", "inputs", "crash_points"],
  "every path of every compute operation of the three cache types, every operation the closure can choose, presence and absence of the key, panic and drop points",
  "Tests check a handful of closure results and one interleaving produced with sleeps.",
  FLIGHT_FILES, [("compute", "ValueInitializer::try_compute / try_compute_if_nobody_else")],
  PATHS + ": ordered effect traces with provenance of arguments, stored values and results")
P("C16", "Entry tells the truth about where its value came from",
  "An Entry returned by entry(..).or_insert*, or_default, or_optionally_insert_with or or_try_insert_with carries the requested key, the value that is (or was) in the cache, and is_fresh() is true exactly if this call stored that value; is_old_value_replaced() is false.",
  ["inputs", "schedules"],
  "every path of every or_* operation of the entry selectors of the three cache types, including the path on which another caller won the race",
  "Tests check the flags for a present and an absent key without races.",
  FLIGHT_FILES + ["src/common/entry.rs"], [("construction", "Entry::new call sites")],
  PATHS + ": provenance of the returned Entry's fields")

# ------------------------------------------------------------------ stated, but not decidable by this family here
P("C40", "Operations of one key are linearizable across threads",
  "For every concurrent history of reads, inserts, removals and computes of one key there is one order of the operations, consistent with real time, that explains every result.",
  ["schedules", "histories"], "all interleavings of all public operations on a key", "A test runs a few schedules out of astronomically many.",
  BASE + ["src/cht/map/bucket.rs", "src/cht/map/bucket_array_ref.rs"], [("map", "cht/"), ("operations", "base_cache.rs")],
  na="Needs the possible values of a lock-free table under all interleavings (its buckets are swung by compare-and-swap while being rehashed); no sound static argument in reach bounds them. What is decidable from the code of one operation at a time is claimed instead: each change is one atomic table operation under a condition on the very entry (C06, C09, C25), computes are serialized by a lock held around them (C15), initializations by a registered waiter (C13).")
P("C41", "The hash table keeps every key findable while it is being resized",
  "While any number of threads insert, remove and look up, also during a rehash, a key that was inserted and not removed is found, at most once, with its latest value, and memory is freed only after no thread can see it.",
  ["schedules", "histories"], "the lock-free table in src/cht", "The windows are a few instructions wide and need a rehash in progress.",
  ["src/cht/map/bucket.rs", "src/cht/map/bucket_array_ref.rs", "src/cht/iter.rs"], [("buckets", "cht/map/bucket.rs"), ("rehash", "BucketArray::rehash, insert_for_grow")],
  na="The argument is an inductive invariant over arrays shared by threads (which bucket states can coexist in the chain of bucket arrays), and epoch-based reclamation; dataflow over one operation's paths cannot establish it. The table is in the trusted base of the other checks.")
P("C42", "The cache never exceeds its capacity for long",
  "With writers running at any speed, the total weight held exceeds the maximum capacity only by what the write log can hold, and falls to the maximum once writers pause and maintenance runs.",
  ["schedules", "histories"], "every workload", "A test measures one workload.",
  BASE, [("eviction", "evict_lru_entries, do_run_pending_tasks")],
  na="A quantitative bound over time on a queue that is filled concurrently; the rates are runtime quantities. Claimed instead: each pass removes until what it was told to evict is reached and is told exactly the excess (C11), runs happen when logs fill (C20), the books are exact (C10).")
P("C43", "An entry that is due is removed and its listener called within bounded time",
  "After its deadline an entry is removed from memory and its listener called within a bounded delay while the cache is in use.",
  ["histories"], "every workload", "A test advances a mock clock on one workload.",
  BASE + ["src/common/timer_wheel.rs"], [("timers", "common/timer_wheel.rs")],
  na="A latency over wall-clock time and call rates. Claimed instead: what one maintenance run must look for (C17), when runs are triggered (C20), and that a timer fires in the first round after its deadline's bucket (C22).")
P("C44", "TinyLFU keeps the hit ratio near optimal",
  "For realistic access traces, the hit ratio is close to that of the best policy.",
  ["histories"], "access traces", "Tests have no traces.",
  ["src/common/frequency_sketch.rs"], [("sketch", "common/frequency_sketch.rs")],
  na="A statistical statement about workloads, not about the program's source.")
P("C45", "Iteration yields each entry present throughout exactly once",
  "An iteration concurrent with other operations yields every key that is present during all of it exactly once.",
  ["schedules", "histories"], "every interleaving with inserts, removals and rehashes", "Tests iterate a quiescent cache.",
  ["src/common/iter.rs", "src/cht/iter.rs", "src/cht/segment.rs"], [("iterator", "common/iter.rs, cht segment keys")],
  na="Depends on which bucket array the table's scan sees while it is rehashed (C41). Claimed instead: what an iterator yields is live and not invalidated (C01-C04).")
P("C46", "A dropped cache frees everything it held, once",
  "When the last handle to a cache and its iterators and entries are gone, every key and value is dropped exactly once and the memory is freed.",
  ["histories", "schedules"], "every history", "Tests count drops of a few histories.",
  ["src/cht/map/bucket.rs", "src/common/concurrent/arc.rs", "src/common/deque.rs"], [("reclamation", "crossbeam-epoch deferrals in cht/")],
  na="Reference counts and epoch deferrals over the lifetime of a cache are runtime quantities; ownership of queue nodes, the part with manual memory management outside the table, is claimed in C22.")
