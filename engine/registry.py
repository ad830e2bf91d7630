import checks_reads as CR
import checks_writes as CW
import checks_maint as CM
import checks_flight as CF
import checks_cap as CK
import checks_due as CD
import checks_config as CG
import checks_keys as CY
import checks_house as CH
import checks_queue as CQ
import checks_sketch as CS
import checks_time as CT

CHECKS = {
    "C01": dict(run=CR.c01, rule="Every path of every public read operation (and the iterator's per-key getter) that returns a looked-up entry's value, reports it present or passes it to a user closure must have established, for that same lookup, that the per-entry expiration is unset or later than a clock read, that TTL is unset or last write + TTL is later than a clock read, and that TTI is unset or last access + TTI is later than a clock read."),
    "C02": dict(run=CR.c02, rule="Every exposing path must have established that the entry's last write is not older than the invalidation time stamp; invalidate_all stores a fresh clock read as that stamp in the cache or in every segment on every path; nothing else reaches a writer of the stamp."),
    "C03": dict(run=CR.c03, rule="Every exposing path must have established that each registered predicate is newer than the entry or answered false, and after that that no finished predicate had marked the entry as removed. Registration must store the caller's predicate with the time of the call in every segment, under the registry lock, and clear the registry's empty flag afterwards; a maintenance run must capture the registered predicates before it counts the pending writes it will apply; a predicate may be forgotten only if the scan reached the end of the write-order queue or the newest entry scanned is newer than the registration; an entry removed by a scan must carry the mark readers check."),
    "C04": dict(run=CR.c04, rule="Every path that answers absent (or runs the initializer) after the lookup found an entry must have established the negation of a visibility test; contains_key answers true only after the lookup found the key."),
    "C05": dict(run=CR.c05, rule="Every path exposing a value through a recording read sends a Hit for the same entry and sets its last access to the current time (or the max with the last write); contains_key and iteration record nothing; no read sets the last write; every publication to an atomic instant replaces an unset or not-later value."),
    "C06": dict(run=CW.c06, rule="On every returning path of a write operation the map changes at most once and, exactly when it does, exactly one write operation is sent afterwards whose kind, key, hash, entry, generation and weights are those of that change; on every path on which the future is dropped after the change the operation is sent or saved for retry exactly once (with the pending notification if the listener had not completed); every interrupted operation taken up is delivered or put back before the next one is taken. Operations that reach the map only through functions for which this holds are covered through them; the others are analysed in full."),
    "C07": dict(run=CW.c07, rule="On every returning path of a write operation that replaces or removes a value while a listener is set and enabled, the listener is called exactly once, after the change, with the removed entry's key and value, is awaited to completion, and the cause is Expired iff the path established that a TTL/TTI deadline passed (Explicit for a superseded invalidated value), Replaced for an update and Explicit for a removal otherwise, both deadlines having been tested; no other path calls it."),
    "C08": dict(run=CW.c08, rule="When key locks exist, every change of the map on a path that found the key happens while the lock of that key is held, the lock is held until the listener has been told, it is released on every exit (return or drop of the future), and it is not held while a write operation is being sent or maintenance is run."),
    "C09": dict(run=CM.c09, rule="Every removal from the map inside a maintenance run has established, in the removal's own condition on the entry being removed, that it is expired (per-entry, TTL or TTI against a clock read), older than invalidate_all's stamp, matched by a predicate and unmodified since, the unmodified LRU victim, or the rejected candidate itself; the element that selected it was found not dirty; the listener, when set and enabled, is called exactly once with that entry's key and value and a cause that fits what was established (Expired / Explicit / Size)."),
    "C10": dict(run=CM.c10, rule="For every entry that maintenance removes or whose removal it takes from the write log: an admitted entry is marked not admitted, leaves both queues and the timer wheel, and lowers entry_count by 1 and weighted_size by its policy weight, exactly once; one that was not admitted changes no counter. For every insertion taken from the write log: an update replaces the old weight by the new one, moves both queue nodes and brings the timer in line; an admission adds 1 and the new weight, pushes one node per queue in use, sets the admitted flag and the timer; otherwise the candidate is removed from the map; the operation's generation is recorded. Counters change nowhere else."),
    "C11": dict(run=CK.c11, rule="Comparisons are read as linear inequalities over the weighted size, the maximum capacity, the newcomer's weight and estimated frequency and the victims' sums. For every insertion taken from the write log: it is admitted only if there is no maximum, or it fits, or (LRU) it is not heavier than the maximum, or (TinyLFU) its frequency was found higher than the sum over its victims and their weights sum up to at least its own; it is turned away only if it is heavier than the maximum or (TinyLFU) it does not fit and lost either comparison. Victims come from the front of the access-order queue. An eviction pass removes from that queue's front only while what it evicted so far (a sum that includes every entry it removed) is below what it was told to evict; the maintenance run tells it exactly weighted size minus maximum of the present books, calls it whenever that is positive after writes were processed, starts its books from the shared counters and stores them back before it ends."),
    "C12": dict(run=CW.c12, rule="Every path that stores a value while an Expiry policy is set calls exactly one of expire_after_create (new entry) / expire_after_update (existing entry) with the stored key, value, the time of the operation and the remaining lifetime (minimum of all configured deadlines), and stores now + result (or clears it on None, or skips only when unchanged); every recording read asks expire_after_read likewise and tells the timers iff the deadline changed; non-recording reads and removals ask nothing."),
    "C13": dict(run=CF.c13, rule="On every path of every initializing read: the caller's initializer runs at most once, only after a waiter for that key (and for the operation's own outcome type) was registered and the cache was looked up again without success, and before the waiter is given up; on success the value is inserted once under that key before the waiter is given up, handed to waiting callers and returned; a failure is handed to waiting callers and returned and nothing is inserted; after a panic or a dropped future nothing is published but a retry mark; a caller that finds a foreign waiter waits for it and returns its value or failure, or retries."),
    "C14": dict(run=CF.c14, rule="On every exit (return, unwinding, drop of the future at any await) of every single-flight operation, a waiter that was registered is removed from the registry exactly once, by equality with its own key and under its own hash, its lock was held before it was registered and is released exactly once, and the value left in it is set and one that waiting callers of the same waiter type can go on from; nothing is removed by a path that registered nothing."),
    "C15": dict(run=CF.c15, rule="On every path of every compute operation the caller's closure runs only while the key's waiter is registered, on the entry read after registration; the effect on the cache is exactly the chosen operation (Put: one insertion of the chosen value; Remove: one removal; Nop, failure or panic: none), happens before the waiter is given up, under the registered key and hash; the result's variant, entry, value and flags match what was read, chosen and removed."),
    "C16": dict(run=CF.c16, rule="Every Entry returned by the or_* operations carries the key, is_fresh() exactly on the paths that stored the value, never is_old_value_replaced(), and the stored value; entries built by lookups carry neither flag."),
    "C25": dict(run=CW.c25, rule="Every returning path of insert stores the given value under the given key unless the capacity was found to be zero; a new entry carries key, hash and the current time as both time stamps; a replaced value keeps the entry's shared metadata and restarts both time stamps; remove returns the value it took out and None exactly when nothing was taken out."),
    "C23": dict(run=CS.c23, rule="frequency is the minimum of four four-bit counters, in four words of the table whose indices depend on the hash and stay within the table, at offsets that lie within a word and differ between the rows of one hash; an increment adds exactly one to each of these same four counters that is below its maximum, and to nothing else, counts once towards the sample if it added anything, and ages the sketch exactly when the sample is complete; aging turns every word into exactly the halves of its counters and the sample size into at most its half, without underflow; a table has a power of two of zeroed words, at least as many as asked for, the matching mask and a positive sample size, and is replaced only by a larger one. Each operation taken from the read log is counted exactly once, under its own hash; the sketch is switched on at the latest when the cache is full, after it was given a table."),
    "C22": dict(run=CQ.c22, rule="Local shape analysis: for every way a node, its neighbours, the ends of its queue and the cursor can coincide, each queue operation (append, move to back, unlink, pop, peek, contains, cursor steps) changes exactly the cells it must, to exactly the value it must, reads and writes nothing else, keeps the length, moves a cursor off a node that leaves its place, and frees a node exactly when it is meant to. Each operation on an entry's nodes acts on the queue its tag (or, for writes, its kind) names, only if the node is linked, and leaves the entry's pointers as they must be. Timers are queued in the bucket of their entry's deadline, know their bucket, are touched only under the generation they were scheduled with; one round of the timer events, from every state the iterator can be in, starts at the bucket of the last advance, processes it up to its sentinel, reports an entry iff its deadline has passed, schedules it again otherwise, and goes on through the buckets and levels the elapsed ticks cover; an iterator dropped early sets the time back. The level tables are consistent (powers of two, shifts, no bucket covering two ticks)."),
    "C21": dict(run=CT.c21, rule="set_policy_gen makes the given version current exactly if it is ahead by less than half of the 16-bit range, for every distance; is_dirty iff the two versions differ; incr_entry_gen adds one and returns what it made; a new entry's version is ahead of the applied one, its time stamps are the given time, it has no deadline. A deadline set is read back from the same single cell at most one unit (4096 ns, twice that at the clamped end) early and never late, none as none, with the generation one higher (mod 4096) and reported as such. An AtomicInstant is unset or set in one cell and moves only forwards. Durations and sums saturate below the marker for unset; differences saturate at zero; Instants are ordered by their time; now and to_std_instant count from the same origin. Every update that depends on the cell's content is one atomic step. Each accessor reads the field its setter writes, and no two share one."),
    "C20": dict(run=CH.c20, rule="The write scheduler of each cache, on every path: due maintenance is tried before each attempt to send, the operation sent is the one given, it returns Ok only after the operation was sent and gives up only when the channel is gone; before it waits to be woken it has registered and then tried again. The triggers try maintenance on every path that is compatible with a log being at its flush point (which is within the log's capacity), the interval being over, or entries being left to evict. Reads trigger before they are recorded. The housekeeper touches maintenance only under its lock, sets the next run shortly after now, keeps what the run said about more entries; in the asynchronous cache an unfinished run survives a dropped caller, a finished one is forgotten, and however the caller ends, all waiting writers are woken after the lock is released. Caches are built with a housekeeper that runs by itself."),
    "C19": dict(run=CY.c19, rule="In every operation of the caches and entry selectors that names a key, every search of the entry map uses the hash of that key by the cache's own hasher and compares stored keys with that key; the same for the waiter table and the key lock table with their keys. Every keyed operation of the segmented cache, on every path, asks only the segment whose index is one and the same function of that hash and the cache's fixed configuration, and passes on the same key and hash; the selectors returned by entry carry the key and its hash; run_pending_tasks reaches every segment."),
    "C18": dict(run=CG.c18, rule="Every setter of every cache builder changes exactly the setting it is named after, to what it was given. Every build function, for nothing set, each setting alone and all of them, and for each eviction policy, returns a cache whose inner structure holds exactly those settings (for a segmented cache: each segment, with the total capacity divided by the number of segments and rounded up), a removal notifier and key locks exactly when a listener was set, an invalidator exactly when closures are supported, both ends of the same two channels, which can hold something unless the capacity is zero; and panics on a time to live or idle over 1000 years. policy(), name() and the counters report the fields they are named after, the segmented sums run over all segments."),
    "C17": dict(run=CD.c17, rule="The functions reached from the maintenance run are classified by what their removals are conditioned on. On every path of the run that reaches its end (in the configurations without any expiration, with each of time_to_live, time_to_idle, predicates, and all of them) each kind of work has either been done or was found to have nothing to look at: the timer wheel is not enabled, valid_after is unset, there is no predicate, the log is empty. Every scan over a queue ends only when the entry at its front was found valid for every kind it looks for (or enough weight was evicted), the queue is empty, an entry with a pending write was skipped, or a further run was asked for; every entry met by the predicate scan is handed on unless a write of it is pending; every entry the timer wheel reports is tried unless a write of it is pending; the loops over the two logs stop only when the log is empty or all that was asked for was taken."),
}
