From f195f9062ecff529d8d927f082c95dee1f1009eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:18 +0000
Subject: [PATCH 01/10] fix: never move an entry's access time or the
 invalidation time stamp backwards

---
 src/common/time/atomic_time.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/common/time/atomic_time.rs b/src/common/time/atomic_time.rs
index a4870bc..acd2169 100644
--- a/src/common/time/atomic_time.rs
+++ b/src/common/time/atomic_time.rs
@@ -47,11 +47,21 @@ impl AtomicInstant {
         }
     }
 
-    /// Sets the `Instant`.
+    /// Sets the `Instant`, unless a later `Instant` has already been set.
+    ///
+    /// A caller obtains the current time before calling this method, so another
+    /// thread can set a later time in between. Moving the time backwards would, for
+    /// example, make an entry look older than the last `invalidate_all` call although
+    /// it was inserted after that call.
     pub(crate) fn set_instant(&self, instant: Instant) {
         // Ensure the `Instant` is not `u64::MAX`, which means unset.
         debug_assert!(instant.as_nanos() != u64::MAX);
 
-        self.instant.store(instant.as_nanos(), Ordering::Release);
+        let new = instant.as_nanos();
+        let _ = self
+            .instant
+            .fetch_update(Ordering::AcqRel, Ordering::Acquire, |current| {
+                (current == u64::MAX || current < new).then_some(new)
+            });
     }
 }
-- 
2.43.0


From 5715d7c0118cde1835231d09b1e111c8e17562dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:32 +0000
Subject: [PATCH 02/10] fix: keep the key in the entry returned by
 or_try_insert_with on an existing key

---
 src/sync/cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sync/cache.rs b/src/sync/cache.rs
index ce25f7c..858cd82 100644
--- a/src/sync/cache.rs
+++ b/src/sync/cache.rs
@@ -1419,7 +1419,7 @@ where
         E: Send + Sync + 'static,
         Q: Equivalent<K> + ToOwned<Owned = K> + Hash + ?Sized,
     {
-        if let Some(entry) = self.get_with_hash(key, hash, false) {
+        if let Some(entry) = self.get_with_hash(key, hash, need_key) {
             return Ok(entry);
         }
 
-- 
2.43.0


From 88946e3dfa197f8b45fbe24dc0ccb584eabf9007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:13 +0000
Subject: [PATCH 03/10] fix: keep applying write operations to an entry after
 its generation wraps around

---
 src/common/concurrent/entry_info.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/common/concurrent/entry_info.rs b/src/common/concurrent/entry_info.rs
index 8791a0d..6fc0b82 100644
--- a/src/common/concurrent/entry_info.rs
+++ b/src/common/concurrent/entry_info.rs
@@ -105,11 +105,11 @@ impl<K> EntryInfo<K> {
         loop {
             let current = g.load(Ordering::Acquire);
 
-            // Do not set the given value if it is smaller than the current value of
-            // `policy_gen`. Note that the current value may have been wrapped
-            // around. If the value is much larger than the current value, it is
-            // likely that the value of `policy_gen` has been wrapped around.
-            if current >= value || value.wrapping_sub(current) > u16::MAX / 2 {
+            // Do not set the given value if it is older than the current value of
+            // `policy_gen`. Note that both values wrap around on overflow, so they
+            // cannot be compared by their magnitude: If the value is more than a
+            // half of the range ahead of the current value, it is actually behind.
+            if value == current || value.wrapping_sub(current) > u16::MAX / 2 {
                 break;
             }
 
-- 
2.43.0


From 0cc300b1bac8b68191492a30d6ed80d81cd2ce87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:11 +0000
Subject: [PATCH 04/10] fix: do not let entries survive invalidate_entries_if

The scan of the write order queue skipped one entry per batch (peeking the
queue advanced its cursor), could finish a predicate that was registered after
the write operations had been drained, could start the next scan in the middle
of the queue, and could mark the predicate registry empty while another thread
was registering a predicate.
---
 src/common/deque.rs       | 10 +++++++++
 src/future/base_cache.rs  | 21 ++++++------------
 src/future/invalidator.rs | 45 ++++++++++++++++++++-------------------
 src/sync/base_cache.rs    | 21 ++++++------------
 src/sync/invalidator.rs   | 43 +++++++++++++++++++------------------
 5 files changed, 67 insertions(+), 73 deletions(-)

diff --git a/src/common/deque.rs b/src/common/deque.rs
index 0f25cfb..a6d07be 100644
--- a/src/common/deque.rs
+++ b/src/common/deque.rs
@@ -279,6 +279,16 @@ impl<T> Deque<T> {
     pub(crate) fn reset_cursor(&mut self) {
         self.cursor = None;
     }
+
+    /// Returns `true` if the iterator of this deque will return an element next time.
+    /// (Unlike `Peekable::peek`, this method does not advance the cursor)
+    pub(crate) fn has_next(&self) -> bool {
+        match self.cursor {
+            None => self.head.is_some(),
+            Some(DeqCursor::Node(_)) => true,
+            Some(DeqCursor::Done) => false,
+        }
+    }
 }
 
 impl<'a, T> Iterator for &'a mut Deque<T> {
diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index ea2b280..2ba3ff2 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -1321,6 +1321,10 @@ where
 
         loop {
             if should_process_logs {
+                if let Some(invalidator) = &self.invalidator {
+                    invalidator.begin_scan().await;
+                }
+
                 let r_len = self.read_op_ch.len();
                 if r_len > 0 {
                     self.apply_reads(&mut deqs, &mut timer_wheel, r_len).await;
@@ -2364,20 +2368,11 @@ where
     ) where
         V: Clone,
     {
-        let now = self.current_time();
-
-        // If the write order queue is empty, we are done and can remove the predicates
-        // that have been registered by now.
-        if deqs.write_order.len() == 0 {
-            invalidator.remove_predicates_registered_before(now);
-            return;
-        }
-
         let mut candidates = Vec::default();
         let mut len = 0;
         let has_next;
         {
-            let iter = &mut deqs.write_order.peekable();
+            let mut iter = &mut deqs.write_order;
 
             while len < batch_size {
                 if let Some(kd) = iter.next() {
@@ -2394,11 +2389,7 @@ where
                 }
             }
 
-            has_next = iter.peek().is_some();
-        }
-
-        if len == 0 {
-            return;
+            has_next = iter.has_next();
         }
 
         let is_truncated = len == batch_size && has_next;
diff --git a/src/future/invalidator.rs b/src/future/invalidator.rs
index 5c48cd1..5f6edb8 100644
--- a/src/future/invalidator.rs
+++ b/src/future/invalidator.rs
@@ -51,6 +51,8 @@ impl<K> KeyDateLite<K> {
 pub(crate) struct Invalidator<K, V, S> {
     predicates: crate::cht::SegmentedHashMap<PredicateId, Predicate<K, V>, S>,
     is_empty: AtomicBool,
+    /// Guards updates on `predicates` together with `is_empty`.
+    registry_lock: parking_lot::Mutex<()>,
     scan_context: Arc<ScanContext<K, V>>,
 }
 
@@ -71,6 +73,7 @@ impl<K, V, S> Invalidator<K, V, S> {
         Self {
             predicates,
             is_empty: AtomicBool::new(true),
+            registry_lock: parking_lot::Mutex::default(),
             scan_context: Arc::new(ScanContext::default()),
         }
     }
@@ -79,27 +82,23 @@ impl<K, V, S> Invalidator<K, V, S> {
         self.is_empty.load(Ordering::Acquire)
     }
 
-    pub(crate) fn remove_predicates_registered_before(&self, ts: Instant)
+    /// Begins a scan by capturing the predicates registered so far, unless a scan is
+    /// already in progress. This must be called before applying the pending write
+    /// operations, so that all the entries inserted before the registrations of the
+    /// captured predicates will be in the write order queue when they are scanned.
+    pub(crate) async fn begin_scan(&self)
     where
         K: Hash + Eq + Send + Sync + 'static,
         V: Clone + Send + Sync + 'static,
-        S: BuildHasher,
+        S: BuildHasher + Send + Sync + 'static,
     {
-        let pred_map = &self.predicates;
-
-        let removing_ids = pred_map
-            .iter()
-            .filter(|(_, pred)| pred.registered_at <= ts)
-            .map(|(id, _)| id)
-            .collect::<Vec<_>>();
-
-        for id in removing_ids {
-            let hash = pred_map.hash(&id);
-            pred_map.remove(hash, |k| k == &id);
+        if self.is_empty() {
+            return;
         }
 
-        if pred_map.is_empty() {
-            self.is_empty.store(true, Ordering::Release);
+        let mut predicates = self.scan_context.predicates.lock().await;
+        if predicates.is_empty() {
+            *predicates = self.predicates.iter().map(|(_k, v)| v).collect();
         }
     }
 
@@ -126,6 +125,7 @@ impl<K, V, S> Invalidator<K, V, S> {
                 continue; // Retry
             }
             let pred = Predicate::new(&id, predicate, registered_at);
+            let _lock = self.registry_lock.lock();
             preds.insert_entry_and(id.clone(), hash, pred, |_, _| ());
             self.is_empty.store(false, Ordering::Release);
 
@@ -171,10 +171,7 @@ impl<K, V, S> Invalidator<K, V, S> {
         V: Clone + Send + Sync + 'static,
         S: BuildHasher + Send + Sync + 'static,
     {
-        let mut predicates = self.scan_context.predicates.lock().await;
-        if predicates.is_empty() {
-            *predicates = self.predicates.iter().map(|(_k, v)| v).collect();
-        }
+        let predicates = self.scan_context.predicates.lock().await;
 
         let mut invalidated = Vec::default();
         let mut newest_timestamp = None;
@@ -194,9 +191,9 @@ impl<K, V, S> Invalidator<K, V, S> {
             newest_timestamp = Some(ts);
         }
 
-        self.remove_finished_predicates(predicates, is_truncated, newest_timestamp);
+        let is_done = self.remove_finished_predicates(predicates, is_truncated, newest_timestamp);
 
-        (invalidated, self.predicates.is_empty())
+        (invalidated, is_done)
     }
 }
 
@@ -226,7 +223,8 @@ where
         mut predicates: MutexGuard<'_, Vec<Predicate<K, V>>>,
         is_truncated: bool,
         newest_timestamp: Option<Instant>,
-    ) where
+    ) -> bool
+    where
         K: Hash + Eq,
         S: BuildHasher,
     {
@@ -248,6 +246,8 @@ where
             self.remove_predicates(predicates);
             predicates.clear();
         }
+
+        predicates.is_empty()
     }
 
     fn remove_predicates(&self, predicates: &[Predicate<K, V>])
@@ -256,6 +256,7 @@ where
         S: BuildHasher,
     {
         let pred_map = &self.predicates;
+        let _lock = self.registry_lock.lock();
         for p in predicates {
             let hash = pred_map.hash(p.id());
             pred_map.remove(hash, |k| k == p.id());
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index ce1acb7..8ae1097 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -1196,6 +1196,10 @@ where
 
         loop {
             if should_process_logs {
+                if let Some(invalidator) = &self.invalidator {
+                    invalidator.begin_scan();
+                }
+
                 let r_len = self.read_op_ch.len();
                 if r_len > 0 {
                     self.apply_reads(&mut deqs, &mut timer_wheel, r_len);
@@ -2167,20 +2171,11 @@ where
     ) where
         V: Clone,
     {
-        let now = self.current_time();
-
-        // If the write order queue is empty, we are done and can remove the predicates
-        // that have been registered by now.
-        if deqs.write_order.len() == 0 {
-            invalidator.remove_predicates_registered_before(now);
-            return;
-        }
-
         let mut candidates = Vec::new();
         let mut len = 0;
         let has_next;
         {
-            let iter = &mut deqs.write_order.peekable();
+            let mut iter = &mut deqs.write_order;
 
             while len < batch_size {
                 if let Some(kd) = iter.next() {
@@ -2197,11 +2192,7 @@ where
                 }
             }
 
-            has_next = iter.peek().is_some();
-        }
-
-        if len == 0 {
-            return;
+            has_next = iter.has_next();
         }
 
         let is_truncated = len == batch_size && has_next;
diff --git a/src/sync/invalidator.rs b/src/sync/invalidator.rs
index f5ff7dc..65a1a5e 100644
--- a/src/sync/invalidator.rs
+++ b/src/sync/invalidator.rs
@@ -51,6 +51,8 @@ impl<K> KeyDateLite<K> {
 pub(crate) struct Invalidator<K, V, S> {
     predicates: crate::cht::SegmentedHashMap<PredicateId, Predicate<K, V>, S>,
     is_empty: AtomicBool,
+    /// Guards updates on `predicates` together with `is_empty`.
+    registry_lock: Mutex<()>,
     scan_context: Arc<ScanContext<K, V>>,
 }
 
@@ -71,6 +73,7 @@ impl<K, V, S> Invalidator<K, V, S> {
         Self {
             predicates,
             is_empty: AtomicBool::new(true),
+            registry_lock: Mutex::default(),
             scan_context: Arc::new(ScanContext::default()),
         }
     }
@@ -79,27 +82,23 @@ impl<K, V, S> Invalidator<K, V, S> {
         self.is_empty.load(Ordering::Acquire)
     }
 
-    pub(crate) fn remove_predicates_registered_before(&self, ts: Instant)
+    /// Begins a scan by capturing the predicates registered so far, unless a scan is
+    /// already in progress. This must be called before applying the pending write
+    /// operations, so that all the entries inserted before the registrations of the
+    /// captured predicates will be in the write order queue when they are scanned.
+    pub(crate) fn begin_scan(&self)
     where
         K: Hash + Eq + Send + Sync + 'static,
         V: Clone + Send + Sync + 'static,
         S: BuildHasher,
     {
-        let pred_map = &self.predicates;
-
-        let removing_ids = pred_map
-            .iter()
-            .filter(|(_, pred)| pred.registered_at <= ts)
-            .map(|(id, _)| id)
-            .collect::<Vec<_>>();
-
-        for id in removing_ids {
-            let hash = pred_map.hash(&id);
-            pred_map.remove(hash, |k| k == &id);
+        if self.is_empty() {
+            return;
         }
 
-        if pred_map.is_empty() {
-            self.is_empty.store(true, Ordering::Release);
+        let mut predicates = self.scan_context.predicates.lock();
+        if predicates.is_empty() {
+            *predicates = self.predicates.iter().map(|(_k, v)| v).collect();
         }
     }
 
@@ -126,6 +125,7 @@ impl<K, V, S> Invalidator<K, V, S> {
                 continue; // Retry
             }
             let pred = Predicate::new(&id, predicate, registered_at);
+            let _lock = self.registry_lock.lock();
             preds.insert_entry_and(id.clone(), hash, pred, |_, _| ());
             self.is_empty.store(false, Ordering::Release);
 
@@ -171,10 +171,7 @@ impl<K, V, S> Invalidator<K, V, S> {
         V: Clone + Send + Sync + 'static,
         S: BuildHasher,
     {
-        let mut predicates = self.scan_context.predicates.lock();
-        if predicates.is_empty() {
-            *predicates = self.predicates.iter().map(|(_k, v)| v).collect();
-        }
+        let predicates = self.scan_context.predicates.lock();
 
         let mut invalidated = Vec::default();
         let mut newest_timestamp = None;
@@ -194,9 +191,9 @@ impl<K, V, S> Invalidator<K, V, S> {
             newest_timestamp = Some(ts);
         }
 
-        self.remove_finished_predicates(predicates, is_truncated, newest_timestamp);
+        let is_done = self.remove_finished_predicates(predicates, is_truncated, newest_timestamp);
 
-        (invalidated, self.predicates.is_empty())
+        (invalidated, is_done)
     }
 }
 
@@ -226,7 +223,8 @@ where
         mut predicates: MutexGuard<'_, Vec<Predicate<K, V>>>,
         is_truncated: bool,
         newest_timestamp: Option<Instant>,
-    ) where
+    ) -> bool
+    where
         K: Hash + Eq,
         S: BuildHasher,
     {
@@ -248,6 +246,8 @@ where
             self.remove_predicates(predicates);
             predicates.clear();
         }
+
+        predicates.is_empty()
     }
 
     fn remove_predicates(&self, predicates: &[Predicate<K, V>])
@@ -256,6 +256,7 @@ where
         S: BuildHasher,
     {
         let pred_map = &self.predicates;
+        let _lock = self.registry_lock.lock();
         for p in predicates.iter() {
             let hash = pred_map.hash(p.id());
             pred_map.remove(hash, |k| k == p.id());
-- 
2.43.0


From 54468d1681dcbc18bb9febae35aa459da74d50df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:25 +0000
Subject: [PATCH 05/10] fix: do not return an entry that a finished
 invalidation predicate removed

A reader that looked up an entry right before the scan removed it could check
the predicates right after the scan removed the finished predicate, and return
the entry although invalidate_entries_if had returned before the read started.
---
 src/common/concurrent/entry_info.rs | 14 ++++++++++++++
 src/future/invalidator.rs           | 24 +++++++++++++-----------
 src/sync/invalidator.rs             | 24 +++++++++++++-----------
 3 files changed, 40 insertions(+), 22 deletions(-)

diff --git a/src/common/concurrent/entry_info.rs b/src/common/concurrent/entry_info.rs
index 6fc0b82..e17f038 100644
--- a/src/common/concurrent/entry_info.rs
+++ b/src/common/concurrent/entry_info.rs
@@ -11,6 +11,9 @@ pub(crate) struct EntryInfo<K> {
     /// `false`, it means the entry is _temporary_ admitted to the cache or evicted
     /// from the cache (so it should not have LRU nodes).
     is_admitted: AtomicBool,
+    /// `is_invalidated` indicates that the entry has been removed from the concurrent
+    /// hash table by an invalidation predicate.
+    is_invalidated: AtomicBool,
     /// `entry_gen` (entry generation) is incremented every time the entry is updated
     /// in the concurrent hash table.
     entry_gen: AtomicU16,
@@ -46,6 +49,7 @@ impl<K> EntryInfo<K> {
         Self {
             key_hash,
             is_admitted: AtomicBool::default(),
+            is_invalidated: AtomicBool::default(),
             // `entry_gen` starts at 1 and `policy_gen` start at 0.
             entry_gen: AtomicU16::new(1),
             policy_gen: AtomicU16::new(0),
@@ -72,6 +76,16 @@ impl<K> EntryInfo<K> {
         self.is_admitted.store(value, Ordering::Release);
     }
 
+    #[inline]
+    pub(crate) fn is_invalidated(&self) -> bool {
+        self.is_invalidated.load(Ordering::Acquire)
+    }
+
+    #[inline]
+    pub(crate) fn set_invalidated(&self) {
+        self.is_invalidated.store(true, Ordering::Release);
+    }
+
     /// Returns `true` if the `ValueEntry` having this `EntryInfo` is dirty.
     ///
     /// Dirty means that the entry has been updated in the concurrent hash table but
diff --git a/src/future/invalidator.rs b/src/future/invalidator.rs
index 5f6edb8..133a015 100644
--- a/src/future/invalidator.rs
+++ b/src/future/invalidator.rs
@@ -146,18 +146,19 @@ impl<K, V, S> Invalidator<K, V, S> {
         V: Clone + Send + Sync + 'static,
         S: BuildHasher + Send + Sync + 'static,
     {
-        if self.is_empty() {
-            false
-        } else if let Some(ts) = entry.last_modified() {
-            Self::do_apply_predicates(
-                self.predicates.iter().map(|(_, v)| v),
-                key,
-                &entry.value,
-                ts,
-            )
-        } else {
-            false
+        if !self.is_empty() {
+            if let Some(ts) = entry.last_modified() {
+                let predicates = self.predicates.iter().map(|(_, v)| v);
+                if Self::do_apply_predicates(predicates, key, &entry.value, ts) {
+                    return true;
+                }
+            }
         }
+
+        // The entry may have been looked up before `scan_and_invalidate` invalidated
+        // it. In this case, the predicate may have already been removed from
+        // `predicates`.
+        entry.entry_info().is_invalidated()
     }
 
     pub(crate) async fn scan_and_invalidate(
@@ -321,6 +322,7 @@ where
             },
         );
         if let Some(entry) = &maybe_entry {
+            entry.entry_info().set_invalidated();
             if cache.is_removal_notifier_enabled() {
                 cache
                     .notify_single_removal(Arc::clone(key), entry, RemovalCause::Explicit)
diff --git a/src/sync/invalidator.rs b/src/sync/invalidator.rs
index 65a1a5e..428d6d1 100644
--- a/src/sync/invalidator.rs
+++ b/src/sync/invalidator.rs
@@ -146,18 +146,19 @@ impl<K, V, S> Invalidator<K, V, S> {
         V: Clone + Send + Sync + 'static,
         S: BuildHasher,
     {
-        if self.is_empty() {
-            false
-        } else if let Some(ts) = entry.last_modified() {
-            Self::do_apply_predicates(
-                self.predicates.iter().map(|(_, v)| v),
-                key,
-                &entry.value,
-                ts,
-            )
-        } else {
-            false
+        if !self.is_empty() {
+            if let Some(ts) = entry.last_modified() {
+                let predicates = self.predicates.iter().map(|(_, v)| v);
+                if Self::do_apply_predicates(predicates, key, &entry.value, ts) {
+                    return true;
+                }
+            }
         }
+
+        // The entry may have been looked up before `scan_and_invalidate` invalidated
+        // it. In this case, the predicate may have already been removed from
+        // `predicates`.
+        entry.entry_info().is_invalidated()
     }
 
     pub(crate) fn scan_and_invalidate(
@@ -317,6 +318,7 @@ where
             },
         );
         if let Some(entry) = &maybe_entry {
+            entry.entry_info().set_invalidated();
             if cache.is_removal_notifier_enabled() {
                 cache.notify_single_removal(Arc::clone(key), entry, RemovalCause::Explicit);
             }
-- 
2.43.0


From e4ac82b8ef62239cd0538536d1644ff674b3e487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:56 +0000
Subject: [PATCH 06/10] fix: wake up the writers waiting for the write log when
 the maintenance is cancelled

---
 src/future/housekeeper.rs | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/future/housekeeper.rs b/src/future/housekeeper.rs
index 1ef86cd..4231842 100644
--- a/src/future/housekeeper.rs
+++ b/src/future/housekeeper.rs
@@ -23,6 +23,19 @@ use futures_util::future::{BoxFuture, Shared};
 
 use super::base_cache::Inner;
 
+/// When dropped, notifies the async tasks waiting in
+/// `BaseCache::schedule_write_op` method for the write op channel (if any).
+///
+/// Async Cancellation Safety: A maintenance task can be cancelled while it is holding
+/// the lock on `current_task`, so this is done by `drop`.
+struct WriteOpChReadyNotifier<'a>(&'a event_listener::Event<()>);
+
+impl Drop for WriteOpChReadyNotifier<'_> {
+    fn drop(&mut self) {
+        self.0.notify(usize::MAX);
+    }
+}
+
 pub(crate) struct Housekeeper {
     /// A shared `Future` of the maintenance task that is currently being resolved.
     current_task: Mutex<Option<Shared<BoxFuture<'static, bool>>>>,
@@ -117,15 +130,13 @@ impl Housekeeper {
         V: Clone + Send + Sync + 'static,
         S: BuildHasher + Clone + Send + Sync + 'static,
     {
+        // This must be declared before `current_task`, so that it will be dropped
+        // after the lock on `current_task` is released.
+        let _notifier = WriteOpChReadyNotifier(&cache.write_op_ch_ready_event);
+
         let mut current_task = self.current_task.lock().await;
         self.do_run_pending_tasks(Arc::clone(&cache), &mut current_task)
             .await;
-
-        drop(current_task);
-
-        // If there are any async tasks waiting in `BaseCache::schedule_write_op`
-        // method for the write op channel, notify them.
-        cache.write_op_ch_ready_event.notify(usize::MAX);
     }
 
     /// Tries to run the pending tasks if the lock is free. Returns `true` if there
@@ -136,19 +147,18 @@ impl Housekeeper {
         V: Clone + Send + Sync + 'static,
         S: BuildHasher + Clone + Send + Sync + 'static,
     {
+        // This must be declared before `current_task`, so that it will be dropped
+        // after the lock on `current_task` is released.
+        let _notifier;
+
         if let Some(mut current_task) = self.current_task.try_lock() {
+            _notifier = WriteOpChReadyNotifier(&cache.write_op_ch_ready_event);
             self.do_run_pending_tasks(Arc::clone(cache), &mut current_task)
                 .await;
+            true
         } else {
-            return false;
+            false
         }
-
-        // The `current_task` lock should be free now.
-
-        // If there are any async tasks waiting in `BaseCache::schedule_write_op`
-        // method for the write op channel, notify them.
-        cache.write_op_ch_ready_event.notify(usize::MAX);
-        true
     }
 
     async fn do_run_pending_tasks<K, V, S>(
-- 
2.43.0


From cf7ed0e4779b518ec6b68d4082989b847747573b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:56 +0000
Subject: [PATCH 07/10] fix: do not miss the event sent before starting to
 listen to it in schedule_write_op

---
 src/future/base_cache.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index 2ba3ff2..240e3a0 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -676,7 +676,22 @@ where
                 //   try_run_pending_tasks` methods has freed the lock on the
                 //   `current_task`.
                 //
-                ch_ready_event.listen().await;
+                let listener = ch_ready_event.listen();
+
+                // Try again now that we are listening. The event could have been sent
+                // after our last attempt but before we started to listen to it, and
+                // there may be no one else to send the event again.
+                BaseCache::<K, V, S>::apply_reads_writes_if_needed(inner, ch, ts, housekeeper)
+                    .await;
+                match ch.try_send(op) {
+                    Ok(()) => return Ok(()),
+                    Err(TrySendError::Full(op1)) => {
+                        op = op1;
+                    }
+                    Err(e @ TrySendError::Disconnected(_)) => return Err(e),
+                }
+
+                listener.await;
 
                 // We are going to retry. Now the channel may have some space and/or
                 // one of us is allowed to run `do_run_pending_tasks` method.
-- 
2.43.0


From cbe4cae1e5e0f00f5b6031d59b19c054b77beb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:39 +0000
Subject: [PATCH 08/10] fix: remove the waiter when a user-supplied closure
 panics outside of init

---
 src/sync/value_initializer.rs | 119 ++++++++++++++++++++++++----------
 1 file changed, 83 insertions(+), 36 deletions(-)

diff --git a/src/sync/value_initializer.rs b/src/sync/value_initializer.rs
index 42d02a1..e5a9bdf 100644
--- a/src/sync/value_initializer.rs
+++ b/src/sync/value_initializer.rs
@@ -1,4 +1,4 @@
-use parking_lot::RwLock;
+use parking_lot::{RwLock, RwLockWriteGuard};
 use std::{
     any::{Any, TypeId},
     fmt,
@@ -40,6 +40,49 @@ impl<V> fmt::Debug for WaiterValue<V> {
 
 type Waiter<V> = MiniArc<RwLock<WaiterValue<V>>>;
 
+type WaiterMap<K, V, S> = crate::cht::SegmentedHashMap<(Arc<K>, TypeId), Waiter<V>, S>;
+
+/// Sets the value of our waiter and removes the waiter from the `WaiterMap`. If it is
+/// dropped without setting the value, e.g. because a user-supplied closure has been
+/// panicked, it sets `InitClosurePanicked` so that others can retry.
+struct WaiterGuard<'a, K, V, S>
+where
+    K: Eq + Hash,
+    S: BuildHasher,
+{
+    w_key: Option<(Arc<K>, TypeId)>,
+    w_hash: u64,
+    waiters: &'a WaiterMap<K, V, S>,
+    write_lock: RwLockWriteGuard<'a, WaiterValue<V>>,
+}
+
+impl<K, V, S> WaiterGuard<'_, K, V, S>
+where
+    K: Eq + Hash,
+    S: BuildHasher,
+{
+    fn set_waiter_value(mut self, v: WaiterValue<V>) {
+        self.do_set_waiter_value(v);
+    }
+
+    fn do_set_waiter_value(&mut self, v: WaiterValue<V>) {
+        if let Some(w_key) = self.w_key.take() {
+            *self.write_lock = v;
+            self.waiters.remove(self.w_hash, |k| k == &w_key);
+        }
+    }
+}
+
+impl<K, V, S> Drop for WaiterGuard<'_, K, V, S>
+where
+    K: Eq + Hash,
+    S: BuildHasher,
+{
+    fn drop(&mut self) {
+        self.do_set_waiter_value(WaiterValue::InitClosurePanicked);
+    }
+}
+
 pub(crate) enum InitResult<V, E> {
     Initialized(V),
     ReadExisting(V),
@@ -51,7 +94,7 @@ pub(crate) struct ValueInitializer<K, V, S> {
     // try_get_with method. We use the type ID as a part of the key to ensure that
     // we can always downcast the trait object ErrorObject (in Waiter<V>) into
     // its concrete type.
-    waiters: crate::cht::SegmentedHashMap<(Arc<K>, TypeId), Waiter<V>, S>,
+    waiters: WaiterMap<K, V, S>,
 }
 
 impl<K, V, S> ValueInitializer<K, V, S>
@@ -97,7 +140,7 @@ where
         let (w_key, w_hash) = self.waiter_key_hash(key, type_id);
 
         let waiter = MiniArc::new(RwLock::new(WaiterValue::Computing));
-        let mut lock = waiter.write();
+        let lock = waiter.write();
 
         loop {
             let Some(existing_waiter) = self.try_insert_waiter(w_key.clone(), w_hash, &waiter)
@@ -131,14 +174,15 @@ where
             }
         }
 
-        // Our waiter was inserted.
+        // Our waiter was inserted. Create a guard. This will remove our waiter when a
+        // user-supplied closure has been panicked.
+        let waiter_guard = self.waiter_guard(w_key, w_hash, lock);
 
         // Check if the value has already been inserted by other thread.
         if let Some(value) = get() {
             // Yes. Set the waiter value, remove our waiter, and return
             // the existing value.
-            *lock = WaiterValue::Ready(Ok(value.clone()));
-            self.remove_waiter(w_key, w_hash);
+            waiter_guard.set_waiter_value(WaiterValue::Ready(Ok(value.clone())));
             return InitResult::ReadExisting(value);
         }
 
@@ -147,27 +191,22 @@ where
         // evaluate the closure again.
         match catch_unwind(AssertUnwindSafe(init)) {
             // Evaluated.
-            Ok(value) => {
-                let init_res = match post_init(value) {
-                    Ok(value) => {
-                        insert(value.clone());
-                        *lock = WaiterValue::Ready(Ok(value.clone()));
-                        InitResult::Initialized(value)
-                    }
-                    Err(e) => {
-                        let err: ErrorObject = Arc::new(e);
-                        *lock = WaiterValue::Ready(Err(Arc::clone(&err)));
-                        InitResult::InitErr(err.downcast().unwrap())
-                    }
-                };
-                self.remove_waiter(w_key, w_hash);
-                init_res
-            }
+            Ok(value) => match post_init(value) {
+                Ok(value) => {
+                    insert(value.clone());
+                    waiter_guard.set_waiter_value(WaiterValue::Ready(Ok(value.clone())));
+                    InitResult::Initialized(value)
+                }
+                Err(e) => {
+                    let err: ErrorObject = Arc::new(e);
+                    waiter_guard.set_waiter_value(WaiterValue::Ready(Err(Arc::clone(&err))));
+                    InitResult::InitErr(err.downcast().unwrap())
+                }
+            },
             // Panicked.
             Err(payload) => {
-                *lock = WaiterValue::InitClosurePanicked;
                 // Remove the waiter so that others can retry.
-                self.remove_waiter(w_key, w_hash);
+                waiter_guard.set_waiter_value(WaiterValue::InitClosurePanicked);
                 resume_unwind(payload);
             }
         }
@@ -197,7 +236,7 @@ where
         let waiter = MiniArc::new(RwLock::new(WaiterValue::Computing));
         // NOTE: We have to acquire a write lock before `try_insert_waiter`,
         // so that any concurrent attempt will get our lock and wait on it.
-        let mut lock = waiter.write();
+        let lock = waiter.write();
 
         loop {
             let Some(existing_waiter) = self.try_insert_waiter(w_key.clone(), w_hash, &waiter)
@@ -222,7 +261,9 @@ where
             }
         }
 
-        // Our waiter was inserted.
+        // Our waiter was inserted. Create a guard. This will remove our waiter when a
+        // user-supplied closure has been panicked.
+        let waiter_guard = self.waiter_guard(w_key, w_hash, lock);
 
         // Get the current value.
         let ignore_if = None as Option<&mut fn(&V) -> bool>;
@@ -240,15 +281,11 @@ where
         // evaluate the closure again.
         let output = match catch_unwind(AssertUnwindSafe(|| f(maybe_entry))) {
             // Evaluated.
-            Ok(output) => {
-                *lock = WaiterValue::ReadyNone;
-                output
-            }
+            Ok(output) => output,
             // Panicked.
             Err(payload) => {
-                *lock = WaiterValue::InitClosurePanicked;
                 // Remove the waiter so that others can retry.
-                self.remove_waiter(w_key, w_hash);
+                waiter_guard.set_waiter_value(WaiterValue::InitClosurePanicked);
                 resume_unwind(payload);
             }
         };
@@ -256,7 +293,7 @@ where
         let op = match post_init(output) {
             Ok(op) => op,
             Err(e) => {
-                self.remove_waiter(w_key, w_hash);
+                waiter_guard.set_waiter_value(WaiterValue::ReadyNone);
                 return Err(e);
             }
         };
@@ -296,7 +333,7 @@ where
                 }
             }
         };
-        self.remove_waiter(w_key, w_hash);
+        waiter_guard.set_waiter_value(WaiterValue::ReadyNone);
         result
 
         // The lock will be unlocked here.
@@ -359,8 +396,18 @@ where
     }
 
     #[inline]
-    fn remove_waiter(&self, w_key: (Arc<K>, TypeId), w_hash: u64) {
-        self.waiters.remove(w_hash, |k| k == &w_key);
+    fn waiter_guard<'a>(
+        &'a self,
+        w_key: (Arc<K>, TypeId),
+        w_hash: u64,
+        write_lock: RwLockWriteGuard<'a, WaiterValue<V>>,
+    ) -> WaiterGuard<'a, K, V, S> {
+        WaiterGuard {
+            w_key: Some(w_key),
+            w_hash,
+            waiters: &self.waiters,
+            write_lock,
+        }
     }
 
     #[inline]
-- 
2.43.0


From dfbff9cf01f9faa9687ce2ac4982c6f60756f07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:53 +0000
Subject: [PATCH 09/10] fix: do not share a waiter between get_with and
 try_get_with with the error type ()

---
 src/future.rs                   | 4 ++++
 src/future/value_initializer.rs | 4 ++--
 src/sync.rs                     | 4 ++++
 src/sync/value_initializer.rs   | 4 ++--
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/future.rs b/src/future.rs
index 84ae55f..3bcbc85 100644
--- a/src/future.rs
+++ b/src/future.rs
@@ -41,6 +41,10 @@ pub(crate) struct OptionallyNone;
 // Empty struct to be used in `InitResult::InitErr` to represent the Compute None.
 pub(crate) struct ComputeNone;
 
+/// The type to identify the waiters of `get_with` method, which never fails. (Any
+/// public type could be used as the error type of `try_get_with` method)
+pub(crate) struct GetWithNone;
+
 impl<T: ?Sized> FutureExt for T where T: Future {}
 
 pub trait FutureExt: Future {
diff --git a/src/future/value_initializer.rs b/src/future/value_initializer.rs
index f913cd5..d282f81 100644
--- a/src/future/value_initializer.rs
+++ b/src/future/value_initializer.rs
@@ -15,7 +15,7 @@ use crate::{
     Entry,
 };
 
-use super::{Cache, ComputeNone, OptionallyNone};
+use super::{Cache, ComputeNone, GetWithNone, OptionallyNone};
 
 const WAITER_MAP_NUM_SEGMENTS: usize = 64;
 
@@ -603,7 +603,7 @@ where
     pub(crate) fn type_id_for_get_with() -> TypeId {
         // NOTE: We use a regular function here instead of a const fn because TypeId
         // is not stable as a const fn. (as of our MSRV)
-        TypeId::of::<()>()
+        TypeId::of::<GetWithNone>()
     }
 
     /// Returns the `type_id` for `optionally_get_with` method of cache.
diff --git a/src/sync.rs b/src/sync.rs
index f9210e5..255ed89 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -38,3 +38,7 @@ pub(crate) struct OptionallyNone;
 
 // Empty struct to be used in `InitResult::InitErr`` to represent the Compute None.
 pub(crate) struct ComputeNone;
+
+/// The type to identify the waiters of `get_with` method, which never fails. (Any
+/// public type could be used as the error type of `try_get_with` method)
+pub(crate) struct GetWithNone;
diff --git a/src/sync/value_initializer.rs b/src/sync/value_initializer.rs
index e5a9bdf..492c279 100644
--- a/src/sync/value_initializer.rs
+++ b/src/sync/value_initializer.rs
@@ -12,7 +12,7 @@ use crate::{
     Entry,
 };
 
-use super::{Cache, ComputeNone, OptionallyNone};
+use super::{Cache, ComputeNone, GetWithNone, OptionallyNone};
 
 const WAITER_MAP_NUM_SEGMENTS: usize = 64;
 
@@ -382,7 +382,7 @@ where
     pub(crate) fn type_id_for_get_with() -> TypeId {
         // NOTE: We use a regular function here instead of a const fn because TypeId
         // is not stable as a const fn. (as of our MSRV)
-        TypeId::of::<()>()
+        TypeId::of::<GetWithNone>()
     }
 
     /// Returns the `type_id` for `optionally_get_with` method of cache.
-- 
2.43.0


From 4a99f6a5fd3c9afde5534fe2f84719b5f0d12922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:46 +0000
Subject: [PATCH 10/10] fix: keep the frequency sketch's size from underflowing
 when it ages

---
 src/common/frequency_sketch.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/frequency_sketch.rs b/src/common/frequency_sketch.rs
index 67304f7..4c29000 100644
--- a/src/common/frequency_sketch.rs
+++ b/src/common/frequency_sketch.rs
@@ -174,7 +174,9 @@ impl FrequencySketch {
             count += (*entry & ONE_MASK).count_ones();
             *entry = (*entry >> 1) & RESET_MASK;
         }
-        self.size = (self.size >> 1) - (count >> 2);
+        // Counters shared by many hashes can saturate, so that the odd counters can
+        // outnumber the recorded events.
+        self.size = (self.size >> 1).saturating_sub(count >> 2);
     }
 
     /// Returns the table index for the counter at the specified depth.
-- 
2.43.0

