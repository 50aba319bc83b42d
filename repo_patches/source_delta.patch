From e2afa1f1e1a34ecd1c794d2614469bc9b972939f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:40 +0000
Subject: [PATCH 01/54] fix: advance the transaction manager from the tablet
 cache actor

The actor never called make_progress of the transaction manager, so no tablet
was ever listed, loaded or stored and no key value request was ever answered.
---
 apps/tablet_cache/service/src/actor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/tablet_cache/service/src/actor.rs b/apps/tablet_cache/service/src/actor.rs
index 5feca3d..c0c4bf3 100644
--- a/apps/tablet_cache/service/src/actor.rs
+++ b/apps/tablet_cache/service/src/actor.rs
@@ -187,6 +187,7 @@ impl<T: transaction::TabletTransactionManager<Bytes>, S: store::KeyValueStore> A
         }
 
         let instant = self.get_context().instant();
+        self.transaction_manager.make_progress(instant);
         self.key_value_store
             .make_progress(instant, &mut self.transaction_manager);
 
-- 
2.43.0


From 93041ceca04521e98878b401e15071c51ce86127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:40 +0000
Subject: [PATCH 02/54] fix: do not hold the key value store while tablets are
 resolved

When metadata of the affected tablets is cached the resolve handler is called
from within resolve and borrows the store again, which panicked.
---
 apps/tablet_cache/service/src/store.rs | 38 ++++++++++++--------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/apps/tablet_cache/service/src/store.rs b/apps/tablet_cache/service/src/store.rs
index 3607eef..237a4bc 100644
--- a/apps/tablet_cache/service/src/store.rs
+++ b/apps/tablet_cache/service/src/store.rs
@@ -114,17 +114,22 @@ impl KeyValueStore for SimpleKeyValueStore {
         _instant: u64,
         transaction_context: &mut dyn transaction::TabletTransactionContext<Bytes>,
     ) {
-        let mut core = self.core.borrow_mut();
-
-        let mut core_clone = self.core.clone();
         // If enough pending requests have accumulated initiate resolution of
-        // the affected tablets.
-        core.maybe_resolve_tablets(
-            transaction_context,
-            Box::new(move |results| core_clone.borrow_mut().handle_query_resolve(results)),
-        );
+        // the affected tablets. Note that the handler is called from within resolve
+        // when metadata of the affected tablets is cached, hence the core must not
+        // be borrowed.
+        let resolve_queries = self.core.borrow_mut().collect_resolve_queries();
+        if !resolve_queries.is_empty() {
+            let core_clone = self.core.clone();
+            transaction_context.resolve(
+                resolve_queries,
+                Box::new(move |results| core_clone.borrow_mut().handle_query_resolve(results)),
+            );
+        }
 
-        core_clone = self.core.clone();
+        let mut core = self.core.borrow_mut();
+
+        let core_clone = self.core.clone();
         // If enough pending requests has accumulated on some tablets initiate a
         // transaction covering the tablets that passed the threshold.
         core.maybe_start_transaction(
@@ -236,19 +241,10 @@ impl SimpleKeyValueStoreCore {
         }
     }
 
-    fn maybe_resolve_tablets(
-        &mut self,
-        transaction_context: &mut dyn transaction::TabletTransactionContext<Bytes>,
-        handler: Box<transaction::ResolveHandler>,
-    ) {
+    fn collect_resolve_queries(&mut self) -> Vec<transaction::TableQuery> {
         // Initiate resolution of affected tablets if there are enough pending requests.
-        let resolve_queries = self
-            .request_tracker
-            .collect_resolve_queries(&mut self.table_accessor);
-
-        if !resolve_queries.is_empty() {
-            transaction_context.resolve(resolve_queries, handler);
-        }
+        self.request_tracker
+            .collect_resolve_queries(&mut self.table_accessor)
     }
 
     fn maybe_start_transaction(
-- 
2.43.0


From 8d8e8073fbd03529c3e2c29881b815cdc3b56893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:40 +0000
Subject: [PATCH 03/54] fix: honour the configured processing threshold of the
 key value store

The configuration was never stored, so the threshold was always zero and
transactions were started with empty queries.
---
 apps/tablet_cache/service/src/store.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/apps/tablet_cache/service/src/store.rs b/apps/tablet_cache/service/src/store.rs
index 237a4bc..00a7d14 100644
--- a/apps/tablet_cache/service/src/store.rs
+++ b/apps/tablet_cache/service/src/store.rs
@@ -195,6 +195,7 @@ impl SimpleKeyValueStoreCore {
         self.table_accessor = TableAccessor::create(config.table_name.clone());
         self.request_tracker =
             RequestTracker::create(config.min_pending_before_resolve.try_into().unwrap());
+        self.config = config;
     }
 
     fn handle_query_resolve(
@@ -385,7 +386,7 @@ impl RequestTracker {
         // If minimum pending requests threshold has been reached, create
         // table query with these requests and resolve which tablets they
         // affect.
-        if self.pending_requests.len() >= self.min_pending {
+        if !self.pending_requests.is_empty() && self.pending_requests.len() >= self.min_pending {
             let query = create_table_query(table_accessor, &self.pending_requests);
             self.waiting_resolution_requests
                 .insert(query.get_id(), mem::take(&mut self.pending_requests));
@@ -442,7 +443,10 @@ impl TabletTracker {
         // If minimum pending threshold has been reached and there is no
         // active transaction, create table query with these requests to
         // process within a transaction.
-        if self.pending_requests.len() >= self.min_pending && !self.has_transaction {
+        if !self.pending_requests.is_empty()
+            && self.pending_requests.len() >= self.min_pending
+            && !self.has_transaction
+        {
             self.has_transaction = true;
             let query = create_table_query(table_accessor, &self.pending_requests);
             self.waiting_processing_requests
-- 
2.43.0


From 85320653fe8ff2fc6c0b1cab166e703560fe67d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:40 +0000
Subject: [PATCH 04/54] fix: hand resolved requests to the tablet that covers
 their keys

When a query resolved into several tablets all of its requests were attached
to the first one.
---
 apps/tablet_cache/service/src/store.rs | 37 +++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/apps/tablet_cache/service/src/store.rs b/apps/tablet_cache/service/src/store.rs
index 00a7d14..cec03ac 100644
--- a/apps/tablet_cache/service/src/store.rs
+++ b/apps/tablet_cache/service/src/store.rs
@@ -214,7 +214,7 @@ impl SimpleKeyValueStoreCore {
             // Move resolved requests as pending to the tablet they affect.
             tablet_tracker.append_pending_requests(
                 self.request_tracker
-                    .take_resolved_requests(table_query.get_id()),
+                    .take_resolved_requests(&self.table_accessor, &table_query),
             );
         }
     }
@@ -349,6 +349,13 @@ impl TableAccessor {
         hasher.finish() as u32
     }
 
+    fn hash_request(&self, request: &KeyValueRequest) -> u32 {
+        match request {
+            KeyValueRequest::Put(_, put_request) => self.hash_key(&put_request.key),
+            KeyValueRequest::Get(_, get_request) => self.hash_key(&get_request.key),
+        }
+    }
+
     fn get_next_id(&mut self) -> u64 {
         self.query_counter += 1;
         self.query_counter
@@ -396,11 +403,29 @@ impl RequestTracker {
         queries
     }
 
-    fn take_resolved_requests(&mut self, table_query_id: u64) -> Vec<KeyValueRequest> {
-        // Resolved requests are taken for processing within a transaction.
-        self.waiting_resolution_requests
-            .remove(&table_query_id)
-            .unwrap_or(Vec::new())
+    fn take_resolved_requests(
+        &mut self,
+        table_accessor: &TableAccessor,
+        table_query: &transaction::TableQuery,
+    ) -> Vec<KeyValueRequest> {
+        // Resolved requests are taken for processing within a transaction. The query
+        // may be resolved into multiple tablets, in which case only the requests with
+        // the keys covered by the given part of the query are taken.
+        let requests = self
+            .waiting_resolution_requests
+            .remove(&table_query.get_id())
+            .unwrap_or(Vec::new());
+        let (resolved_requests, waiting_requests): (Vec<_>, Vec<_>) =
+            requests.into_iter().partition(|request| {
+                table_query
+                    .get_key_hashes()
+                    .contains(&table_accessor.hash_request(request))
+            });
+        if !waiting_requests.is_empty() {
+            self.waiting_resolution_requests
+                .insert(table_query.get_id(), waiting_requests);
+        }
+        resolved_requests
     }
 }
 
-- 
2.43.0


From 355b9463279d34c1b65184e4b775a73e441ddbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:40 +0000
Subject: [PATCH 05/54] fix: retry key value requests of failed transactions

Requests of a transaction that failed were dropped and never answered.
---
 apps/tablet_cache/service/src/store.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/apps/tablet_cache/service/src/store.rs b/apps/tablet_cache/service/src/store.rs
index cec03ac..a184946 100644
--- a/apps/tablet_cache/service/src/store.rs
+++ b/apps/tablet_cache/service/src/store.rs
@@ -303,10 +303,15 @@ impl SimpleKeyValueStoreCore {
         // against them.
         for tablet_id in affected_tablet_ids {
             if let Some(tablet_tracker) = self.tablet_trackers.get_mut(&tablet_id) {
-                tablet_tracker.complete_transaction();
+                failed_requests.append(&mut tablet_tracker.complete_transaction());
             }
         }
 
+        // Enqueue requests of the failed transactions for retry.
+        for failed_request in failed_requests {
+            self.request_tracker.append_pending_request(failed_request);
+        }
+
         // Clear all completed transactions and associated state.
         for transaction_id in completed_transactions {
             self.transaction_trackers.remove(&transaction_id);
@@ -588,8 +593,13 @@ impl TabletTracker {
         }
     }
 
-    fn complete_transaction(&mut self) {
+    fn complete_transaction(&mut self) -> Vec<KeyValueRequest> {
         self.has_transaction = false;
+        // Requests that have not been processed by the transaction.
+        mem::take(&mut self.waiting_processing_requests)
+            .into_values()
+            .flatten()
+            .collect()
     }
 }
 
-- 
2.43.0


From 2aab3287ff2b1563c46aee959037996fab2f74fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:22 +0000
Subject: [PATCH 06/54] fix: stop considering failed tablet processing as
 pending

A transaction whose loading or storing failed stayed pending forever and could
never be committed or retried.
---
 apps/tablet_cache/service/src/transaction/coordinator.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/coordinator.rs b/apps/tablet_cache/service/src/transaction/coordinator.rs
index acbfe95..b6b6bf8 100644
--- a/apps/tablet_cache/service/src/transaction/coordinator.rs
+++ b/apps/tablet_cache/service/src/transaction/coordinator.rs
@@ -495,9 +495,10 @@ impl<T> PreparingTabletTransactionState<T> {
 
     fn is_active(&self) -> bool {
         for process_state in &self.process_requests {
-            let TabletProcessStatus::Completed = process_state.status else {
-                return true;
-            };
+            match process_state.status {
+                TabletProcessStatus::Completed | TabletProcessStatus::Failed => {}
+                _ => return true,
+            }
         }
         false
     }
-- 
2.43.0


From d66e9148cc28d7ce67e1938a18ee4e5977558d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:22 +0000
Subject: [PATCH 07/54] fix: fail transactions that end with an error instead
 of panicking

Errors carry no existing tablet and may carry fewer results than ops.
---
 .../service/src/transaction/coordinator.rs    | 43 ++++++++++---------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/coordinator.rs b/apps/tablet_cache/service/src/transaction/coordinator.rs
index b6b6bf8..adc4317 100644
--- a/apps/tablet_cache/service/src/transaction/coordinator.rs
+++ b/apps/tablet_cache/service/src/transaction/coordinator.rs
@@ -544,7 +544,11 @@ impl CommittingTabletTransactionState {
         // but for the time being we are doing a simple check of that all tablet ops
         // succeeded.
         let mut metadata_to_update_cache = Vec::new();
-        let mut transaction_outcome = TabletTransactionOutcome::Succeeded;
+        let mut transaction_outcome = if self.tablet_ops.len() == tablet_op_results.len() {
+            TabletTransactionOutcome::Succeeded
+        } else {
+            TabletTransactionOutcome::Failed
+        };
         for (tablet_op, tablet_op_result) in self.tablet_ops.iter().zip(tablet_op_results.iter()) {
             let op_succeeded = tablet_op_result.status == TabletOpStatus::Succeeded as i32;
             if !op_succeeded {
@@ -556,15 +560,14 @@ impl CommittingTabletTransactionState {
                     Some(tablet_op_result::OpResult::CheckTablet(check_tablet_op_result)),
                 ) => {
                     if !op_succeeded {
-                        metadata_to_update_cache.push((
-                            tablet_op.table_name.clone(),
-                            check_tablet_op_result
-                                .existing_tablet
-                                .as_ref()
-                                .unwrap()
-                                .clone(),
-                            true,
-                        ));
+                        // Existing tablet is not known if the request ended with an error.
+                        if let Some(existing_tablet) = &check_tablet_op_result.existing_tablet {
+                            metadata_to_update_cache.push((
+                                tablet_op.table_name.clone(),
+                                existing_tablet.clone(),
+                                true,
+                            ));
+                        }
                     }
                 }
                 (
@@ -572,15 +575,14 @@ impl CommittingTabletTransactionState {
                     Some(tablet_op_result::OpResult::UpdateTablet(update_tablet_op_result)),
                 ) => {
                     if !op_succeeded {
-                        metadata_to_update_cache.push((
-                            tablet_op.table_name.clone(),
-                            update_tablet_op_result
-                                .existing_tablet
-                                .as_ref()
-                                .unwrap()
-                                .clone(),
-                            true,
-                        ));
+                        // Existing tablet is not known if the request ended with an error.
+                        if let Some(existing_tablet) = &update_tablet_op_result.existing_tablet {
+                            metadata_to_update_cache.push((
+                                tablet_op.table_name.clone(),
+                                existing_tablet.clone(),
+                                true,
+                            ));
+                        }
                     } else {
                         metadata_to_update_cache.push((
                             tablet_op.table_name.clone(),
@@ -590,7 +592,8 @@ impl CommittingTabletTransactionState {
                     }
                 }
                 _ => {
-                    panic!("Unexpected tablet op and result combination");
+                    // Result doesn't correspond to the op, the outcome cannot be trusted.
+                    transaction_outcome = TabletTransactionOutcome::Failed;
                 }
             }
         }
-- 
2.43.0


From b7a8a04f1955f157320560e1bc19de9efa87c39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:22 +0000
Subject: [PATCH 08/54] fix: do not cache metadata of tablets that have not
 been committed

Update ops that succeeded individually in a failed transaction had their new
metadata cached, exposing uncommitted contents to later transactions.
---
 apps/tablet_cache/service/src/transaction/coordinator.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/tablet_cache/service/src/transaction/coordinator.rs b/apps/tablet_cache/service/src/transaction/coordinator.rs
index adc4317..0252d3c 100644
--- a/apps/tablet_cache/service/src/transaction/coordinator.rs
+++ b/apps/tablet_cache/service/src/transaction/coordinator.rs
@@ -597,6 +597,10 @@ impl CommittingTabletTransactionState {
                 }
             }
         }
+        if transaction_outcome == TabletTransactionOutcome::Failed {
+            // None of the updates has been committed, only keep the conflicts.
+            metadata_to_update_cache.retain(|(_, _, conflict)| *conflict);
+        }
         (transaction_outcome, metadata_to_update_cache)
     }
 }
-- 
2.43.0


From 3726e1c7f566a6998f9d481c59db76096268e38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:22 +0000
Subject: [PATCH 09/54] fix: complete transactions that affect no tablets

The response to a request without ops has no results and never reached the
transaction.
---
 apps/tablet_cache/service/src/transaction/coordinator.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/apps/tablet_cache/service/src/transaction/coordinator.rs b/apps/tablet_cache/service/src/transaction/coordinator.rs
index 0252d3c..e73880f 100644
--- a/apps/tablet_cache/service/src/transaction/coordinator.rs
+++ b/apps/tablet_cache/service/src/transaction/coordinator.rs
@@ -272,6 +272,12 @@ impl<T> TabletTransactionCoordinator<T> for DefaultTabletTransactionCoordinator<
                 // Completion in preparing state goes over results of each process call.
                 match transaction_state.complete() {
                     // Try to commit transaction if all processing succeeded.
+                    PreparingTabletTransactionOutcome::Succeeded(tablet_ops)
+                        if tablet_ops.is_empty() =>
+                    {
+                        // Nothing has been read or written, hence nothing to commit.
+                        TabletTransactionState::Completed(TabletTransactionOutcome::Succeeded)
+                    }
                     PreparingTabletTransactionOutcome::Succeeded(tablet_ops) => {
                         // Stash outgoing message to commit transaction to the Tablet Store.
                         self.transaction_stash_request(transaction_id, tablet_ops.clone());
-- 
2.43.0


From b4dab43362fd9eb7690b8e36b117f54c80f3a273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:22 +0000
Subject: [PATCH 10/54] fix: tell apart tablets of different tables in a
 transaction

Tablets with the same id and version in two tables replaced each other, so a
transaction processed and validated only one of them.
---
 .../service/src/transaction/coordinator.rs    | 24 ++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/coordinator.rs b/apps/tablet_cache/service/src/transaction/coordinator.rs
index e73880f..6c145a6 100644
--- a/apps/tablet_cache/service/src/transaction/coordinator.rs
+++ b/apps/tablet_cache/service/src/transaction/coordinator.rs
@@ -398,7 +398,7 @@ impl<T> PreparingTabletTransactionState<T> {
                                 for (query, metadata) in resolve_values {
                                     // Start tracking state of the affected tablet.
                                     process_state.tablets.insert(
-                                        create_tablet_key(&metadata),
+                                        create_tablet_key(&query, &metadata),
                                         TabletState::create(query, metadata.clone()),
                                     );
                                     resolved_metadata.push(metadata);
@@ -429,11 +429,13 @@ impl<T> PreparingTabletTransactionState<T> {
                                 for (metadata, data) in load_values {
                                     // Set loaded tablet data in corresponding tablet state that we look up
                                     // using metadata.
-                                    let tablet_state = process_state
-                                        .tablets
-                                        .get_mut(&create_tablet_key(&metadata))
-                                        .unwrap();
-                                    tablet_state.tablet_init(data);
+                                    // Tablets from different tables may be described by the same
+                                    // metadata and share the data.
+                                    for tablet_state in process_state.tablets.values_mut() {
+                                        if *tablet_state.tablet.get_metadata() == metadata {
+                                            tablet_state.tablet_init(data.clone());
+                                        }
+                                    }
                                 }
 
                                 // Create collection of  mutable references that process handler will consume.
@@ -611,9 +613,9 @@ impl CommittingTabletTransactionState {
     }
 }
 
-// Creates tablet key that consists of tablet id and its version.
-fn create_tablet_key(metadata: &TabletMetadata) -> u64 {
-    (metadata.tablet_id as u64) << 32 | (metadata.tablet_version as u64)
+// Creates tablet key that consists of table name and tablet id.
+fn create_tablet_key(query: &TableQuery, metadata: &TabletMetadata) -> (String, u32) {
+    (query.get_table_name().clone(), metadata.tablet_id)
 }
 
 // Tracks state of a tablet affected by a transaction.
@@ -683,8 +685,8 @@ struct TabletProcessState<T> {
     status: TabletProcessStatus<T>,
     // Handler that will be called to process tablets.
     handler: Box<ProcessHandler<T>>,
-    // Maps tablet key that of tablet id and its version to the tablet state.
-    tablets: HashMap<u64, TabletState<T>>,
+    // Maps tablet key that consists of table name and tablet id to the tablet state.
+    tablets: HashMap<(String, u32), TabletState<T>>,
 }
 
 enum TabletProcessStatus<T> {
-- 
2.43.0


From bf640972839e24ede7b18411c2a9a0a8211ef368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:22 +0000
Subject: [PATCH 11/54] fix: complete tablet batches only once all of their
 tablets are ready

A batch counted its entries while resolving the cached ones, so it completed
with a part of the tablets when a cached one came before a loading one, and an
empty batch never completed.
---
 .../service/src/transaction/data.rs           | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/data.rs b/apps/tablet_cache/service/src/transaction/data.rs
index 2261515..51f73c9 100644
--- a/apps/tablet_cache/service/src/transaction/data.rs
+++ b/apps/tablet_cache/service/src/transaction/data.rs
@@ -398,7 +398,7 @@ impl<T> TabletDataCache<T> for DefaultTabletDataCache<T> {
 
         self.batch_counter += 1;
         let (mut tablet_batch, result_handle) =
-            TabletBatch::<T>::with_load_state(self.batch_counter);
+            TabletBatch::<T>::with_load_state(self.batch_counter, tablet_cache_keys.len());
 
         // Process immediately available tablet cache entries or register for the notification
         // on when the tablet cache entry is ready.
@@ -465,7 +465,7 @@ impl<T> TabletDataCache<T> for DefaultTabletDataCache<T> {
         }
         self.batch_counter += 1;
         let (mut tablet_batch, result_handle) =
-            TabletBatch::<T>::with_store_state(self.batch_counter);
+            TabletBatch::<T>::with_store_state(self.batch_counter, tablet_cache_keys.len());
         // Process immediately available tablet cache entries or register for the notification
         // on when the tablet cache entry is ready.
         self.register_pending_cache_entries(&mut tablet_batch, &tablet_cache_keys);
@@ -741,31 +741,41 @@ struct TabletBatch<T> {
 impl<T> TabletBatch<T> {
     fn with_load_state(
         batch_id: u64,
+        remaining_cache_entries: usize,
     ) -> (
         Self,
         ResultHandle<Vec<(TabletMetadata, TabletData<T>)>, TabletDataStorageStatus>,
     ) {
-        let (op_handle, op_source) = create_eventual_result::<
+        let (op_handle, mut op_source) = create_eventual_result::<
             Vec<(TabletMetadata, TabletData<T>)>,
             TabletDataStorageStatus,
         >();
+        if remaining_cache_entries == 0 {
+            op_source.set_result(Vec::new());
+        }
         (
             Self {
                 batch_id,
                 batch_state: TabletBatchState::Load(Vec::new(), op_source),
-                remaining_cache_entries: 0,
+                remaining_cache_entries,
             },
             op_handle,
         )
     }
 
-    fn with_store_state(batch_id: u64) -> (Self, ResultHandle<(), TabletDataStorageStatus>) {
-        let (op_handle, op_source) = create_eventual_result::<(), TabletDataStorageStatus>();
+    fn with_store_state(
+        batch_id: u64,
+        remaining_cache_entries: usize,
+    ) -> (Self, ResultHandle<(), TabletDataStorageStatus>) {
+        let (op_handle, mut op_source) = create_eventual_result::<(), TabletDataStorageStatus>();
+        if remaining_cache_entries == 0 {
+            op_source.set_result(());
+        }
         (
             Self {
                 batch_id,
                 batch_state: TabletBatchState::Store(op_source),
-                remaining_cache_entries: 0,
+                remaining_cache_entries,
             },
             op_handle,
         )
@@ -776,7 +786,6 @@ impl<T> TabletBatch<T> {
     }
 
     fn add_pending_cache_entry(&mut self, tablet_cache_entry: &mut TabletCacheEntry<T>) {
-        self.remaining_cache_entries += 1;
         match tablet_cache_entry.get_state() {
             TabletCacheEntryState::Load | TabletCacheEntryState::Store(_) => {
                 tablet_cache_entry.register_waiting_batch(self.batch_id);
-- 
2.43.0


From fef02b6b69f114310e97d5be63b5cfbd3a4cb4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:22 +0000
Subject: [PATCH 12/54] fix: tell apart tablets that have never been stored in
 the data cache

Such tablets have empty uri and were all served as the first one loaded.
---
 apps/tablet_cache/service/src/transaction/data.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/apps/tablet_cache/service/src/transaction/data.rs b/apps/tablet_cache/service/src/transaction/data.rs
index 51f73c9..e085809 100644
--- a/apps/tablet_cache/service/src/transaction/data.rs
+++ b/apps/tablet_cache/service/src/transaction/data.rs
@@ -564,6 +564,8 @@ impl<T> TabletDataCachePolicy<T> for DefaultTabletDataCachePolicy<T> {
 // Uniquely identifies tablet cache entry.
 #[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Hash)]
 struct TabletCacheKey {
+    // Id of the tablet, as tablets that have never been stored share empty uri.
+    tablet_id: u32,
     // Uri of the blob in Tablet Data Storage.
     uri: String,
 }
@@ -571,6 +573,7 @@ struct TabletCacheKey {
 impl TabletCacheKey {
     fn from(tablet_metadata: &TabletMetadata) -> Self {
         Self {
+            tablet_id: tablet_metadata.tablet_id,
             uri: tablet_metadata.blob_uri.clone(),
         }
     }
-- 
2.43.0


From 836153200cb2b95edfb96d3ae65338c0493defae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:22 +0000
Subject: [PATCH 13/54] fix: allow storing the same version of tablet contents
 again

A retry that produces the same contents, for example after an rpc error,
panicked because the cache entry already existed.
---
 apps/tablet_cache/service/src/transaction/data.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/data.rs b/apps/tablet_cache/service/src/transaction/data.rs
index e085809..4c167d0 100644
--- a/apps/tablet_cache/service/src/transaction/data.rs
+++ b/apps/tablet_cache/service/src/transaction/data.rs
@@ -456,10 +456,10 @@ impl<T> TabletDataCache<T> for DefaultTabletDataCache<T> {
                     self.out_messages.push(store_tablet_request);
                     map_entry.insert(tablet_cache_entry);
                 }
-                Occupied(map_entry) => {
-                    // Any new tablet cache write must be unique as once created tablets
-                    // are immutable.
-                    panic!("Cache entry with given cache id already exists");
+                Occupied(_) => {
+                    // The same contents is already being stored, loaded or cached under the
+                    // same uri, for example by a transaction that is being retried. Given that
+                    // uri is derived from the contents the existing entry can be shared.
                 }
             }
         }
-- 
2.43.0


From a39303907677a0d49b7767132819399ad719631c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:22 +0000
Subject: [PATCH 14/54] fix: verify integrity of the loaded tablet contents

Tablet contents comes from an untrusted storage and was never compared with the
hash kept in the tablet metadata.
---
 apps/tablet_cache/service/src/transaction/data.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/apps/tablet_cache/service/src/transaction/data.rs b/apps/tablet_cache/service/src/transaction/data.rs
index 4c167d0..bc4a1db 100644
--- a/apps/tablet_cache/service/src/transaction/data.rs
+++ b/apps/tablet_cache/service/src/transaction/data.rs
@@ -314,6 +314,16 @@ impl<T> DefaultTabletDataCache<T> {
         tablet_metadata: &TabletMetadata,
         tablet_contents: Bytes,
     ) -> Result<T, ()> {
+        // Verify that the storage returned the very contents described by the metadata.
+        if tablet_metadata.blob_hash.is_empty() {
+            // Tablet that has never been stored has no blob.
+            if tablet_metadata.blob_uri.is_empty() && !tablet_contents.is_empty() {
+                return Err(());
+            }
+        } else if tablet_metadata.blob_hash != Sha256::digest(&tablet_contents).to_vec() {
+            return Err(());
+        }
+
         // Currently table name is not propagated to the serializer, will be
         // added later.
         let tablet_value = self
-- 
2.43.0


From 98a2b9a33ea9f16e28fc0f78826d0bc98ab51661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:22 +0000
Subject: [PATCH 15/54] fix: treat unexpected storage responses as failures

Responses come from an untrusted host and must not stop the cache.
---
 .../tablet_cache/service/src/transaction/data.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/data.rs b/apps/tablet_cache/service/src/transaction/data.rs
index bc4a1db..12d0270 100644
--- a/apps/tablet_cache/service/src/transaction/data.rs
+++ b/apps/tablet_cache/service/src/transaction/data.rs
@@ -693,15 +693,13 @@ impl<T> TabletCacheEntry<T> {
                         self.cache_entry_state = TabletCacheEntryState::Error;
                     }
                 }
-                Some(TabletDataStorageStatus::Failed) => {
-                    self.cache_entry_state = TabletCacheEntryState::Error;
-                }
                 _ => {
-                    panic!("Unexpected load tablet status");
+                    self.cache_entry_state = TabletCacheEntryState::Error;
                 }
             }
         } else {
-            panic!("Tablet cache entry doesn't expect load response");
+            // Unexpected response, the outcome of the store is unknown.
+            self.cache_entry_state = TabletCacheEntryState::Error;
         }
     }
 
@@ -711,15 +709,13 @@ impl<T> TabletCacheEntry<T> {
                 Some(TabletDataStorageStatus::Succeeded) => {
                     self.cache_entry_state = TabletCacheEntryState::Cache(tablet_value.clone());
                 }
-                Some(TabletDataStorageStatus::Failed) => {
-                    self.cache_entry_state = TabletCacheEntryState::Error;
-                }
                 _ => {
-                    panic!("Unexpected store tablet status");
+                    self.cache_entry_state = TabletCacheEntryState::Error;
                 }
             }
         } else {
-            panic!("Tablet cache entry doesn't expect store response");
+            // Unexpected response, the outcome of the load is unknown.
+            self.cache_entry_state = TabletCacheEntryState::Error;
         }
     }
 }
-- 
2.43.0


From ba6a32b439cb3d09fb48574a7f768e366bf2ffc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:22 +0000
Subject: [PATCH 16/54] fix: map every key hash to the tablet that is clockwise
 on the ring

The key hash that moved the mapping to the next tablet was dropped, and the
mapping moved by a single tablet only.
---
 .../service/src/transaction/metadata.rs       | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/metadata.rs b/apps/tablet_cache/service/src/transaction/metadata.rs
index 687df3e..5778519 100644
--- a/apps/tablet_cache/service/src/transaction/metadata.rs
+++ b/apps/tablet_cache/service/src/transaction/metadata.rs
@@ -453,24 +453,27 @@ impl TableMetadata {
             if let Some(fresh_tablet_ids) = table_region.maybe_fresh_tablet_ids() {
                 // Note that tablet ids must contain at least one entry. It may be the only entry on
                 // the whole consistent hashing ring.
-                let mut tablet_ids_it = fresh_tablet_ids.iter().cycle();
-                let mut curr_tablet_id = *tablet_ids_it.next().unwrap();
+                let first_tablet_id = *fresh_tablet_ids.first().unwrap();
+                let mut curr_tablet_id = first_tablet_id;
                 let mut curr_key_hashes = Vec::new();
-                // Merge two sorted lists of tablet ids and key hashes. Key hashes are handled by
-                // a tablet that is clockwise on the consistent hashing ring.
+                // Group sorted key hashes by tablet. Key hashes are handled by a tablet that is
+                // clockwise on the consistent hashing ring.
                 let mut resolve_result = Vec::new();
                 for key_hash in table_query.get_key_hashes() {
-                    if *key_hash > curr_tablet_id {
+                    let key_tablet_id = *fresh_tablet_ids
+                        .range(*key_hash..)
+                        .next()
+                        .unwrap_or(&first_tablet_id);
+                    if key_tablet_id != curr_tablet_id {
                         if !curr_key_hashes.is_empty() {
                             resolve_result.push((
                                 table_query.create_from(mem::take(&mut curr_key_hashes)),
                                 self.tablets.get(&curr_tablet_id).unwrap().clone(),
                             ));
                         }
-                        curr_tablet_id = *tablet_ids_it.next().unwrap();
-                    } else {
-                        curr_key_hashes.push(*key_hash);
+                        curr_tablet_id = key_tablet_id;
                     }
+                    curr_key_hashes.push(*key_hash);
                 }
                 if !curr_key_hashes.is_empty() {
                     resolve_result.push((
-- 
2.43.0


From 5b86fc5727c83b9df3d6e5703de669383f87a405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:22 +0000
Subject: [PATCH 17/54] fix: cover the end of the consistent hashing ring with
 a region

Resolving a key hash from the last region panicked.
---
 apps/tablet_cache/service/src/transaction/metadata.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/tablet_cache/service/src/transaction/metadata.rs b/apps/tablet_cache/service/src/transaction/metadata.rs
index 5778519..a26ac28 100644
--- a/apps/tablet_cache/service/src/transaction/metadata.rs
+++ b/apps/tablet_cache/service/src/transaction/metadata.rs
@@ -354,7 +354,8 @@ struct TableMetadata {
 impl TableMetadata {
     // Prefills table regions and marks them all as stale.
     fn create(table_name: String, region_size: u32) -> Self {
-        let regions_count = u32::MAX / region_size;
+        // Include the very last region which may be smaller than others.
+        let regions_count = u32::MAX / region_size + 1;
         let mut regions = HashMap::with_capacity(regions_count as usize);
         for region_idx in 0..regions_count {
             // Regions are identified by the starting position on the consistent hashing ring.
-- 
2.43.0


From 8d2627bee0a8f72ced1fa5f7fde196c1615218f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:22 +0000
Subject: [PATCH 18/54] fix: resolve all queries that wait for the same region

When two queries of a request affected the same region one of them was lost and
the request was resolved twice.
---
 .../service/src/transaction/metadata.rs       | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/metadata.rs b/apps/tablet_cache/service/src/transaction/metadata.rs
index a26ac28..76b1797 100644
--- a/apps/tablet_cache/service/src/transaction/metadata.rs
+++ b/apps/tablet_cache/service/src/transaction/metadata.rs
@@ -554,8 +554,8 @@ enum TableResolveNotification {
 // Tracks pending request to resolve tablets.
 struct TabletResolve {
     notification: TableResolveNotification,
-    // Maps table name and region index to a pending table query.
-    pending_table_queries: HashMap<(String, u32), TableQuery>,
+    // Maps table name and region index to pending table queries.
+    pending_table_queries: HashMap<(String, u32), Vec<TableQuery>>,
     // Maps table name and tablet id to resolve result builder.
     results: HashMap<(String, u32), TabletResolveResult>,
 }
@@ -595,11 +595,14 @@ impl TabletResolve {
             } else {
                 // Otherwise register pending query and wait for the corresponding region
                 // state to become fresh.
-                table_metadata.register_pending_query(resolve_request_id, table_region_idx);
-                tablet_resolve.pending_table_queries.insert(
-                    (table_query.get_table_name().clone(), table_region_idx),
-                    table_query,
-                );
+                let pending_table_queries = tablet_resolve
+                    .pending_table_queries
+                    .entry((table_query.get_table_name().clone(), table_region_idx))
+                    .or_insert(Vec::new());
+                if pending_table_queries.is_empty() {
+                    table_metadata.register_pending_query(resolve_request_id, table_region_idx);
+                }
+                pending_table_queries.push(table_query);
             }
         }
         // Try to produce results if there are no more pending queries.
@@ -657,9 +660,10 @@ impl TabletResolve {
         table_metadata: &TableMetadata,
     ) {
         // Remove pending query now that corresponding region state is fresh.
-        if let Some(pending_table_query) = self
+        for pending_table_query in self
             .pending_table_queries
             .remove(&(table_name.clone(), table_region_idx))
+            .unwrap_or(Vec::new())
         {
             // Resolve pending query into a number of sub-queries that are mapped
             // to particular tablets.
-- 
2.43.0


From 182f48815a96f600d1489549f47e8aaf3a0d63ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:22 +0000
Subject: [PATCH 19/54] fix: treat incomplete responses of the tablet store as
 errors

Results without an op result were dropped, so the remaining ones were matched
with wrong ops or the transaction never completed. Responses that nothing waits
for are ignored.
---
 .../service/src/transaction/manager.rs           | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/manager.rs b/apps/tablet_cache/service/src/transaction/manager.rs
index 1ddb701..39ffa9f 100644
--- a/apps/tablet_cache/service/src/transaction/manager.rs
+++ b/apps/tablet_cache/service/src/transaction/manager.rs
@@ -275,8 +275,20 @@ impl<T> TabletTransactionManagerCore<T> {
                 _execute_ops_response,
                 tablets_response,
             ) => {
-                self.tablets_errors.remove(&correlation_id);
-                self.process_in_tablets_op_response(correlation_id, tablets_response);
+                if let Some(tablets_error) = self.tablets_errors.remove(&correlation_id) {
+                    // Response that doesn't cover every op is not different from an error.
+                    let tablet_results = &tablets_response.tablet_results;
+                    let is_complete = tablet_results.len() == tablets_error.tablet_results.len()
+                        && tablet_results.iter().all(|r| r.op_result.is_some());
+                    self.process_in_tablets_op_response(
+                        correlation_id,
+                        if is_complete {
+                            tablets_response
+                        } else {
+                            tablets_error
+                        },
+                    );
+                }
             }
             InMessage::ExecuteTabletOpsError(correlation_id, _execute_ops_error) => {
                 if let Some(tablets_error) = self.tablets_errors.remove(&correlation_id) {
-- 
2.43.0


From a1dac688950a112656414d37e522413a2321e151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:22 +0000
Subject: [PATCH 20/54] fix: do not panic on malformed responses of the tablet
 store

---
 apps/tablet_cache/service/src/actor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apps/tablet_cache/service/src/actor.rs b/apps/tablet_cache/service/src/actor.rs
index c0c4bf3..38c5f0f 100644
--- a/apps/tablet_cache/service/src/actor.rs
+++ b/apps/tablet_cache/service/src/actor.rs
@@ -164,7 +164,9 @@ impl<T: transaction::TabletTransactionManager<Bytes>, S: store::KeyValueStore> A
                             response,
                         )),
                     InMsg::ExecuteTabletOpsResponse(response) => {
-                        let tablets_response = TabletsResponse::decode(command.payload).unwrap();
+                        // Malformed response is handled as the one without any results.
+                        let tablets_response =
+                            TabletsResponse::decode(command.payload).unwrap_or_default();
                         self.transaction_manager.process_in_message(
                             transaction::InMessage::ExecuteTabletOpsResponse(
                                 command.correlation_id,
-- 
2.43.0


From b8a9ba7b0e4fdab0179325fabcdb32e6e048f19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:39 +0000
Subject: [PATCH 21/54] fix: fail tablet ops that are not supported instead of
 panicking

The panic happened while applying a committed entry and therefore stopped every
replica, again after each restart.
---
 apps/tablet_store/service/src/actor.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/apps/tablet_store/service/src/actor.rs b/apps/tablet_store/service/src/actor.rs
index 0a8f284..40328d2 100644
--- a/apps/tablet_store/service/src/actor.rs
+++ b/apps/tablet_store/service/src/actor.rs
@@ -187,8 +187,15 @@ impl TableMetadata {
                 }
                 OpResult::UpdateTablet(update_tablet_result)
             }
-            Op::AddTablet(_add_tablet_op) => todo!(),
-            Op::RemoveTablet(_remove_tablet_op) => todo!(),
+            // Adding and removing tablets is not supported yet.
+            Op::AddTablet(_add_tablet_op) => {
+                op_result.status = TabletOpStatus::Invalid.into();
+                OpResult::AddTablet(AddTabletResult::default())
+            }
+            Op::RemoveTablet(_remove_tablet_op) => {
+                op_result.status = TabletOpStatus::Invalid.into();
+                OpResult::RemoveTablet(RemoveTabletResult::default())
+            }
         });
 
         op_result
-- 
2.43.0


From d0e12ef9e822a2117fdd053d9f791df9c415c6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:39 +0000
Subject: [PATCH 22/54] fix: fail transactions that update the same tablet more
 than once

Both updates of the same tablet version succeeded and one of them was lost.
---
 apps/tablet_store/service/src/actor.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/apps/tablet_store/service/src/actor.rs b/apps/tablet_store/service/src/actor.rs
index 40328d2..2665b81 100644
--- a/apps/tablet_store/service/src/actor.rs
+++ b/apps/tablet_store/service/src/actor.rs
@@ -309,8 +309,20 @@ impl<C: TabletConfigurator> TabletStoreActor<C> {
     fn on_apply_tablets_request(&mut self, request: TabletsRequest) -> (OutMsg, Bytes) {
         let mut all_succeeded = true;
         let mut tablet_op_prepare_results = Vec::new();
+        let mut updated_tablet_ids = HashSet::new();
         for tablet_op in &request.tablet_ops {
-            let tablet_op_result = self.prepare_tablet_op(tablet_op);
+            let mut tablet_op_result = self.prepare_tablet_op(tablet_op);
+            if let Some(Op::UpdateTablet(UpdateTabletOp {
+                tablet_metadata: Some(updated_tablet),
+            })) = &tablet_op.op
+            {
+                // Only one of the updates of the same version can be committed.
+                if !updated_tablet_ids
+                    .insert((tablet_op.table_name.clone(), updated_tablet.tablet_id))
+                {
+                    tablet_op_result.status = TabletOpStatus::Failed.into();
+                }
+            }
             all_succeeded &= tablet_op_result.status == TabletOpStatus::Succeeded as i32;
             tablet_op_prepare_results.push(tablet_op_result);
         }
-- 
2.43.0


From b19e3abd0ccc23f8cd74106f549e3eb4736924a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:12 +0000
Subject: [PATCH 23/54] fix: ignore Raft messages that are misrouted or name
 another sender

The driver logged that it ignores them and processed them all the same.
---
 runtime/src/driver.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index 8838820..b219b78 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -359,13 +359,15 @@ impl<
                         "Ignoring incorectly routed Raft message: recipient id {}",
                         recipient_replica_id
                     );
+                    return Ok(());
                 }
-                if message.get_from() != sender_replica_id {
+                if message.get_from() != sender_replica_id || message.get_to() != self.id {
                     // Ignore malformed message
                     warn!(
                         self.logger,
                         "Ignoring malformed Raft message: sender id {}", sender_replica_id
                     );
+                    return Ok(());
                 }
 
                 // Advance Raft internal state by one step.
-- 
2.43.0


From 4027396dac536f3772611e5dd1dcf146cfe54449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:13 +0000
Subject: [PATCH 24/54] fix: late message of a removed peer does not terminate
 the replica

Raft refuses responses from peers it does not track, which is how a message
looks that was under way when its sender was removed from the cluster.
---
 runtime/src/driver.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index b219b78..c29bb39 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -372,6 +372,16 @@ impl<
 
                 // Advance Raft internal state by one step.
                 match self.raft.make_step(message) {
+                    Err(RaftError::StepPeerNotFound) => {
+                        // Late message from a peer that is no longer a member of the cluster.
+                        warn!(
+                            self.logger,
+                            "Ignoring Raft message from unknown peer: sender id {}",
+                            sender_replica_id
+                        );
+
+                        Ok(())
+                    }
                     Err(e) => {
                         error!(self.logger, "Raft experienced unrecoverable error: {}", e);
 
-- 
2.43.0


From 62d0f3de7557ebfe69dda142bc2bf9e65f2b5420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:13 +0000
Subject: [PATCH 25/54] fix: dropped proposal does not terminate the replica

Raft drops proposals of a replica that knows no leader or that has been
removed from the cluster, the driver panicked on them.
---
 runtime/src/driver.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index c29bb39..53421c2 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -397,7 +397,9 @@ impl<
     fn make_raft_proposal(&mut self, proposal_contents: Bytes) {
         debug!(self.logger, "Making Raft proposal");
 
-        self.raft.make_proposal(proposal_contents).unwrap();
+        if let Err(e) = self.raft.make_proposal(proposal_contents) {
+            warn!(self.logger, "Dropping Raft proposal: {}", e);
+        }
     }
 
     fn make_raft_config_change_proposal(
-- 
2.43.0


From 678603582438a329d98f50a60ad3c194be65efd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:13 +0000
Subject: [PATCH 26/54] fix: reject cluster changes that Raft would silently
 drop

Changes requested from a replica that does not lead, or while another change
is pending, were reported as pending even though they never took effect.
---
 runtime/src/consensus.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runtime/src/consensus.rs b/runtime/src/consensus.rs
index 797405e..e17726f 100644
--- a/runtime/src/consensus.rs
+++ b/runtime/src/consensus.rs
@@ -316,6 +316,11 @@ impl<S: Store + RaftStorage> Raft for RaftSimple<S> {
         &mut self,
         config_change: RaftConfigChange,
     ) -> Result<(), RaftError> {
+        // Raft forwards a proposal to the leader, and the leader silently replaces it with
+        // an empty entry while another config change is pending.
+        if !self.leader() || self.raft_node().raft.has_pending_conf() {
+            return Err(RaftError::ProposalDropped);
+        }
         self.mut_raft_node()
             .propose_conf_change(vec![], config_change)
     }
-- 
2.43.0


From ed9f981d44bd0f14682a89cc2cc4aa64ecc25804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:37 +0000
Subject: [PATCH 27/54] fix: retry the handshake when only the peer considers
 it completed

If the last handshake message is lost the initiator considers the handshake
completed. A replica that has nothing to send by itself, such as one just added
to the cluster, kept ignoring its messages forever.
---
 runtime/src/communication.rs | 57 ++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 16 deletions(-)

diff --git a/runtime/src/communication.rs b/runtime/src/communication.rs
index 9759b4f..51163c5 100644
--- a/runtime/src/communication.rs
+++ b/runtime/src/communication.rs
@@ -309,12 +309,26 @@ impl CommunicationModule for DefaultCommunicationModule {
     }
 
     fn make_tick(&mut self) {
-        for replica in self.replicas.values_mut() {
+        for (&peer_replica_id, replica) in self.replicas.iter_mut() {
             replica.make_tick();
             if let HandshakeState::Failed(ticks_since_failed) = replica.handshake_state
                 && ticks_since_failed >= self.config.handshake_retry_tick
             {
                 replica.reset_state_machine();
+                if mem::take(&mut replica.initiate_on_retry) {
+                    let result = self
+                        .handshake_session_provider
+                        .get(self.replica_id, peer_replica_id, Role::Initiator)
+                        .and_then(|handshake_session| {
+                            replica
+                                .init(handshake_session)
+                                .map_err(|err| anyhow!("{:?}", err))?;
+                            replica.initiate_handshake()
+                        });
+                    if let Err(err) = result {
+                        warn!(self.logger, "Failed to initiate handshake {:?}", err);
+                    }
+                }
             }
         }
     }
@@ -331,6 +345,9 @@ pub struct CommunicationState {
     unencrypted_messages: Vec<OutgoingMessage>,
     encryptor: Option<Box<dyn Encryptor>>,
     handshake_initiated_tick_timeout: u32,
+    // Set if the peer considers a previous handshake completed while this replica does not.
+    // The peer may have no reason to retry and has to be told by a new handshake.
+    initiate_on_retry: bool,
 }
 
 #[derive(PartialEq)]
@@ -359,6 +376,7 @@ impl CommunicationState {
             unencrypted_messages: Vec::new(),
             encryptor: None,
             handshake_initiated_tick_timeout,
+            initiate_on_retry: false,
         }
     }
 
@@ -428,6 +446,26 @@ impl CommunicationState {
         self.unencrypted_messages.push(message);
     }
 
+    // Takes out the initial handshake message to be sent to the peer.
+    fn initiate_handshake(&mut self) -> anyhow::Result<()> {
+        self.pending_handshake_message = self
+            .handshake_session
+            .as_mut()
+            .unwrap()
+            .take_out_message()
+            .inspect_err(|err| {
+                self.transition_to_failed(&err);
+            })?;
+
+        if self.pending_handshake_message.is_none() {
+            let err = anyhow!("No initial handshake message found.");
+            self.transition_to_failed(&err);
+            return Err(err);
+        }
+        self.handshake_state = HandshakeState::Initiated(0);
+        Ok(())
+    }
+
     fn process_out_message(&mut self, message: OutgoingMessage) -> anyhow::Result<()> {
         match &self.handshake_state {
             HandshakeState::Unknown => {
@@ -437,22 +475,8 @@ impl CommunicationState {
                 return Err(err);
             }
             HandshakeState::Initialized => {
-                self.pending_handshake_message = self
-                    .handshake_session
-                    .as_mut()
-                    .unwrap()
-                    .take_out_message()
-                    .inspect_err(|err| {
-                        self.transition_to_failed(&err);
-                    })?;
-
-                if self.pending_handshake_message.is_none() {
-                    let err = anyhow!("No initial handshake message found.");
-                    self.transition_to_failed(&err);
-                    return Err(err);
-                }
+                self.initiate_handshake()?;
                 self.push_or_replace_unencrypted_message(message);
-                self.handshake_state = HandshakeState::Initiated(0);
                 Ok(())
             }
             HandshakeState::Initiated(_) | HandshakeState::Completed => {
@@ -514,6 +538,7 @@ impl CommunicationState {
                             "Message must be SecureChannelHandshake but found {:?}",
                             message
                         ));
+                        self.initiate_on_retry = true;
                         self.transition_to_failed(&err);
                         Err(err)
                     }
-- 
2.43.0


From 29ee5691a13b29d96e4a2b2f6a0a325a4be97d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:47 +0000
Subject: [PATCH 28/54] fix: reject chunks of another snapshot

A late chunk of an aborted transfer was assembled into the snapshot of the next
transfer from the same sender.
---
 runtime/src/snapshot.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/runtime/src/snapshot.rs b/runtime/src/snapshot.rs
index 0544317..6897a46 100644
--- a/runtime/src/snapshot.rs
+++ b/runtime/src/snapshot.rs
@@ -768,8 +768,14 @@ impl ReceiverState {
         }
     }
 
-    fn accept_chunk(&mut self, sender_id: u64, index: u64, chunk_contents: Bytes) -> bool {
-        if sender_id != self.sender_id {
+    fn accept_chunk(
+        &mut self,
+        sender_id: u64,
+        snapshot_id: u32,
+        index: u64,
+        chunk_contents: Bytes,
+    ) -> bool {
+        if sender_id != self.sender_id || snapshot_id != self.snapshot_id {
             return false;
         }
 
@@ -904,6 +910,7 @@ impl SnapshotReceiver for DefaultSnapshotReceiver {
                                 // within range.
                                 if state.accept_chunk(
                                     request.sender_replica_id,
+                                    payload.snapshot_id,
                                     chunk.chunk_index.into(),
                                     chunk.chunk_contents,
                                 ) {
-- 
2.43.0


From 735a95bebb10760140bc1ca0fc7a67aeee1b058b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:06 +0000
Subject: [PATCH 29/54] fix: snapshot transfer does not await an undecryptable
 response forever

The transfer fails, as if the delivery failed, and Raft starts another one.
Failures of deliveries that the transfer does not await are ignored.
---
 runtime/src/driver.rs   | 8 +++++++-
 runtime/src/snapshot.rs | 3 ++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index 53421c2..d4be68a 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -995,6 +995,10 @@ impl<
         deliver_snapshot_response: DeliverSnapshotResponse,
     ) -> Result<(), PalError> {
         self.check_non_ephemeral()?;
+        let deliver_snapshot_failure = DeliverSnapshotFailure {
+            sender_replica_id: deliver_snapshot_response.sender_replica_id,
+            delivery_id: deliver_snapshot_response.delivery_id,
+        };
         let message =
             self.communication
                 .process_in_message(in_message::Msg::DeliverSnapshotResponse(
@@ -1002,7 +1006,9 @@ impl<
                 ))?;
 
         if message.is_none() {
-            return Ok(());
+            // No other response will follow, without a failure the transfer would be
+            // awaiting it forever.
+            return self.process_deliver_snapshot_failure(deliver_snapshot_failure);
         }
 
         let message = message.unwrap();
diff --git a/runtime/src/snapshot.rs b/runtime/src/snapshot.rs
index 6897a46..1c0443c 100644
--- a/runtime/src/snapshot.rs
+++ b/runtime/src/snapshot.rs
@@ -498,7 +498,8 @@ impl SnapshotSenderState {
             }
             Err(error) => {
                 warn!(self.logger, "Rejecting delivery response: {}", error);
-                false
+                // The failure may be of an earlier transfer or has been responded to.
+                !self.pending_chunks.contains_key(&delivery_id)
             }
         };
 
-- 
2.43.0


From 311cd35ae59a26ddbaa8227a2020cc8a7d40787f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:06 +0000
Subject: [PATCH 30/54] fix: failed compare and swap returns the value of the
 counter

The new value was always 0, while it has to be equal to the old value.
---
 apps/atomic_counter/service/src/actor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/atomic_counter/service/src/actor.rs b/apps/atomic_counter/service/src/actor.rs
index ce988e1..ea24f78 100644
--- a/apps/atomic_counter/service/src/actor.rs
+++ b/apps/atomic_counter/service/src/actor.rs
@@ -136,6 +136,7 @@ impl CounterActor {
             compare_and_swap_response.new_value = compare_and_swap_request.new_value;
         } else {
             response.status = CounterStatus::InvalidArgumentError.into();
+            compare_and_swap_response.new_value = existing_value.value;
         }
         response.op = Some(counter_response::Op::CompareAndSwap(
             compare_and_swap_response,
-- 
2.43.0


From c4186c2422f209aa2c2e43a1b8c71cd73999a814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:10 +0000
Subject: [PATCH 31/54] fix: leader that removed itself from the cluster steps
 down

It panicked on the next entry it committed.
---
 runtime/src/consensus.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/runtime/src/consensus.rs b/runtime/src/consensus.rs
index e17726f..8b04517 100644
--- a/runtime/src/consensus.rs
+++ b/runtime/src/consensus.rs
@@ -333,8 +333,15 @@ impl<S: Store + RaftStorage> Raft for RaftSimple<S> {
         &mut self,
         config_change: &RaftConfigChange,
     ) -> Result<RaftConfigState, RaftError> {
-        let config_state = self.mut_raft_node().apply_conf_change(config_change);
-        config_state
+        let config_state = self.mut_raft_node().apply_conf_change(config_change)?;
+        // Raft keeps the leader that has been removed from the cluster in charge, but panics
+        // once it commits another entry.
+        let replica_id = self.raft_node().raft.id;
+        if self.leader() && !config_state.voters.contains(&replica_id) {
+            let term = self.raft_node().raft.term;
+            self.mut_raft_node().raft.become_follower(term, 0);
+        }
+        Ok(config_state)
     }
 
     fn has_ready(&self) -> bool {
-- 
2.43.0


From 3a1d401fc69663143b5b26cf7186761c40ad28a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:35 +0000
Subject: [PATCH 32/54] fix: received snapshot does not reset the term of a
 candidate

Snapshots are handed to Raft without a term. A candidate took it for a message
of term 0, and forgot its term and its vote.
---
 runtime/src/consensus.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/runtime/src/consensus.rs b/runtime/src/consensus.rs
index 8b04517..95a4964 100644
--- a/runtime/src/consensus.rs
+++ b/runtime/src/consensus.rs
@@ -22,8 +22,9 @@ use prost::bytes::Bytes;
 use raft::{
     eraftpb::ConfChange as RaftConfigChange, eraftpb::ConfState as RaftConfigState,
     eraftpb::Entry as RaftEntry, eraftpb::HardState as RaftHardState,
-    eraftpb::Message as RaftMessage, eraftpb::Snapshot as RaftSnapshot, Config as RaftConfig,
-    Error as RaftError, RawNode as RaftNode, RawNode, Ready, SnapshotStatus as RaftSnapshotStatus,
+    eraftpb::Message as RaftMessage, eraftpb::MessageType as RaftMessageType,
+    eraftpb::Snapshot as RaftSnapshot, Config as RaftConfig, Error as RaftError,
+    RawNode as RaftNode, RawNode, Ready, SnapshotStatus as RaftSnapshotStatus,
     SoftState as RaftSoftState, StateRole as RaftStateRole, Storage as RaftStorage,
 };
 use slog::Logger;
@@ -304,7 +305,12 @@ impl<S: Store + RaftStorage> Raft for RaftSimple<S> {
         Ok(())
     }
 
-    fn make_step(&mut self, message: RaftMessage) -> Result<(), RaftError> {
+    fn make_step(&mut self, mut message: RaftMessage) -> Result<(), RaftError> {
+        // Received snapshots carry no term. Without one a candidate would go back to the
+        // initial term and forget its vote.
+        if message.term == 0 && message.get_msg_type() == RaftMessageType::MsgSnapshot {
+            message.term = self.raft_node().raft.term;
+        }
         self.mut_raft_node().step(message)
     }
 
-- 
2.43.0


From 69a29ed4a9ee9c57ca3d75e3de487038e27d832a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:52 +0000
Subject: [PATCH 33/54] fix: handshakes initiated by both replicas do not fail
 each other forever

---
 runtime/src/communication.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/runtime/src/communication.rs b/runtime/src/communication.rs
index 51163c5..b132644 100644
--- a/runtime/src/communication.rs
+++ b/runtime/src/communication.rs
@@ -267,9 +267,27 @@ impl CommunicationModule for DefaultCommunicationModule {
             replica_state.init(handshake_session)?;
         }
 
+        // Both replicas may initiate a handshake before they receive the one of the other. To
+        // not fail each other over and over the one with the larger id yields.
+        let may_yield = peer_replica_id < self.replica_id
+            && matches!(message, in_message::Msg::SecureChannelHandshake(_))
+            && matches!(replica_state.handshake_state, HandshakeState::Initiated(_));
+
         // Failure to process message should not lead to program termination, so simply log and
         // return.
-        let result = replica_state.process_in_message(message);
+        let mut result = replica_state.process_in_message(message.clone());
+        if result.is_err() && may_yield {
+            let handshake_session = self
+                .handshake_session_provider
+                .get(self.replica_id, peer_replica_id, Role::Recipient)
+                .map_err(|err| {
+                    warn!(logger, "Failed to get handshake_session {:?}", err);
+                    PalError::Internal
+                })?;
+            replica_state.reset_state_machine();
+            replica_state.init(handshake_session)?;
+            result = replica_state.process_in_message(message);
+        }
         if result.is_err() {
             warn!(
                 self.logger,
-- 
2.43.0


From 88c1567d56f092309c91366fbfa7b977be543116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 34/54] fix: message without payload does not panic

Such a message of the host fails to decrypt like any other malformed one.
---
 runtime/src/communication.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/runtime/src/communication.rs b/runtime/src/communication.rs
index b132644..ec8db61 100644
--- a/runtime/src/communication.rs
+++ b/runtime/src/communication.rs
@@ -574,7 +574,7 @@ impl CommunicationState {
         let encryptor = self.encryptor.as_mut().unwrap();
         let result = match message {
             in_message::Msg::DeliverSystemMessage(mut msg) => encryptor
-                .decrypt(msg.payload.as_ref().unwrap())
+                .decrypt(msg.payload.as_ref().unwrap_or(&Payload::default()))
                 .and_then(|decrypted_msg| {
                     msg.payload = Some(Payload {
                         contents: decrypted_msg.into(),
@@ -583,7 +583,7 @@ impl CommunicationState {
                     Ok(in_message::Msg::DeliverSystemMessage(msg))
                 }),
             in_message::Msg::DeliverSnapshotRequest(mut msg) => encryptor
-                .decrypt(msg.payload.as_ref().unwrap())
+                .decrypt(msg.payload.as_ref().unwrap_or(&Payload::default()))
                 .and_then(|decrypted_msg| {
                     msg.payload = Some(Payload {
                         contents: decrypted_msg.into(),
@@ -592,7 +592,7 @@ impl CommunicationState {
                     Ok(in_message::Msg::DeliverSnapshotRequest(msg))
                 }),
             in_message::Msg::DeliverSnapshotResponse(mut msg) => encryptor
-                .decrypt(msg.payload.as_ref().unwrap())
+                .decrypt(msg.payload.as_ref().unwrap_or(&Payload::default()))
                 .and_then(|decrypted_msg| {
                     msg.payload = Some(Payload {
                         contents: decrypted_msg.into(),
-- 
2.43.0


From 31b1635d81a38793edbf9f356fdad04d63ee1a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 35/54] fix: do not use the snapshot processor before the
 replica is started

---
 runtime/src/driver.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index d4be68a..90fd69f 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -954,6 +954,7 @@ impl<
         &mut self,
         deliver_snapshot_request: DeliverSnapshotRequest,
     ) -> Result<(), PalError> {
+        self.check_driver_started()?;
         self.check_non_ephemeral()?;
         let message =
             self.communication
@@ -994,6 +995,7 @@ impl<
         &mut self,
         deliver_snapshot_response: DeliverSnapshotResponse,
     ) -> Result<(), PalError> {
+        self.check_driver_started()?;
         self.check_non_ephemeral()?;
         let deliver_snapshot_failure = DeliverSnapshotFailure {
             sender_replica_id: deliver_snapshot_response.sender_replica_id,
@@ -1038,6 +1040,7 @@ impl<
         &mut self,
         deliver_snapshot_failure: DeliverSnapshotFailure,
     ) -> Result<(), PalError> {
+        self.check_driver_started()?;
         self.check_non_ephemeral()?;
         match self.snapshot.mut_processor(self.instant) {
             SnapshotProcessorRole::Sender(sender) => sender.process_response(
@@ -1094,6 +1097,10 @@ impl<
     }
 
     fn process_snapshot_sending(&mut self) -> Result<(), PalError> {
+        if self.driver_state != DriverState::Started {
+            return Ok(());
+        }
+
         let snapshot_messages = mem::take(&mut self.snapshots);
 
         let mut out_messages: Vec<OutgoingMessage> = Vec::new();
-- 
2.43.0


From 76e92d15e76de454c61ea6f3bd7508faa44bc6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 36/54] fix: large snapshot count does not overflow

---
 runtime/src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/storage.rs b/runtime/src/storage.rs
index 9c7e9ba..8b5c6a1 100644
--- a/runtime/src/storage.rs
+++ b/runtime/src/storage.rs
@@ -243,7 +243,7 @@ impl MemoryStorageCore {
 
     fn should_snapshot(&self, applied_index: u64, config_state: &RaftConfigState) -> bool {
         // Check if existing snapshot is too old.
-        if self.snapshot_index() + self.max_snapshot_diff < applied_index {
+        if self.snapshot_index().saturating_add(self.max_snapshot_diff) < applied_index {
             return true;
         }
         // Check if snapshotting at applied index and config state will satisfy any of the
-- 
2.43.0


From e43082aa1016a9ec5a1757b85a78e14ce91e3c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:22 +0000
Subject: [PATCH 37/54] fix: starting a replica without endorsements does not
 panic

---
 runtime/src/driver.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index 90fd69f..c3e862f 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -758,6 +758,11 @@ impl<
     ) -> Result<(), PalError> {
         self.check_driver_state(DriverState::Created)?;
 
+        let Some(endorsements) = start_replica_request.endorsements.take() else {
+            error!(self.logger, "Endorsements are required to start the replica");
+            return Err(PalError::InvalidOperation);
+        };
+
         self.initialize_driver(app_signing_key, start_replica_request.replica_id_hint);
 
         let id = self.id;
@@ -820,8 +825,7 @@ impl<
             },
         };
         communication_config.reference_values = self.actor.get_reference_values();
-        communication_config.endorsements =
-            start_replica_request.endorsements.as_ref().unwrap().clone();
+        communication_config.endorsements = endorsements;
         self.communication.init(
             self.id,
             self.logger.new(o!("type" => "communication")),
-- 
2.43.0


From 03f22fef1bf8a375e35e852b4169fcf410987d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:22 +0000
Subject: [PATCH 38/54] fix: snapshots can be sent when chunk size or count are
 not configured

Without a chunk size the sender divided by zero, without a number of pending
chunks it never sent any.
---
 runtime/src/snapshot.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/runtime/src/snapshot.rs b/runtime/src/snapshot.rs
index 1c0443c..f0a777e 100644
--- a/runtime/src/snapshot.rs
+++ b/runtime/src/snapshot.rs
@@ -564,8 +564,13 @@ impl SnapshotSenderImpl for DefaultSnapshotSender {
         self.logger = logger;
         self.replica_id = replica_id;
         if let Some(snapshot_config) = snapshot_config {
-            self.config.chunk_size = snapshot_config.chunk_size;
-            self.config.max_pending_chunks = snapshot_config.max_pending_chunks
+            // Values that are not set do not replace system defaults.
+            if snapshot_config.chunk_size > 0 {
+                self.config.chunk_size = snapshot_config.chunk_size;
+            }
+            if snapshot_config.max_pending_chunks > 0 {
+                self.config.max_pending_chunks = snapshot_config.max_pending_chunks;
+            }
         }
     }
 
-- 
2.43.0


From 6f594002246cef935191a3af175045c5f4892518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:22 +0000
Subject: [PATCH 39/54] fix: reject snapshot header with an empty first chunk

The size of the first chunk is the size of all chunks, the receiver divided by
it.
---
 runtime/src/snapshot.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/runtime/src/snapshot.rs b/runtime/src/snapshot.rs
index f0a777e..2069397 100644
--- a/runtime/src/snapshot.rs
+++ b/runtime/src/snapshot.rs
@@ -880,6 +880,15 @@ impl SnapshotReceiver for DefaultSnapshotReceiver {
             Ok(payload) => {
                 match payload.it {
                     None => {}
+                    Some(deliver_snapshot_request::snapshot_content::It::Header(header))
+                        if header.snapshot_size > 0 && header.chunk_contents.is_empty() =>
+                    {
+                        warn!(self.logger, "Rejecting payload: empty first chunk");
+                        response_payload.snapshot_id = payload.snapshot_id;
+                        response_payload.chunk_index = 0;
+                        response_payload.status =
+                            DeliverSnapshotStatus::SnapshotStatusRejected.into();
+                    }
                     Some(deliver_snapshot_request::snapshot_content::It::Header(header)) => {
                         info!(self.logger,
                             "Starting snapshot receiving: sender {}, snapshot id {}, snapshot size {}",
-- 
2.43.0


From ba76e418dcc6a7897e9afbf5fdbf37a99879be69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:44 +0000
Subject: [PATCH 40/54] fix: counters that are not in a loaded snapshot do not
 survive it

---
 apps/atomic_counter/service/src/actor.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apps/atomic_counter/service/src/actor.rs b/apps/atomic_counter/service/src/actor.rs
index ea24f78..3360ea5 100644
--- a/apps/atomic_counter/service/src/actor.rs
+++ b/apps/atomic_counter/service/src/actor.rs
@@ -195,6 +195,8 @@ impl Actor for CounterActor {
         let snapshot =
             CounterSnapshot::decode(snapshot).map_err(|_| ActorError::SnapshotLoading)?;
 
+        // Snapshot replaces the counters that exist so far.
+        self.values.clear();
         for (name, value) in snapshot.values {
             self.values.insert(
                 name,
-- 
2.43.0


From 99a33d579849eec532d18b4698cf5ec22bbb7bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:44 +0000
Subject: [PATCH 41/54] fix: snapshot with an unknown table is not loaded
 partially

---
 apps/tablet_store/service/src/actor.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/apps/tablet_store/service/src/actor.rs b/apps/tablet_store/service/src/actor.rs
index 2665b81..126c259 100644
--- a/apps/tablet_store/service/src/actor.rs
+++ b/apps/tablet_store/service/src/actor.rs
@@ -419,6 +419,15 @@ impl<C: TabletConfigurator> Actor for TabletStoreActor<C> {
         let snapshot =
             TabletStoreSnapshot::decode(snapshot).map_err(|_| ActorError::SnapshotLoading)?;
 
+        // Do not load a part of the snapshot if it cannot be loaded as a whole.
+        if snapshot
+            .table_snapshots
+            .iter()
+            .any(|t| !self.tables.contains_key(&t.table_name))
+        {
+            return Err(ActorError::SnapshotLoading);
+        }
+
         for table_snapshot in snapshot.table_snapshots {
             let table = self
                 .tables
-- 
2.43.0


From 5a30a90bc493e6bfc07fec8309a7a378cefb5bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:39 +0000
Subject: [PATCH 42/54] fix: keep the replica running when the caller of
 receive_message goes away

A caller that gives up its call drops the receiver of the response. The driver
loop treated that as fatal, so that one cancelled call ended the replica for
every other caller.
---
 runtime/src/service.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/runtime/src/service.rs b/runtime/src/service.rs
index 912dda8..753ddcf 100644
--- a/runtime/src/service.rs
+++ b/runtime/src/service.rs
@@ -191,10 +191,11 @@ impl TonicApplicationService {
             driver
                 .receive_message(&mut host, request.instant, request.message)
                 .expect("application has encountered an unrecoverable error");
-            tx.send(Ok(ReceiveMessageResponse {
+            // The caller may have gone away in the meantime, which must not end the
+            // replica for everyone else.
+            let _ = tx.send(Ok(ReceiveMessageResponse {
                 messages: host.take_messages(),
-            }))
-            .expect("failed to send receive_message response");
+            }));
         }
     }
 
-- 
2.43.0


From 73a0b768e768ccb6093ddf2426544da72ff67598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:03 +0000
Subject: [PATCH 43/54] fix: keep one key pair when a Willow key is generated
 concurrently

Two requests for one key id that were both proposed before the first was applied
replaced the key pair, after the public key of the first had been answered.
---
 apps/willow/decryptor/actor/src/actor.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/apps/willow/decryptor/actor/src/actor.rs b/apps/willow/decryptor/actor/src/actor.rs
index e5251f0..bad6fb3 100644
--- a/apps/willow/decryptor/actor/src/actor.rs
+++ b/apps/willow/decryptor/actor/src/actor.rs
@@ -205,6 +205,26 @@ impl DecryptorActor {
         let decryptor_state: Bytes = generate_key_event.private_key_share.into();
         let sequential_order: i32 = generate_key_event.sequential_order;
 
+        // Several requests for the same key id may be proposed before the first of
+        // them is applied. The first key pair stays, everyone gets its public key.
+        if let Some(key_pair) = self.key_pairs.get(&generate_key_event.key_id) {
+            let public_key_share = key_pair.public_key_share.clone();
+            if context.owned {
+                let mut key = KeyProto::default();
+                key.set_key_id(generate_key_event.key_id.clone());
+                key.set_key_material(public_key_share.to_vec());
+                return Ok(EventOutcome::with_command(ActorCommand::with_header(
+                    correlation_id,
+                    &DecryptorResponse {
+                        msg: Some(decryptor_response::Msg::GenerateKey(GenerateKeyResponse {
+                            public_key: key.serialize().unwrap().into(),
+                        })),
+                    },
+                )));
+            }
+            return Ok(EventOutcome::with_none());
+        }
+
         // If the number of key pairs has reached the maximum, remove the oldest one
         // (the one with the smallest sequential order) to make room for the new
         // key pair. This is done here instead of in the command processing
-- 
2.43.0


From 3602d565318f88734ad2d05093aea3de6225f70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:03 +0000
Subject: [PATCH 44/54] fix: release one decryption per Willow key pair

Decryptions with one key that were proposed before the first of them was applied
were all answered, and a late one erased a key pair it was not made with. The
event names the key pair it used and only takes effect while that is stored.
---
 .../actor/proto/willow_decryptor.proto        |  2 ++
 apps/willow/decryptor/actor/src/actor.rs      | 26 ++++++++++++++++---
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/apps/willow/decryptor/actor/proto/willow_decryptor.proto b/apps/willow/decryptor/actor/proto/willow_decryptor.proto
index e3fb9d1..5354176 100644
--- a/apps/willow/decryptor/actor/proto/willow_decryptor.proto
+++ b/apps/willow/decryptor/actor/proto/willow_decryptor.proto
@@ -36,6 +36,8 @@ message GenerateKeyEvent {
 message DecryptEvent {
   bytes key_id = 1;
   bytes decryption_response = 2;
+  // Identifies the key pair that was used for the decryption.
+  bytes public_key_share = 3;
 }
 
 // Data snapshot for TEE decryptors
diff --git a/apps/willow/decryptor/actor/src/actor.rs b/apps/willow/decryptor/actor/src/actor.rs
index bad6fb3..22593b4 100644
--- a/apps/willow/decryptor/actor/src/actor.rs
+++ b/apps/willow/decryptor/actor/src/actor.rs
@@ -173,9 +173,11 @@ impl DecryptorActor {
             );
         }
 
-        let decryptor_state = &key_pair.unwrap().decryptor_state.to_vec();
+        let key_pair = key_pair.unwrap();
+        let public_key_share = key_pair.public_key_share.to_vec();
+        let decryptor_state = key_pair.decryptor_state.to_vec();
         let decryption_response =
-            self.decrypt(key_id.clone().into(), request.into(), decryptor_state.clone().into());
+            self.decrypt(key_id.clone().into(), request.into(), decryptor_state.into());
 
         match decryption_response {
             Ok(response) => {
@@ -185,6 +187,7 @@ impl DecryptorActor {
                         event: Some(decryptor_event::Event::DecryptEvent(DecryptEvent {
                             key_id: key_id.into(),
                             decryption_response: response.to_vec(),
+                            public_key_share,
                         })),
                     },
                 )));
@@ -271,7 +274,24 @@ impl DecryptorActor {
         correlation_id: u64,
         decrypt_event: DecryptEvent,
     ) -> Result<EventOutcome, ActorError> {
-        self.key_pairs.remove(&decrypt_event.key_id[..]);
+        // Several decryptions with the same key pair may be proposed before the first
+        // of them is applied. Only the first one is released; the key pair that is
+        // stored now may also be another one generated in the meantime.
+        let usable = self
+            .key_pairs
+            .get(&decrypt_event.key_id[..])
+            .is_some_and(|key_pair| key_pair.public_key_share == decrypt_event.public_key_share);
+        if usable {
+            self.key_pairs.remove(&decrypt_event.key_id[..]);
+        }
+
+        if context.owned && !usable {
+            return self.event_err(
+                correlation_id,
+                StatusCode::FailedPrecondition as i32,
+                "Key pair has been used or removed concurrently".to_string(),
+            );
+        }
 
         if context.owned {
             return Ok(EventOutcome::with_command(ActorCommand::with_header(
-- 
2.43.0


From cd360887250989180098bc544251c447650bda09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:03 +0000
Subject: [PATCH 45/54] fix: answer Willow requests that cannot be parsed

A request that cannot be parsed was an actor error, which ends the replica.
---
 apps/willow/decryptor/actor/src/actor.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/apps/willow/decryptor/actor/src/actor.rs b/apps/willow/decryptor/actor/src/actor.rs
index 22593b4..4af00d9 100644
--- a/apps/willow/decryptor/actor/src/actor.rs
+++ b/apps/willow/decryptor/actor/src/actor.rs
@@ -442,14 +442,20 @@ impl Actor for DecryptorActor {
         }
         let command = command.unwrap();
 
-        let decryptor_request =
-            DecryptorRequest::decode(command.header.clone()).map_err(|error| {
+        let decryptor_request = match DecryptorRequest::decode(command.header.clone()) {
+            Ok(decryptor_request) => decryptor_request,
+            Err(error) => {
                 warn!(
                     self.get_context().logger(),
                     "DecryptorActor: request cannot be parsed: {}", error
                 );
-                ActorError::Internal
-            })?;
+                return self.command_err(
+                    command.correlation_id,
+                    StatusCode::InvalidArgument as i32,
+                    format!("DecryptorActor: request cannot be parsed: {}", error),
+                );
+            }
+        };
 
         debug!(
             self.get_context().logger(),
-- 
2.43.0


From 42cc793db962bfe7ad92735afa9460f682381744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:03 +0000
Subject: [PATCH 46/54] fix: answer Willow decryption requests that are
 malformed

The request is made by the client, and a malformed one was a panic that ended
the replica.
---
 apps/willow/decryptor/actor/src/actor.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/apps/willow/decryptor/actor/src/actor.rs b/apps/willow/decryptor/actor/src/actor.rs
index 4af00d9..c2de8a6 100644
--- a/apps/willow/decryptor/actor/src/actor.rs
+++ b/apps/willow/decryptor/actor/src/actor.rs
@@ -341,11 +341,19 @@ impl DecryptorActor {
         let decryptor_state =
             DecryptorState::from_proto(decryptor_state_proto, &decryptor).unwrap();
 
-        let request_proto = PartialDecryptionRequestProto::parse(&request_bytes).unwrap();
-        let request = PartialDecryptionRequest::from_proto(request_proto, &decryptor).unwrap();
-
-        let partial_decryption =
-            decryptor.handle_partial_decryption_request(request, &decryptor_state).unwrap();
+        // The request comes from outside.
+        let invalid_request = |error: String| Status {
+            code: StatusCode::InvalidArgument as i32,
+            message: format!("Invalid decryption request: {}", error),
+        };
+        let request_proto = PartialDecryptionRequestProto::parse(&request_bytes)
+            .map_err(|error| invalid_request(format!("{:?}", error)))?;
+        let request = PartialDecryptionRequest::from_proto(request_proto, &decryptor)
+            .map_err(|error| invalid_request(format!("{:?}", error)))?;
+
+        let partial_decryption = decryptor
+            .handle_partial_decryption_request(request, &decryptor_state)
+            .map_err(|error| invalid_request(format!("{:?}", error)))?;
         let partial_decryption_proto = partial_decryption.to_proto(&decryptor).unwrap();
 
         return Ok(partial_decryption_proto.serialize().unwrap().into());
-- 
2.43.0


From 462f33da39786a2caeb07a2c706dbf13357a27f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:41 +0000
Subject: [PATCH 47/54] fix: treat responses of the tablet store that don't
 match the ops as errors

Results of another kind were dropped, so that a region was never listed again
and requests were never answered, or were processed as if they were requested.
A list without tablets stopped the node.
---
 .../service/src/transaction/manager.rs        | 21 +++++++++++++++++--
 .../service/src/transaction/metadata.rs       |  4 +++-
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/manager.rs b/apps/tablet_cache/service/src/transaction/manager.rs
index 39ffa9f..ddd7964 100644
--- a/apps/tablet_cache/service/src/transaction/manager.rs
+++ b/apps/tablet_cache/service/src/transaction/manager.rs
@@ -13,6 +13,7 @@
 // limitations under the License.
 
 use core::cell::RefCell;
+use core::mem;
 
 use alloc::{boxed::Box, rc::Rc, vec::Vec};
 use hashbrown::HashMap;
@@ -276,10 +277,14 @@ impl<T> TabletTransactionManagerCore<T> {
                 tablets_response,
             ) => {
                 if let Some(tablets_error) = self.tablets_errors.remove(&correlation_id) {
-                    // Response that doesn't cover every op is not different from an error.
+                    // Response that doesn't cover every op, or doesn't correspond to the ops, is
+                    // not different from an error.
                     let tablet_results = &tablets_response.tablet_results;
                     let is_complete = tablet_results.len() == tablets_error.tablet_results.len()
-                        && tablet_results.iter().all(|r| r.op_result.is_some());
+                        && tablet_results
+                            .iter()
+                            .zip(tablets_error.tablet_results.iter())
+                            .all(|(r, e)| is_same_op_result(r, e));
                     self.process_in_tablets_op_response(
                         correlation_id,
                         if is_complete {
@@ -420,6 +425,18 @@ impl<T> TabletTransactionManagerCore<T> {
     }
 }
 
+// Checks that results belong to the same op, regardless of the outcome of the op.
+fn is_same_op_result(a: &TabletOpResult, b: &TabletOpResult) -> bool {
+    a.table_name == b.table_name
+        && match (&a.op_result, &b.op_result) {
+            (Some(OpResult::ListTablet(a)), Some(OpResult::ListTablet(b))) => {
+                a.key_hash_from == b.key_hash_from && a.key_hash_to == b.key_hash_to
+            }
+            (Some(a), Some(b)) => mem::discriminant(a) == mem::discriminant(b),
+            _ => false,
+        }
+}
+
 fn create_failed_op_result(tablet_op: &TabletOp) -> TabletOpResult {
     let tablet_op_result = match &tablet_op.op {
         Some(Op::ListTablet(list_tablet_op)) => Some(OpResult::ListTablet(ListTabletResult {
diff --git a/apps/tablet_cache/service/src/transaction/metadata.rs b/apps/tablet_cache/service/src/transaction/metadata.rs
index 76b1797..b7c88f1 100644
--- a/apps/tablet_cache/service/src/transaction/metadata.rs
+++ b/apps/tablet_cache/service/src/transaction/metadata.rs
@@ -421,7 +421,9 @@ impl TableMetadata {
         let table_region_idx = Self::map_table_region(self.region_size, table_region_start);
         let mut resolve_requests_to_notify = Vec::new();
         if let Some(table_region) = self.regions.get_mut(&table_region_idx) {
-            if let Some(tablets) = tablets {
+            // There is always a tablet responsible for a key, hence a list op without any is
+            // not different from a failed one.
+            if let Some(tablets) = tablets.filter(|tablets| !tablets.is_empty()) {
                 let mut tablet_ids = Vec::new();
                 // Store latest version of the tablet metadata.
                 for tablet_metadata in tablets {
-- 
2.43.0


From 442b78e2b079ce096e45fef3265b6bab21f0b7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:16 +0000
Subject: [PATCH 48/54] fix: snapshot transfers to removed replicas are
 cancelled

A replica that left the cluster cannot be reached any more: its transfer never
ended, and its chunks in flight kept other replicas from being sent snapshots.
---
 runtime/src/snapshot.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/runtime/src/snapshot.rs b/runtime/src/snapshot.rs
index 2069397..b283ac8 100644
--- a/runtime/src/snapshot.rs
+++ b/runtime/src/snapshot.rs
@@ -218,6 +218,11 @@ pub trait SnapshotSenderImpl: SnapshotSender {
     fn set_instant(&mut self, instant: u64);
 
     fn reset(&mut self) -> Vec<(u64, RaftSnapshotStatus)>;
+
+    /// Cancels transfers to the replicas that are not part of the cluster.
+    fn retain(&mut self, _replicas: &[u64]) -> Vec<(u64, RaftSnapshotStatus)> {
+        Vec::new()
+    }
 }
 
 pub trait SnapshotReceiverImpl: SnapshotReceiver {
@@ -296,6 +301,10 @@ impl SnapshotProcessor for DefaultSnapshotProcessor {
                     panic!("Snapshot processor is not initialized");
                 }
             }
+        } else if self.state == ReplicaState::Leader {
+            // Nothing can be delivered to the replicas that left the cluster, make sure
+            // that they don't hold the in-flight request slots.
+            cancelled_snapshots = self.sender.retain(replicas);
         }
 
         // Update replica state according to the cluster state.
@@ -592,6 +601,19 @@ impl SnapshotSenderImpl for DefaultSnapshotSender {
 
         cancellations
     }
+
+    fn retain(&mut self, replicas: &[u64]) -> Vec<(u64, RaftSnapshotStatus)> {
+        let mut cancellations = Vec::new();
+        self.receivers.retain(|receiver_id, _| {
+            let retained = replicas.contains(receiver_id);
+            if !retained {
+                cancellations.push((*receiver_id, RaftSnapshotStatus::Failure));
+            }
+            retained
+        });
+
+        cancellations
+    }
 }
 
 impl SnapshotSender for DefaultSnapshotSender {
-- 
2.43.0


From d395ad76016908917158426ce262ade0c8fc7d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:04 +0000
Subject: [PATCH 49/54] fix: snapshot chunks stashed for an unreachable replica
 fail

Snapshot requests stashed while the handshake with the recipient is in
progress were kept forever once the handshake failed, and the sender's
in-flight window stayed full.
---
 runtime/src/communication.rs | 33 +++++++++++++++++++++++++++++++++
 runtime/src/driver.rs        | 11 +++++++++++
 2 files changed, 44 insertions(+)

diff --git a/runtime/src/communication.rs b/runtime/src/communication.rs
index ec8db61..549167b 100644
--- a/runtime/src/communication.rs
+++ b/runtime/src/communication.rs
@@ -119,6 +119,12 @@ pub trait CommunicationModule {
     // Processes a new tick event and resets any internal failed state if enough ticks
     // have passed.
     fn make_tick(&mut self);
+
+    // Take out failures to deliver snapshot requests to the replicas that a secure
+    // channel could not be established with.
+    fn take_failed_deliveries(&mut self) -> Vec<DeliverSnapshotFailure> {
+        Vec::new()
+    }
 }
 
 // Default implementation of CommunicationModule.
@@ -350,6 +356,14 @@ impl CommunicationModule for DefaultCommunicationModule {
             }
         }
     }
+
+    fn take_failed_deliveries(&mut self) -> Vec<DeliverSnapshotFailure> {
+        let mut failures = Vec::new();
+        for (_, replica_state) in self.replicas.iter_mut() {
+            failures.append(&mut replica_state.take_failed_deliveries())
+        }
+        failures
+    }
 }
 
 // Manages communication with a given peer replica.
@@ -624,6 +638,25 @@ impl CommunicationState {
         Some(result.unwrap())
     }
 
+    // Takes snapshot requests out of the messages not sent out yet if the handshake has
+    // failed. The peer may never come back, hence the sender must not await the responses.
+    fn take_failed_deliveries(&mut self) -> Vec<DeliverSnapshotFailure> {
+        let mut failures = Vec::new();
+        if let HandshakeState::Failed(_) = self.handshake_state {
+            self.unencrypted_messages.retain(|message| match message {
+                OutgoingMessage::DeliverSnapshotRequest(request) => {
+                    failures.push(DeliverSnapshotFailure {
+                        sender_replica_id: request.recipient_replica_id,
+                        delivery_id: request.delivery_id,
+                    });
+                    false
+                }
+                _ => true,
+            });
+        }
+        failures
+    }
+
     fn take_encrypted_messages(&mut self) -> Vec<OutMessage> {
         let mut messages = Vec::new();
         let unencrypted_msgs = mem::take(&mut self.unencrypted_messages);
diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index c3e862f..372ebf4 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -1063,6 +1063,14 @@ impl<
         Ok(())
     }
 
+    fn process_failed_deliveries(&mut self) -> Result<(), PalError> {
+        for deliver_snapshot_failure in self.communication.take_failed_deliveries() {
+            self.process_deliver_snapshot_failure(deliver_snapshot_failure)?;
+        }
+
+        Ok(())
+    }
+
     fn process_snapshot_progress(&mut self) {
         if self.driver_state != DriverState::Started {
             return;
@@ -1372,6 +1380,9 @@ impl<
             // Processes outputs from the actor to make raft proposals.
             self.process_actor_raft_proposals();
 
+            // Fail deliveries of snapshot chunks that could not be sent out.
+            self.process_failed_deliveries()?;
+
             // Process snapshot transfer completion or failures.
             self.process_snapshot_progress();
 
-- 
2.43.0


From 8a9bfe9edc7992da4ab088c59511eb5df05d3c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:04 +0000
Subject: [PATCH 50/54] fix: dropped forwarded proposal does not terminate the
 replica

A follower forwards its proposals to the replica it takes for the leader. If
that replica isn't a leader any more Raft drops the proposal, which is not an
unrecoverable error.
---
 runtime/src/driver.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index 372ebf4..8970e18 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -382,6 +382,16 @@ impl<
 
                         Ok(())
                     }
+                    Err(RaftError::ProposalDropped) => {
+                        // Proposal forwarded by a peer while there is no leader.
+                        warn!(
+                            self.logger,
+                            "Dropping Raft proposal forwarded by a peer: sender id {}",
+                            sender_replica_id
+                        );
+
+                        Ok(())
+                    }
                     Err(e) => {
                         error!(self.logger, "Raft experienced unrecoverable error: {}", e);
 
-- 
2.43.0


From d8edb69f7589e5f1254ff0946a42e789c8e0bacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:33 +0000
Subject: [PATCH 51/54] fix: stopping does not fail over snapshot chunks that
 could not be sent out

---
 runtime/src/driver.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index 8970e18..e0d32d2 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -1074,6 +1074,10 @@ impl<
     }
 
     fn process_failed_deliveries(&mut self) -> Result<(), PalError> {
+        if self.driver_state != DriverState::Started {
+            return Ok(());
+        }
+
         for deliver_snapshot_failure in self.communication.take_failed_deliveries() {
             self.process_deliver_snapshot_failure(deliver_snapshot_failure)?;
         }
-- 
2.43.0


From 4cbce337218f300ac829396289ba93a34514fed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:33 +0000
Subject: [PATCH 52/54] fix: snapshot requests lost before they are sent out
 are reported as failed deliveries

---
 runtime/src/communication.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/runtime/src/communication.rs b/runtime/src/communication.rs
index 549167b..336b3de 100644
--- a/runtime/src/communication.rs
+++ b/runtime/src/communication.rs
@@ -375,6 +375,8 @@ pub struct CommunicationState {
     // Unencrypted stashed messages that will be encrypted and sent out once
     // handshake completes.
     unencrypted_messages: Vec<OutgoingMessage>,
+    // Snapshot requests that could not be encrypted and hence are never sent out.
+    failed_deliveries: Vec<DeliverSnapshotFailure>,
     encryptor: Option<Box<dyn Encryptor>>,
     handshake_initiated_tick_timeout: u32,
     // Set if the peer considers a previous handshake completed while this replica does not.
@@ -406,6 +408,7 @@ impl CommunicationState {
             pending_handshake_message: None,
             handshake_session: None,
             unencrypted_messages: Vec::new(),
+            failed_deliveries: Vec::new(),
             encryptor: None,
             handshake_initiated_tick_timeout,
             initiate_on_retry: false,
@@ -507,9 +510,8 @@ impl CommunicationState {
                 return Err(err);
             }
             HandshakeState::Initialized => {
-                self.initiate_handshake()?;
                 self.push_or_replace_unencrypted_message(message);
-                Ok(())
+                self.initiate_handshake()
             }
             HandshakeState::Initiated(_) | HandshakeState::Completed => {
                 self.push_or_replace_unencrypted_message(message);
@@ -639,9 +641,10 @@ impl CommunicationState {
     }
 
     // Takes snapshot requests out of the messages not sent out yet if the handshake has
-    // failed. The peer may never come back, hence the sender must not await the responses.
+    // failed, along with those that could not be encrypted. The peer may never come back,
+    // hence the sender must not await the responses.
     fn take_failed_deliveries(&mut self) -> Vec<DeliverSnapshotFailure> {
-        let mut failures = Vec::new();
+        let mut failures = mem::take(&mut self.failed_deliveries);
         if let HandshakeState::Failed(_) = self.handshake_state {
             self.unencrypted_messages.retain(|message| match message {
                 OutgoingMessage::DeliverSnapshotRequest(request) => {
@@ -663,6 +666,13 @@ impl CommunicationState {
         let encryptor = self.encryptor.as_mut().unwrap();
 
         for unencrypted_message in unencrypted_msgs {
+            let failed_delivery = match &unencrypted_message {
+                OutgoingMessage::DeliverSnapshotRequest(request) => Some(DeliverSnapshotFailure {
+                    sender_replica_id: request.recipient_replica_id,
+                    delivery_id: request.delivery_id,
+                }),
+                _ => None,
+            };
             let result = match unencrypted_message {
                 OutgoingMessage::DeliverSystemMessage(mut message, _) => encryptor
                     .encrypt(&message.payload.as_ref().unwrap().contents)
@@ -695,6 +705,7 @@ impl CommunicationState {
 
             if result.is_err() {
                 warn!(self.logger, "Failed to encrypt {:?}", result.err());
+                self.failed_deliveries.extend(failed_delivery);
             }
         }
         messages
-- 
2.43.0


From 0ef712f6ddecddbaede6072419a0821b61d3b47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:56 +0000
Subject: [PATCH 53/54] fix: malformed command does not stop the tablet cache

---
 apps/tablet_cache/service/src/actor.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/apps/tablet_cache/service/src/actor.rs b/apps/tablet_cache/service/src/actor.rs
index 38c5f0f..2a55892 100644
--- a/apps/tablet_cache/service/src/actor.rs
+++ b/apps/tablet_cache/service/src/actor.rs
@@ -27,7 +27,7 @@ use oak_proto_rust::oak::attestation::v1::{
     ReferenceValues, RootLayerReferenceValues, SkipVerification, TextReferenceValue,
 };
 use prost::{bytes::Bytes, Message};
-use slog::{debug, o};
+use slog::{debug, o, warn};
 use tcp_runtime::model::{
     Actor, ActorCommand, ActorContext, ActorError, ActorEvent, ActorEventContext, CommandOutcome,
     EventOutcome,
@@ -129,8 +129,9 @@ impl<T: transaction::TabletTransactionManager<Bytes>, S: store::KeyValueStore> A
         if let Some(command) = command {
             let in_header = match TabletCacheInMessage::decode(command.header.clone()) {
                 Ok(in_message) => in_message.in_msg,
-                Err(_) => {
-                    return Err(ActorError::Internal);
+                Err(e) => {
+                    warn!(self.get_context().logger(), "Ignoring command: {}", e);
+                    None
                 }
             };
 
@@ -183,7 +184,11 @@ impl<T: transaction::TabletTransactionManager<Bytes>, S: store::KeyValueStore> A
                         )),
                 },
                 None => {
-                    return Err(ActorError::Internal);
+                    // There is no response to tell about it, pending requests are not affected.
+                    warn!(
+                        self.get_context().logger(),
+                        "Ignoring command: message is not set"
+                    );
                 }
             };
         }
-- 
2.43.0


From 5bf832059f86425226acafa9cf074e276d2df3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:56 +0000
Subject: [PATCH 54/54] fix: incomplete configuration of the tablet cache is
 refused

---
 apps/tablet_cache/service/src/actor.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/apps/tablet_cache/service/src/actor.rs b/apps/tablet_cache/service/src/actor.rs
index 2a55892..8c0e418 100644
--- a/apps/tablet_cache/service/src/actor.rs
+++ b/apps/tablet_cache/service/src/actor.rs
@@ -97,15 +97,31 @@ impl<T: transaction::TabletTransactionManager<Bytes>, S: store::KeyValueStore> A
         let config = TabletCacheConfig::decode(self.get_context().config().as_ref())
             .map_err(|_| ActorError::ConfigLoading)?;
 
+        let store_config = config.store_config.ok_or(ActorError::ConfigLoading)?;
+        let transaction_manager_config = config
+            .transaction_manager_config
+            .ok_or(ActorError::ConfigLoading)?;
+        let metadata_cache_config = transaction_manager_config
+            .metadata_cache_config
+            .as_ref()
+            .ok_or(ActorError::ConfigLoading)?;
+        let table_configs = &metadata_cache_config.table_configs;
+        if transaction_manager_config.data_cache_config.is_none()
+            || table_configs.iter().any(|t| t.table_region_size == 0)
+            || !table_configs
+                .iter()
+                .any(|t| t.table_name == store_config.table_name)
+        {
+            return Err(ActorError::ConfigLoading);
+        }
+
         let key_value_store_logger = self.get_context().logger().new(o!("type" => "store"));
         self.key_value_store
-            .init(key_value_store_logger, config.store_config.unwrap());
+            .init(key_value_store_logger, store_config);
 
         let transaction_manager_logger = self.get_context().logger().new(o!("type" => "manager"));
-        self.transaction_manager.init(
-            transaction_manager_logger,
-            config.transaction_manager_config.unwrap(),
-        );
+        self.transaction_manager
+            .init(transaction_manager_logger, transaction_manager_config);
 
         debug!(self.get_context().logger(), "Initialized");
 
-- 
2.43.0

