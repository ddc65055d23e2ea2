From f6ce8f2740d459b2eeb703e0c8ddd39da4e8ed4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:05 +0000
Subject: [PATCH 01/32] fix: fraos: a sequence number whose index offset
 overflows has no record

---
 fraos/src/seqno.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fraos/src/seqno.rs b/fraos/src/seqno.rs
index be3b673..ba3f50f 100644
--- a/fraos/src/seqno.rs
+++ b/fraos/src/seqno.rs
@@ -88,7 +88,11 @@ impl SeqNoIndex {
         &self,
         seqno: usize,
     ) -> Result<Option<(usize, usize)>, FraosError> {
-        let offset = seqno * Self::SIZE_OF_USIZE * 2;
+        let offset = match seqno.checked_mul(Self::SIZE_OF_USIZE * 2) {
+            // no record can have such a number
+            None => return Ok(None),
+            Some(offset) => offset,
+        };
 
         let result = self.inner.get_data(offset, |mmap| {
             let mut offset_buffer = [0u8; Self::SIZE_OF_USIZE];
-- 
2.43.0


From b14867a14f01b3551d47ff581f04114e4244cb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:05 +0000
Subject: [PATCH 02/32] fix: fraos: opening a missing store read-only does not
 create it

---
 fraos/src/database.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fraos/src/database.rs b/fraos/src/database.rs
index 1860907..2ad1053 100644
--- a/fraos/src/database.rs
+++ b/fraos/src/database.rs
@@ -27,6 +27,10 @@ impl Database {
         let path = path.as_ref();
 
         if !path.exists() {
+            if !writable {
+                return Err(FraosError::FileError(FileError::PathNotFound));
+            }
+
             std::fs::create_dir(path).map_err(|err| {
                 FraosError::FileError(FileError::FileOpen(path.to_path_buf(), err))
             })?;
-- 
2.43.0


From 2b91507fa21db6f5217c6789153f1092a2899b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:05 +0000
Subject: [PATCH 03/32] fix: fraos: only the last handle of a database shrinks
 its files

---
 fraos/src/database.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fraos/src/database.rs b/fraos/src/database.rs
index 2ad1053..797ca74 100644
--- a/fraos/src/database.rs
+++ b/fraos/src/database.rs
@@ -167,6 +167,11 @@ impl Database {
 
 impl Drop for Database {
     fn drop(&mut self) {
+        // the other handles still write to the mapped space after the last record
+        if Arc::strong_count(&self.write_lock) > 1 {
+            return;
+        }
+
         let _ = self.seqno_index.shrink_to_size();
         let _ = self.flatfile.shrink_to_size();
     }
-- 
2.43.0


From 44afb92134cc2b87e300a2d3bfa8e59b53ca19b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:20 +0000
Subject: [PATCH 04/32] fix: indexed-log-map: concurrent appends under one key
 leave it at the last of them

---
 indexed-log-map/src/storage.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/indexed-log-map/src/storage.rs b/indexed-log-map/src/storage.rs
index f1bc521..1af4806 100644
--- a/indexed-log-map/src/storage.rs
+++ b/indexed-log-map/src/storage.rs
@@ -3,6 +3,7 @@ use anyhow::{anyhow, bail, Context, Result};
 use serde::de::DeserializeOwned;
 use serde::Serialize;
 use std::marker::PhantomData;
+use std::sync::Mutex;
 
 /// Indexed log map inherits the properties of fraos::Database (thread safety) and allows
 /// access by key
@@ -10,6 +11,9 @@ pub struct IndexedLogMap<Key: Serialize + DeserializeOwned, Value: Serialize + D
     storage: fraos::Database,
     // this is an option since we might want to take a look at
     key_to_seqno: Option<sled::Db>,
+    // a key must lead to the last value appended under it, hence positions are
+    // put in the index in the order of the storage
+    append_lock: Mutex<()>,
     phantom_data: PhantomData<(Key, Value)>,
 }
 
@@ -55,6 +59,7 @@ impl<Key: Serialize + DeserializeOwned, Value: Serialize + DeserializeOwned>
         Ok(Self {
             storage,
             key_to_seqno,
+            append_lock: Mutex::new(()),
             phantom_data: Default::default(),
         })
     }
@@ -70,6 +75,7 @@ impl<Key: Serialize + DeserializeOwned, Value: Serialize + DeserializeOwned>
         ciborium::ser::into_writer(&value, &mut serialized_value)
             .context("Failed to encode cbor data")?;
         let records = vec![serialized_value.as_slice()];
+        let _append_guard = self.append_lock.lock().unwrap();
         let index = self
             .storage
             .append_get_seqno(records.as_slice())
-- 
2.43.0


From 98f929e7b8ecf11715fef6fd965f988a993a15b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:25 +0000
Subject: [PATCH 05/32] fix: multiverse: iterating gives every block of a
 height, not one of them

---
 multiverse/src/visitor/depth_ordered.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/multiverse/src/visitor/depth_ordered.rs b/multiverse/src/visitor/depth_ordered.rs
index 330628d..ec5b0d8 100644
--- a/multiverse/src/visitor/depth_ordered.rs
+++ b/multiverse/src/visitor/depth_ordered.rs
@@ -32,7 +32,9 @@ where
             let (bn, set) = self.tree.iter_mut().next()?;
             let bn = *bn;
 
-            if let Some(entry_ref) = set.drain().next() {
+            if let Some(entry_ref) = set.iter().next().cloned() {
+                set.remove(&entry_ref);
+
                 let entry = self.inner.all.get(&entry_ref)?;
                 return Some(&entry.value);
             }
-- 
2.43.0


From e6395ad83d29abf40efe6415d061458af42edef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:31 +0000
Subject: [PATCH 06/32] fix: multiverse: a removed block is no longer its
 children's ancestor

---
 multiverse/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/multiverse/src/lib.rs b/multiverse/src/lib.rs
index 7acbbe8..7bad5de 100644
--- a/multiverse/src/lib.rs
+++ b/multiverse/src/lib.rs
@@ -413,6 +413,14 @@ where
             return Err(MultiverseError::NotFound);
         };
 
+        // the children no longer have a parent, even if someone still holds
+        // a reference to the key of the entry we just removed
+        for child in &entry.children {
+            if let Some(child) = self.all.get_mut(child) {
+                child.parent = EntryWeakRef::new();
+            }
+        }
+
         if self.roots.remove(key) {
             // Removing the entry makes all the children "orphaned". So they
             // need to become root themselves. Iterate through all the children
-- 
2.43.0


From dff4d0c1710e02a266bac41dc01a3028a10fc1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:46 +0000
Subject: [PATCH 07/32] fix: blockchain-source: a fork before a block is
 confirmed does not stall the multiverse sources

---
 blockchain-source/src/multiverse/mod.rs      | 10 ++++++++--
 blockchain-source/src/multiverse/rollback.rs |  4 ++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/blockchain-source/src/multiverse/mod.rs b/blockchain-source/src/multiverse/mod.rs
index 9d33e16..8704963 100644
--- a/blockchain-source/src/multiverse/mod.rs
+++ b/blockchain-source/src/multiverse/mod.rs
@@ -117,8 +117,14 @@ where
                         // TODO: re-check this
                         checkpoints.push(from.clone());
                     }
-                } else if let Some(from) = from {
-                    checkpoints.push(from.clone());
+                } else {
+                    // there isn't a confirmed block to fallback to if the tips are no longer in the
+                    // node's current branch, so the last common block can be any of the ones we have.
+                    checkpoints.extend(self.multiverse.iter().filter_map(V::next_from));
+
+                    if let Some(from) = from {
+                        checkpoints.push(from.clone());
+                    }
                 }
 
                 checkpoints
diff --git a/blockchain-source/src/multiverse/rollback.rs b/blockchain-source/src/multiverse/rollback.rs
index 5abf862..24b0e43 100644
--- a/blockchain-source/src/multiverse/rollback.rs
+++ b/blockchain-source/src/multiverse/rollback.rs
@@ -116,6 +116,10 @@ where
                 let confirmed = self.multiverse.get(confirmed).unwrap();
 
                 checkpoints.insert(confirmed.next_from().unwrap());
+            } else {
+                // there isn't a confirmed block to fallback to if the tips are no longer in the
+                // node's current branch, so the last common block can be any of the ones we have.
+                checkpoints.extend(self.multiverse.iter().filter_map(V::next_from));
             }
 
             if let Some(from) = from {
-- 
2.43.0


From 67bf53c374dea998ab8815315798305f6e47ca2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:46 +0000
Subject: [PATCH 08/32] fix: blockchain-source: ForkHandlingSource can start
 from None

---
 blockchain-source/src/multiverse/rollback.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/blockchain-source/src/multiverse/rollback.rs b/blockchain-source/src/multiverse/rollback.rs
index 24b0e43..63a48b0 100644
--- a/blockchain-source/src/multiverse/rollback.rs
+++ b/blockchain-source/src/multiverse/rollback.rs
@@ -212,11 +212,14 @@ where
             self.events
                 .pop()
                 .expect("no common ancestor between branches")
-        } else {
+        } else if let Some(from) = from {
             // if the db is empty, send a rollback event to the `from` argument, just to be
             // safe
             self.events.push(Event::InnerEvent(block));
-            Event::Rollback(from.as_ref().unwrap().clone())
+            Event::Rollback(from.clone())
+        } else {
+            // there is no point to rollback to
+            Event::InnerEvent(block)
         };
 
         Ok(Some(new_event))
-- 
2.43.0


From 3c56f66f5e35930845d205f08e3b1054faa9b1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:47 +0000
Subject: [PATCH 09/32] fix: blockchain-source: a restarted ForkHandlingSource
 goes on from the block its caller has

---
 blockchain-source/src/multiverse/rollback.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/blockchain-source/src/multiverse/rollback.rs b/blockchain-source/src/multiverse/rollback.rs
index 63a48b0..02ca895 100644
--- a/blockchain-source/src/multiverse/rollback.rs
+++ b/blockchain-source/src/multiverse/rollback.rs
@@ -24,6 +24,7 @@ pub struct ForkHandlingSource<K, V, InnerSource, Event> {
     confirmation_depth: usize,
     confirmed: Option<K>,
     last: Option<K>,
+    resumed: bool,
     events: Vec<Event>,
 }
 
@@ -58,6 +59,7 @@ impl<K, V, InnerSource, E> ForkHandlingSource<K, V, InnerSource, E> {
             source: inner_source,
             confirmed: selected.map(|k| k.inner().clone()),
             last,
+            resumed: false,
             events: Default::default(),
         }
     }
@@ -97,6 +99,21 @@ where
             return Ok(Some(event));
         }
 
+        // the caller may not have processed all of the blocks that were stored before a restart, in
+        // that case we need to continue from the block it has, and not from the highest one.
+        if !std::mem::replace(&mut self.resumed, true) {
+            if let Some(from) = from {
+                let block = self
+                    .multiverse
+                    .iter()
+                    .find(|block| block.next_from().as_ref() == Some(from));
+
+                if let Some(block) = block {
+                    self.last = Some(block.id().clone());
+                }
+            }
+        }
+
         let inner_from = {
             let mut checkpoints = HashSet::new();
 
-- 
2.43.0


From 6db34d42caf07c870519294ae9fb231385720114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:32 +0000
Subject: [PATCH 10/32] fix: blockchain-source: epochs of an era whose slots do
 not last one second

---
 blockchain-source/src/cardano/time.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/blockchain-source/src/cardano/time.rs b/blockchain-source/src/cardano/time.rs
index 68dc94f..02f1617 100644
--- a/blockchain-source/src/cardano/time.rs
+++ b/blockchain-source/src/cardano/time.rs
@@ -55,16 +55,20 @@ impl Era {
         self.known_time + (slot - self.first_slot) * self.slot_length
     }
 
+    const fn slots_per_epoch(&self) -> u64 {
+        self.epoch_length_seconds / self.slot_length
+    }
+
     pub fn absolute_slot_to_epoch(&self, slot: u64) -> Option<u64> {
         slot.checked_sub(self.first_slot)
             .map(|slot_relative_to_era| {
-                self.start_epoch + slot_relative_to_era / self.epoch_length_seconds
+                self.start_epoch + slot_relative_to_era / self.slots_per_epoch()
             })
     }
 
     pub fn absolute_slot_to_relative(&self, slot: u64) -> Option<u64> {
         slot.checked_sub(self.first_slot)
-            .map(|slot_relative_to_era| slot_relative_to_era % self.epoch_length_seconds)
+            .map(|slot_relative_to_era| slot_relative_to_era % self.slots_per_epoch())
     }
 }
 
-- 
2.43.0


From 6ceab266486467620322f64b35f759b488613b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:20 +0000
Subject: [PATCH 11/32] fix: utxo-selection: no change output that the change
 cannot pay for

---
 .../src/algorithms/balance_change_single_output.rs          | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/utxo-selection/src/algorithms/balance_change_single_output.rs b/utxo-selection/src/algorithms/balance_change_single_output.rs
index e04a411..c5cb315 100644
--- a/utxo-selection/src/algorithms/balance_change_single_output.rs
+++ b/utxo-selection/src/algorithms/balance_change_single_output.rs
@@ -110,6 +110,12 @@ impl InputSelectionAlgorithm for SingleOutputChangeBalancer {
         };
 
         let fee_for_change = estimator.fee_for_output(&change)?;
+        if change.value < fee_for_change {
+            return Err(anyhow!(
+                "there's lack of main asset selected, can't pay {} for the change",
+                fee_for_change
+            ));
+        }
         change.value -= &fee_for_change;
         fee += &fee_for_change;
 
-- 
2.43.0


From b959d9ce188049e9c358be58e164752f9b9959dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:38 +0000
Subject: [PATCH 12/32] fix: utxo-selection: RandomImprove selects from the
 inputs set last

---
 utxo-selection/src/algorithms/random_improve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index 26a32c4..6465a4e 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -47,7 +47,7 @@ impl InputSelectionAlgorithm for RandomImprove {
         &mut self,
         available_inputs: Vec<Self::InputUtxo>,
     ) -> anyhow::Result<()> {
-        let _available_indices = BTreeSet::from_iter(0..available_inputs.len());
+        self.available_indices = BTreeSet::from_iter(0..available_inputs.len());
         self.available_inputs = available_inputs;
         Ok(())
     }
-- 
2.43.0


From 9928b63476b2040698c8bd271eca695045390f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:38 +0000
Subject: [PATCH 13/32] fix: utxo-selection: RandomImprove selects inputs for
 the fee

---
 utxo-selection/src/algorithms/random_improve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index 6465a4e..17ee43b 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -131,7 +131,7 @@ impl InputSelectionAlgorithm for RandomImprove {
         // Phase 3: add extra inputs needed for fees (not covered by CIP-2)
         // We do this at the end because this new inputs won't be associated with
         // a specific output, so the improvement algorithm we do above does not apply here.
-        while input_balance < output_balance {
+        while input_balance < &output_balance + &fee {
             if self.available_indices.is_empty() {
                 return Err(anyhow!("UTxO Balance Insufficient[x]"));
             }
-- 
2.43.0


From d706e885b1b7cfc72c2a94c5ca6298384bf26b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:38 +0000
Subject: [PATCH 14/32] fix: utxo-selection: RandomImprove selects inputs for
 the tokens of the outputs

---
 .../src/algorithms/random_improve.rs          | 26 +++++++++----------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index 17ee43b..66dd878 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -6,7 +6,6 @@ use dcspark_core::tx::{TransactionAsset, UTxOBuilder, UTxODetails};
 use dcspark_core::{AssetName, PolicyId, Regulated, TokenId, UTxOStore};
 use deps::bigdecimal::ToPrimitive;
 use rand::Rng;
-use std::cmp::Ordering;
 use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
 
 pub struct RandomImprove {
@@ -73,18 +72,17 @@ impl InputSelectionAlgorithm for RandomImprove {
         let mut rng = rand::thread_rng();
         let mut policy_ids_to_asset_names = asset_output_balance
             .values()
-            .map(|asset: &TransactionAsset| (asset.policy_id.clone(), asset.asset_name.clone()))
-            .collect::<Vec<(PolicyId, AssetName)>>();
-        policy_ids_to_asset_names.sort_by(
-            |left: &(PolicyId, AssetName), right: &(PolicyId, AssetName)| match left.0.cmp(&right.0)
-            {
-                Ordering::Equal => left.1.cmp(&right.1),
-                x => x,
-            },
-        );
+            .map(|asset: &TransactionAsset| {
+                (
+                    asset.policy_id.clone(),
+                    asset.asset_name.clone(),
+                    asset.fingerprint.clone(),
+                )
+            })
+            .collect::<Vec<(PolicyId, AssetName, TokenId)>>();
+        policy_ids_to_asset_names.sort();
 
-        for (policy_id, asset_name) in policy_ids_to_asset_names.iter() {
-            let token = TokenId::new(format!("{policy_id}:{asset_name}"));
+        for (_, _, token) in policy_ids_to_asset_names.iter() {
             let asset_chosen_indices = select_input_and_update_balances(
                 &self.available_inputs,
                 &mut self.available_indices,
@@ -97,14 +95,14 @@ impl InputSelectionAlgorithm for RandomImprove {
                     value
                         .assets
                         .iter()
-                        .find(|asset| asset.fingerprint == token)
+                        .find(|asset| &asset.fingerprint == token)
                         .map(|asset| asset.quantity.clone())
                 },
                 |value: &UTxOBuilder| {
                     value
                         .assets
                         .iter()
-                        .find(|asset| asset.fingerprint == token)
+                        .find(|asset| &asset.fingerprint == token)
                         .map(|asset| asset.quantity.clone())
                 },
                 &mut rng,
-- 
2.43.0


From b50e648fb6f5188bafbe5634b358376e8aafe841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:38 +0000
Subject: [PATCH 15/32] fix: utxo-selection: RandomImprove takes equal outputs
 and outputs of nothing

---
 .../src/algorithms/random_improve.rs          | 25 ++++++-------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index 66dd878..75e3a68 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -6,7 +6,7 @@ use dcspark_core::tx::{TransactionAsset, UTxOBuilder, UTxODetails};
 use dcspark_core::{AssetName, PolicyId, Regulated, TokenId, UTxOStore};
 use deps::bigdecimal::ToPrimitive;
 use rand::Rng;
-use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
+use std::collections::{BTreeSet, HashMap, HashSet};
 
 pub struct RandomImprove {
     available_inputs: Vec<UTxODetails>,
@@ -212,14 +212,15 @@ where
         .cloned()
         .collect::<Vec<usize>>();
 
-    let mut associated_indices: BTreeMap<UTxOBuilder, Vec<usize>> = BTreeMap::new();
     let mut outputs = explicit_outputs
         .iter()
         .filter(|output| by_output(output).is_some())
         .cloned()
         .collect::<Vec<UTxOBuilder>>();
     outputs.sort_by_key(|output| by_output(output).expect("filtered above"));
-    for output in outputs.iter().rev() {
+    // the inputs of each output; outputs may be equal, so these go by position
+    let mut associated_indices: Vec<Vec<usize>> = vec![vec![]; outputs.len()];
+    for (output, associated) in outputs.iter().zip(associated_indices.iter_mut()).rev() {
         // TODO: how should we adapt this to inputs being associated when running for other assets?
         // if we do these two phases for each asset and don't take into account the other runs for other assets
         // then we over-add (and potentially fail if we don't have plenty of inputs)
@@ -248,19 +249,13 @@ where
             let input = &available_inputs[i];
             added +=
                 &by_input(input).expect("do not call on asset types that aren't in the output");
-            associated_indices
-                .entry(output.clone())
-                .or_default()
-                .push(i);
+            associated.push(i);
         }
     }
 
     if !relevant_indices.is_empty() {
         // Phase 2: Improvement
-        for output in outputs.iter_mut() {
-            let associated = associated_indices
-                .get_mut(output)
-                .ok_or_else(|| anyhow!("Associated index by output key not found"))?;
+        for (output, associated) in outputs.iter().zip(associated_indices.iter_mut()) {
             for i in associated.iter_mut() {
                 let random_index = rng.gen_range(0..relevant_indices.len());
                 let j: &mut usize = relevant_indices
@@ -290,12 +285,8 @@ where
     }
 
     // after finalizing the improvement we need to actually add these results to the builder
-    for output in outputs.iter() {
-        for i in associated_indices
-            .get(output)
-            .ok_or_else(|| anyhow!("Transaction output key not found"))?
-            .iter()
-        {
+    for associated in associated_indices.iter() {
+        for i in associated.iter() {
             let input = &available_inputs[*i];
             let input_fee = &estimator.fee_for_input(input)?;
             estimator.add_input(input.clone())?;
-- 
2.43.0


From 926296542d51cfee8b71f31b104fde7467486a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:38 +0000
Subject: [PATCH 16/32] fix: utxo-selection: RandomImprove improves by the
 token selected for, and keeps outputs covered

---
 .../src/algorithms/random_improve.rs          | 37 +++++++++++++------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index 75e3a68..9c4dc56 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -4,7 +4,6 @@ use crate::estimate::TransactionFeeEstimator;
 use anyhow::anyhow;
 use dcspark_core::tx::{TransactionAsset, UTxOBuilder, UTxODetails};
 use dcspark_core::{AssetName, PolicyId, Regulated, TokenId, UTxOStore};
-use deps::bigdecimal::ToPrimitive;
 use rand::Rng;
 use std::collections::{BTreeSet, HashMap, HashSet};
 
@@ -256,26 +255,42 @@ where
     if !relevant_indices.is_empty() {
         // Phase 2: Improvement
         for (output, associated) in outputs.iter().zip(associated_indices.iter_mut()) {
+            let min = by_output(output)
+                .ok_or_else(|| anyhow!("Transaction output proper amount is not found"))?;
+            let ideal = &min * 2usize;
+            let max = &min * 3usize;
+            let distance = |value: &dcspark_core::Value<Regulated>| {
+                if value < &ideal {
+                    &ideal - value
+                } else {
+                    value - &ideal
+                }
+            };
+            let amount = |i: usize| {
+                by_input(&available_inputs[i])
+                    .expect("do not call on asset types that aren't in the output")
+            };
+            let mut added = associated
+                .iter()
+                .map(|i| amount(*i))
+                .sum::<dcspark_core::Value<Regulated>>();
             for i in associated.iter_mut() {
                 let random_index = rng.gen_range(0..relevant_indices.len());
                 let j: &mut usize = relevant_indices
                     .get_mut(random_index)
                     .ok_or_else(|| anyhow!("Relevant index by random index not found"))?;
+                let cur = amount(*i);
+                let new = amount(*j);
+                let improved = &added - &cur + &new;
                 let should_improve = {
-                    let input = &available_inputs[*i];
-                    let new_input = &available_inputs[*j];
-                    let cur = input.value.raw().to_u64().unwrap();
-                    let new = new_input.value.raw().to_u64().unwrap();
-                    let min = output.value.raw().to_u64().unwrap();
-                    let ideal = 2 * min;
-                    let max = 3 * min;
-                    let move_closer =
-                        (ideal as i128 - new as i128).abs() < (ideal as i128 - cur as i128).abs();
+                    let move_closer = distance(&new) < distance(&cur);
                     let not_exceed_max = new < max;
+                    let still_covered = improved >= min;
 
-                    move_closer && not_exceed_max
+                    move_closer && not_exceed_max && still_covered
                 };
                 if should_improve {
+                    added = improved;
                     available_indices.insert(*i);
                     available_indices.remove(j);
                     std::mem::swap(i, j);
-- 
2.43.0


From 8d2d59af5af8f4e2e18c738933197ce88853d729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:06 +0000
Subject: [PATCH 17/32] fix: utxo-selection: a failed RandomImprove selection
 uses nothing up

---
 utxo-selection/src/algorithms/random_improve.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index 9c4dc56..3900053 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -66,6 +66,8 @@ impl InputSelectionAlgorithm for RandomImprove {
 
         let explicit_outputs = input_output_setup.fixed_outputs.clone();
 
+        // a selection that fails leaves what is available as it was
+        let mut available_indices = self.available_indices.clone();
         let mut chosen_indices = HashSet::<usize>::new();
 
         let mut rng = rand::thread_rng();
@@ -84,7 +86,7 @@ impl InputSelectionAlgorithm for RandomImprove {
         for (_, _, token) in policy_ids_to_asset_names.iter() {
             let asset_chosen_indices = select_input_and_update_balances(
                 &self.available_inputs,
-                &mut self.available_indices,
+                &mut available_indices,
                 &explicit_outputs,
                 estimator,
                 &mut asset_input_balance,
@@ -113,7 +115,7 @@ impl InputSelectionAlgorithm for RandomImprove {
         // add in remaining ADA
         let ada_chosen_indices = select_input_and_update_balances(
             &self.available_inputs,
-            &mut self.available_indices,
+            &mut available_indices,
             &explicit_outputs,
             estimator,
             &mut asset_input_balance,
@@ -129,15 +131,14 @@ impl InputSelectionAlgorithm for RandomImprove {
         // We do this at the end because this new inputs won't be associated with
         // a specific output, so the improvement algorithm we do above does not apply here.
         while input_balance < &output_balance + &fee {
-            if self.available_indices.is_empty() {
+            if available_indices.is_empty() {
                 return Err(anyhow!("UTxO Balance Insufficient[x]"));
             }
-            let i = *self
-                .available_indices
+            let i = *available_indices
                 .iter()
-                .nth(rng.gen_range(0..self.available_indices.len()))
+                .nth(rng.gen_range(0..available_indices.len()))
                 .unwrap();
-            self.available_indices.remove(&i);
+            available_indices.remove(&i);
             let input = &self.available_inputs[i];
             let input_fee = estimator.fee_for_input(input)?;
             estimator.add_input(input.clone())?;
@@ -156,6 +157,8 @@ impl InputSelectionAlgorithm for RandomImprove {
             chosen_indices.insert(i);
         }
 
+        self.available_indices = available_indices;
+
         Ok(InputSelectionResult {
             fixed_inputs: input_output_setup.fixed_inputs,
             fixed_outputs: input_output_setup.fixed_outputs,
-- 
2.43.0


From 27f9246398cb0d9f205371fa85f2cbc0b7332016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:35 +0000
Subject: [PATCH 18/32] fix: utxo-selection: Thermostat takes fixed inputs with
 tokens its store does not know

---
 utxo-selection/src/algorithms/thermostat.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/utxo-selection/src/algorithms/thermostat.rs b/utxo-selection/src/algorithms/thermostat.rs
index d1f322c..38d07bc 100644
--- a/utxo-selection/src/algorithms/thermostat.rs
+++ b/utxo-selection/src/algorithms/thermostat.rs
@@ -4,7 +4,7 @@ use crate::{
 };
 use anyhow::{anyhow, Context};
 use dcspark_core::tx::{TransactionAsset, UTxOBuilder, UTxODetails};
-use dcspark_core::{Address, Balance, Regulated, TokenId, UTxOStore, Value};
+use dcspark_core::{Address, AssetName, Balance, PolicyId, Regulated, TokenId, UTxOStore, Value};
 use deps::bigdecimal::ToPrimitive;
 use serde::Deserialize;
 use std::collections::hash_map::Entry;
@@ -43,6 +43,8 @@ pub struct Thermostat {
 
     balance: Balance<Regulated>,
     asset_balance: HashMap<TokenId, Balance<Regulated>>,
+    /// policy and name of the assets of the fixed inputs: the store may not know them
+    asset_ids: HashMap<TokenId, (PolicyId, AssetName)>,
     config: ThermostatAlgoConfig,
     available_utxos: UTxOStore,
 }
@@ -61,6 +63,7 @@ impl Thermostat {
             selected_inputs_value: Value::zero(),
             balance: Balance::Balanced,
             asset_balance: HashMap::new(),
+            asset_ids: HashMap::new(),
             config,
             available_utxos: Default::default(),
         }
@@ -307,6 +310,7 @@ impl Thermostat {
                 } else {
                     let (policy_id, asset_name) = utxos
                         .get_asset_ids(&asset)
+                        .or_else(|| self.asset_ids.get(&asset))
                         .cloned()
                         .expect("Always expect to retrieve the policy_id/asset_name");
 
@@ -569,6 +573,7 @@ impl Thermostat {
         self.selected_inputs_value = Value::zero();
         self.balance = Balance::Balanced;
         self.asset_balance = HashMap::new();
+        self.asset_ids = HashMap::new();
     }
 }
 
@@ -603,6 +608,10 @@ impl InputSelectionAlgorithm for Thermostat {
                 .asset_balance
                 .entry(token.clone())
                 .or_insert_with(Balance::zero) += asset.quantity.clone();
+            self.asset_ids.insert(
+                token.clone(),
+                (asset.policy_id.clone(), asset.asset_name.clone()),
+            );
         }
         for (token, asset) in input_output_setup.output_asset_balance.iter() {
             *self
-- 
2.43.0


From 006336c81c35856210d505599e6e8e9a7f4093c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:58 +0000
Subject: [PATCH 19/32] fix: utxo-selection: Thermostat loses no tokens when it
 does not split a change

---
 utxo-selection/src/algorithms/thermostat.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utxo-selection/src/algorithms/thermostat.rs b/utxo-selection/src/algorithms/thermostat.rs
index 38d07bc..019412f 100644
--- a/utxo-selection/src/algorithms/thermostat.rs
+++ b/utxo-selection/src/algorithms/thermostat.rs
@@ -424,7 +424,7 @@ impl Thermostat {
                     if asset.quantity > pivot {
                         let quantity = &mut new.assets.get_mut(0).unwrap().quantity;
                         *quantity = (quantity.clone() / 2).truncate();
-                        asset.quantity -= quantity.clone();
+                        let quantity = quantity.clone();
 
                         let fee_for_output = estimate.fee_for_output(&new)?;
                         let fee_new = (&fee_for_output / 2).truncate();
@@ -434,6 +434,8 @@ impl Thermostat {
                             continue;
                         }
 
+                        asset.quantity -= quantity;
+
                         // new.value + change.value + fee_for_output = original value
                         // (original valuye / 2 - fee_new) + (original value - original_value / 2 + fee_new - (fee_new + (fee_for_output - fee_new)) + fee_for_output =? original value
 
-- 
2.43.0


From 709f6d7cadc63f6ebe930c994e47391d01d8ce8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:06 +0000
Subject: [PATCH 20/32] fix: utxo-selection: Thermostat splits no change into
 outputs that hold too little

---
 utxo-selection/src/algorithms/thermostat.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/utxo-selection/src/algorithms/thermostat.rs b/utxo-selection/src/algorithms/thermostat.rs
index 019412f..f7083d0 100644
--- a/utxo-selection/src/algorithms/thermostat.rs
+++ b/utxo-selection/src/algorithms/thermostat.rs
@@ -434,13 +434,19 @@ impl Thermostat {
                             continue;
                         }
 
-                        asset.quantity -= quantity;
-
                         // new.value + change.value + fee_for_output = original value
                         // (original valuye / 2 - fee_new) + (original value - original_value / 2 + fee_new - (fee_new + (fee_for_output - fee_new)) + fee_for_output =? original value
 
                         new.value = &value - &fee_new;
-                        change.value = &change.value - &new.value - &fee_for_output;
+                        let remaining = &change.value - &new.value - &fee_for_output;
+                        // both have to hold what an output needs at least
+                        let min_ada_required = estimate.min_value_for_output(new.clone())?;
+                        if new.value < min_ada_required || remaining < min_ada_required {
+                            continue;
+                        }
+
+                        asset.quantity -= quantity;
+                        change.value = remaining;
                         self.balance += &fee_for_output;
 
                         estimate.add_output(new.clone())?;
@@ -464,7 +470,14 @@ impl Thermostat {
 
                     if current > pivot {
                         new.value = &value - &fee_new;
-                        change.value = &change.value - &new.value - &fee_for_output;
+                        let remaining = &change.value - &new.value - &fee_for_output;
+                        // both have to hold what an output needs at least
+                        let min_ada_required = estimate.min_value_for_output(new.clone())?;
+                        if new.value < min_ada_required || remaining < min_ada_required {
+                            continue;
+                        }
+
+                        change.value = remaining;
                         self.balance += &fee_for_output;
 
                         self.extra_changes.push(new.clone());
-- 
2.43.0


From e9eb7b1fb11edc3f8e8cae7cf73633d314e78664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:16 +0000
Subject: [PATCH 21/32] fix: utxo-selection: Thermostat pays for the inputs and
 changes it adds last

---
 utxo-selection/src/algorithms/thermostat.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utxo-selection/src/algorithms/thermostat.rs b/utxo-selection/src/algorithms/thermostat.rs
index f7083d0..bb9a5dc 100644
--- a/utxo-selection/src/algorithms/thermostat.rs
+++ b/utxo-selection/src/algorithms/thermostat.rs
@@ -574,6 +574,10 @@ impl Thermostat {
             self.balance_excess_of_asset(&utxos, asset, estimator)?;
         }
 
+        // the inputs and changes just added may need more of the main asset
+        // than there was left
+        utxos = self.select_input_for_main_until_balanced(utxos, estimator)?;
+
         self.balance_excess(estimator)?;
         self.split_accumulators(&utxos, estimator)?;
         self.available_utxos = utxos;
-- 
2.43.0


From dc54c51a7546823a6443dd755a2ad32826f7b2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:04 +0000
Subject: [PATCH 22/32] fix: utxo-selection: Thermostat splits no token that
 can not be halved

---
 utxo-selection/src/algorithms/thermostat.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utxo-selection/src/algorithms/thermostat.rs b/utxo-selection/src/algorithms/thermostat.rs
index bb9a5dc..be7f751 100644
--- a/utxo-selection/src/algorithms/thermostat.rs
+++ b/utxo-selection/src/algorithms/thermostat.rs
@@ -426,6 +426,10 @@ impl Thermostat {
                         *quantity = (quantity.clone() / 2).truncate();
                         let quantity = quantity.clone();
 
+                        if quantity == Value::zero() {
+                            continue;
+                        }
+
                         let fee_for_output = estimate.fee_for_output(&new)?;
                         let fee_new = (&fee_for_output / 2).truncate();
                         let value = (&new.value / 2).truncate();
-- 
2.43.0


From 0599a541c172eb3baeeaa44a45913de335545da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 23/32] fix: a block that cannot be read is an error of its
 pull, not the end of the source

---
 blockchain-source/src/cardano/event.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blockchain-source/src/cardano/event.rs b/blockchain-source/src/cardano/event.rs
index 8a038d4..7ea012b 100644
--- a/blockchain-source/src/cardano/event.rs
+++ b/blockchain-source/src/cardano/event.rs
@@ -106,7 +106,7 @@ impl<Tip> GetNextFrom for CardanoNetworkEvent<BlockEvent, Tip> {
 impl BlockEvent {
     pub(crate) fn from_serialized_block(raw_block: &[u8], era: &Era) -> anyhow::Result<Self> {
         let block = cml_multi_era::MultiEraBlock::from_explicit_network_cbor_bytes(raw_block)
-            .expect("failed to deserialize block");
+            .map_err(|error| anyhow!("failed to deserialize block: {error:?}"))?;
         let header = &block.header();
         Ok(BlockEvent {
             raw_block: raw_block.to_vec(),
-- 
2.43.0


From 6bed0641fcbe0b434fb19992970d5d5c7326b5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 24/32] fix: of a block and its parent with the same block
 number, the best chain ends in the former

An epoch boundary block has the block number of its parent. Which of the two the ancestor was
searched from was arbitrary, so that one block could be skipped as the best block.
---
 multiverse/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/multiverse/src/lib.rs b/multiverse/src/lib.rs
index 7bad5de..34ba79c 100644
--- a/multiverse/src/lib.rs
+++ b/multiverse/src/lib.rs
@@ -505,7 +505,10 @@ where
         // take the blocks that have the highest `BlockNumber`
         // these are the most likely tips at the given time
         let selected = if let Some((_, tips)) = self.ordered.iter().last() {
-            if let Some(tip) = tips.iter().next() {
+            // an epoch boundary block has the same block number as its parent: between the two,
+            // the tip is the one that counts.
+            let tip = tips.iter().find(|block| self.tips.contains(*block));
+            if let Some(tip) = tip.or_else(|| tips.iter().next()) {
                 self.ancestor(tip, depth)
             } else {
                 None
-- 
2.43.0


From 1c18917a3045c25d391ed164defb4fb98117f333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 25/32] fix: load a block after its parent if they have the
 same block number

An epoch boundary block stored under an id lower than its parent's lost the link to it.
---
 multiverse/src/lib.rs | 44 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/multiverse/src/lib.rs b/multiverse/src/lib.rs
index 34ba79c..19db84e 100644
--- a/multiverse/src/lib.rs
+++ b/multiverse/src/lib.rs
@@ -293,16 +293,56 @@ where
     ) -> Result<Self, MultiverseError> {
         let mut multiverse = Self::new_with(db, domain, store_from);
 
+        let mut blocks: Vec<V> = Vec::new();
+
         for entry in multiverse.tree.iter().values() {
             let formatted_ir = entry?;
-            let ir = deps::serde_json::from_slice(&formatted_ir)?;
+            let ir: V = deps::serde_json::from_slice(&formatted_ir)?;
+
+            if blocks
+                .last()
+                .map(|block| block.block_number() != ir.block_number())
+                .unwrap_or(false)
+            {
+                multiverse.insert_all_in_memory(std::mem::take(&mut blocks))?;
+            }
 
-            multiverse.insert_in_memory(ir)?;
+            blocks.push(ir);
         }
 
+        multiverse.insert_all_in_memory(blocks)?;
+
         Ok(multiverse)
     }
 
+    /// insert blocks that have the same block number.
+    ///
+    /// The order they were stored in is by id, but the parent of an epoch boundary block has the
+    /// same block number as the block itself, and needs to be inserted first.
+    fn insert_all_in_memory(&mut self, mut blocks: Vec<V>) -> Result<(), MultiverseError> {
+        while !blocks.is_empty() {
+            let ids: HashSet<K> = blocks.iter().map(|block| block.id().clone()).collect();
+
+            let (later, mut now): (Vec<V>, Vec<V>) = blocks
+                .into_iter()
+                .partition(|block| ids.contains(block.parent_id()));
+
+            blocks = if now.is_empty() {
+                // not a tree, the order doesn't matter.
+                now = later;
+                Vec::new()
+            } else {
+                later
+            };
+
+            for block in now {
+                self.insert_in_memory(block)?;
+            }
+        }
+
+        Ok(())
+    }
+
     /// open the multiverse, loading an existing persisted multiverse
     ///
     /// the `domain` is the sub[`sled::Tree`] in the [`sled::Db`] that
-- 
2.43.0


From bf2ff9861706b2264d0899850952f3e4cb649a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:17 +0000
Subject: [PATCH 26/32] fix: utxo-selection: the magic adds to the size of the
 transaction

---
 utxo-selection/src/estimators/thermostat_estimator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utxo-selection/src/estimators/thermostat_estimator.rs b/utxo-selection/src/estimators/thermostat_estimator.rs
index e1cf5c5..9bc84db 100644
--- a/utxo-selection/src/estimators/thermostat_estimator.rs
+++ b/utxo-selection/src/estimators/thermostat_estimator.rs
@@ -91,7 +91,7 @@ impl ThermostatFeeEstimator {
 
     #[allow(unused)]
     pub fn add_protocol_magic(&mut self, protocol_magic: impl AsRef<str>) {
-        self.current_size = protocol_magic.as_ref().len() + 5;
+        self.current_size += protocol_magic.as_ref().len() + 5;
         self.cost_metadata = {
             let v = self
                 .network_info
-- 
2.43.0


From d5f86269c3b3ee7a73954a3f43122c4aef00010b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:21 +0000
Subject: [PATCH 27/32] fix: cardano-utils: an asset's name is its bytes, not
 their CBOR encoding

---
 cardano-utils/src/utxo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cardano-utils/src/utxo.rs b/cardano-utils/src/utxo.rs
index 62347c5..3b0d191 100644
--- a/cardano-utils/src/utxo.rs
+++ b/cardano-utils/src/utxo.rs
@@ -191,7 +191,7 @@ fn csl_value_to_tokens(
     let mut tokens = HashMap::<TokenId, TransactionAsset>::new();
     multiasset_iter(value, |policy_id, asset_name, quantity| {
         let policy_id = PolicyId::new(hex::encode(policy_id.to_bytes()));
-        let asset_name = AssetName::new(hex::encode(asset_name.to_bytes()));
+        let asset_name = AssetName::new(hex::encode(asset_name.name()));
         let fingerprint = fingerprint(&policy_id, &asset_name)
             .map_err(|err| anyhow!("Can't create fingerprint {err}"))?;
         let quantity = quantity.ok_or_else(|| anyhow!("not found asset quantity"))?;
-- 
2.43.0


From 6237b7577138ed6cce1b090b1adf1908cd5a293e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:49 +0000
Subject: [PATCH 28/32] fix: cardano-utils: an asset listed twice is in the
 output with both quantities

---
 cardano-utils/src/utxo.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/cardano-utils/src/utxo.rs b/cardano-utils/src/utxo.rs
index 3b0d191..4043426 100644
--- a/cardano-utils/src/utxo.rs
+++ b/cardano-utils/src/utxo.rs
@@ -32,10 +32,7 @@ pub fn utxo_details_to_cml_input(
         cardano_multiplatform_lib::address::Address::from_bech32(details.address.as_ref())
             .map_err(|err| anyhow!("can't convert input during address conversion: {}", err))?;
 
-    let mut assets_map = HashMap::new();
-    details.assets.iter().for_each(|asset: &TransactionAsset| {
-        assets_map.insert(asset.fingerprint.clone(), asset.clone());
-    });
+    let assets_map = assets_by_token(&details.assets);
 
     let value = tokens_to_csl_value(&details.value, &assets_map)
         .map_err(|err| anyhow!("can't convert value: {}", err))?;
@@ -109,6 +106,18 @@ fn value_to_csl_coin(value: &Value<Regulated>) -> anyhow::Result<Coin> {
     })?))
 }
 
+/// an asset may be listed more than once
+fn assets_by_token(assets: &[TransactionAsset]) -> HashMap<TokenId, TransactionAsset> {
+    let mut assets_map = HashMap::<TokenId, TransactionAsset>::new();
+    for asset in assets {
+        assets_map
+            .entry(asset.fingerprint.clone())
+            .and_modify(|known| known.quantity += &asset.quantity)
+            .or_insert_with(|| asset.clone());
+    }
+    assets_map
+}
+
 fn tokens_to_csl_value(
     coin: &Value<Regulated>,
     assets: &HashMap<TokenId, TransactionAsset>,
@@ -213,10 +222,7 @@ pub fn utxo_builder_to_cml_output(builder: &UTxOBuilder) -> anyhow::Result<Trans
         cardano_multiplatform_lib::address::Address::from_bech32(builder.address.as_ref())
             .map_err(|err| anyhow!("can't convert output during address conversion: {}", err))?;
 
-    let mut assets_map = HashMap::new();
-    builder.assets.iter().for_each(|asset: &TransactionAsset| {
-        assets_map.insert(asset.fingerprint.clone(), asset.clone());
-    });
+    let assets_map = assets_by_token(&builder.assets);
 
     let value = tokens_to_csl_value(&builder.value, &assets_map)
         .map_err(|err| anyhow!("can't convert value: {}", err))?;
-- 
2.43.0


From bc6342ec515d57641bd37c60d163edde3444978d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:48 +0000
Subject: [PATCH 29/32] fix: utxo-selection: Thermostat takes inputs that cost
 nothing

---
 utxo-selection/src/algorithms/thermostat.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utxo-selection/src/algorithms/thermostat.rs b/utxo-selection/src/algorithms/thermostat.rs
index be7f751..a72aead 100644
--- a/utxo-selection/src/algorithms/thermostat.rs
+++ b/utxo-selection/src/algorithms/thermostat.rs
@@ -99,10 +99,12 @@ impl Thermostat {
         // in two in order to preserver distribution
         let reserved_room = reserved_room * 2;
 
+        // inputs that cost nothing take up no room
         Ok(estimate
             .max_size()?
             .saturating_sub(estimate.current_size()?.saturating_add(reserved_room))
-            / size_of_one_input)
+            .checked_div(size_of_one_input)
+            .unwrap_or(usize::MAX))
     }
 
     fn add_input(&mut self, input: UTxODetails) {
-- 
2.43.0


From c49262c55dc91424593b14117a47bbffa87e5708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:35 +0000
Subject: [PATCH 30/32] fix: core: a token listed in several parts of an output
 counts in full

The UTxO store indexed the last part by its own amount and took the first one out: the balance of the
token, and its order by amount, no longer agreed with the outputs.
---
 core/src/utxo_store.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/core/src/utxo_store.rs b/core/src/utxo_store.rs
index 0447578..71c889b 100644
--- a/core/src/utxo_store.rs
+++ b/core/src/utxo_store.rs
@@ -35,6 +35,15 @@ pub struct UTxOStoreMut {
     dictionary: HashMap<TokenId, (PolicyId, AssetName)>,
 }
 
+/// how much of the token the UTxO holds, which may be listed in several parts
+fn quantity_of(utxo: &UTxODetails, token: &TokenId) -> Value<Regulated> {
+    utxo.assets
+        .iter()
+        .filter(|asset| &asset.fingerprint == token)
+        .map(|asset| asset.quantity.clone())
+        .sum()
+}
+
 impl UTxOSet {
     pub fn remove_from_asset(&mut self, pointer: &UtxoPointer) -> Option<Arc<UTxODetails>> {
         let utxo: Arc<UTxODetails> = self.set.remove(pointer)?;
@@ -42,12 +51,7 @@ impl UTxOSet {
         let value = if self.token_id == TokenId::MAIN {
             utxo.value.clone()
         } else {
-            utxo.assets
-                .iter()
-                .find(|ta| ta.fingerprint == self.token_id)
-                .map(|ta| &ta.quantity)
-                .cloned()
-                .expect("We know we already have the value")
+            quantity_of(&utxo, &self.token_id)
         };
 
         self.finish_remove(value, pointer);
@@ -323,14 +327,18 @@ impl UTxOStoreMut {
                 );
 
             for asset in utxo_details.assets.iter() {
-                self.by_policy_id
+                let set = self
+                    .by_policy_id
                     .entry(asset.fingerprint.clone())
-                    .or_default()
-                    .add_value(
+                    .or_default();
+                // all parts of a token are added at once
+                if !set.contains_key(&pointer) {
+                    set.add_value(
                         &asset.fingerprint,
-                        asset.quantity.clone(),
+                        quantity_of(&utxo_details, &asset.fingerprint),
                         utxo_details.clone(),
                     );
+                }
 
                 // We want to populate the dictionary only if we don't
                 // already have the entry
-- 
2.43.0


From 118e7f38dd8374ffc5b20312b6b504b6d95c70c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:35 +0000
Subject: [PATCH 31/32] fix: utxo-selection: RandomImprove counts all parts of
 a token

An input or output that lists a token in several parts was taken for its first part only.
---
 .../src/algorithms/random_improve.rs          | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index 3900053..66916b4 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -92,20 +92,8 @@ impl InputSelectionAlgorithm for RandomImprove {
                 &mut asset_input_balance,
                 &mut input_balance,
                 &mut fee,
-                |value: &UTxODetails| {
-                    value
-                        .assets
-                        .iter()
-                        .find(|asset| &asset.fingerprint == token)
-                        .map(|asset| asset.quantity.clone())
-                },
-                |value: &UTxOBuilder| {
-                    value
-                        .assets
-                        .iter()
-                        .find(|asset| &asset.fingerprint == token)
-                        .map(|asset| asset.quantity.clone())
-                },
+                |value: &UTxODetails| quantity_of(&value.assets, token),
+                |value: &UTxOBuilder| quantity_of(&value.assets, token),
                 &mut rng,
             )?;
 
@@ -184,6 +172,18 @@ impl InputSelectionAlgorithm for RandomImprove {
     }
 }
 
+/// how much there is of the token, which may be listed in several parts
+fn quantity_of(
+    assets: &[TransactionAsset],
+    token: &TokenId,
+) -> Option<dcspark_core::Value<Regulated>> {
+    assets
+        .iter()
+        .filter(|asset| &asset.fingerprint == token)
+        .map(|asset| asset.quantity.clone())
+        .reduce(|sum, quantity| sum + quantity)
+}
+
 #[allow(clippy::too_many_arguments)]
 fn select_input_and_update_balances<
     Estimate: TransactionFeeEstimator<InputUtxo = UTxODetails, OutputUtxo = UTxOBuilder>,
-- 
2.43.0


From 9a5465cd91f1faec0853f2fde9d53c74bc49c7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:35 +0000
Subject: [PATCH 32/32] fix: core: converting microalgo gives algo, not ether

---
 core/src/value.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/value.rs b/core/src/value.rs
index d0c1eaf..6adf106 100644
--- a/core/src/value.rs
+++ b/core/src/value.rs
@@ -363,7 +363,7 @@ impl Value<algo::MicroAlgo> {
     }
 
     #[inline]
-    pub fn to_algo(&self) -> Value<evm::Ether> {
+    pub fn to_algo(&self) -> Value<algo::Algo> {
         Value {
             value: scale(&self.value, algo::ALGO_MICRO_SCALE_FACTOR),
             phantom_data: PhantomData,
-- 
2.43.0

