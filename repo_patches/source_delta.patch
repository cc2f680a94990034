From d936ada55df220174da453fa349cc92a329921ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:24 +0000
Subject: [PATCH 01/40] fix: normalise the encoding of every stored and queried
 memcmp filter

Only the first filter set of a program was converted to bytes; later sets and
the queried filter were compared in their original encoding, so a covered
base58/base64 filter was reported as not covered.
---
 common/src/simple_filter_store.rs | 37 ++++++++++++++-----------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/common/src/simple_filter_store.rs b/common/src/simple_filter_store.rs
index 5f4a7b3..9dbfbc6 100644
--- a/common/src/simple_filter_store.rs
+++ b/common/src/simple_filter_store.rs
@@ -17,6 +17,20 @@ enum ProgramIdFilters {
     ByFilterType(Vec<BTreeSet<AccountFilterType>>),
 }
 
+// always save and compare memcmp filters in bytes, whatever their encoding was
+fn normalize_filters(filters: &[AccountFilterType]) -> BTreeSet<AccountFilterType> {
+    filters
+        .iter()
+        .map(|filter| match filter {
+            AccountFilterType::Datasize(_) => filter.clone(),
+            AccountFilterType::Memcmp(memcmp) => AccountFilterType::Memcmp(MemcmpFilter {
+                offset: memcmp.offset,
+                data: crate::account_filter::MemcmpFilterData::Bytes(memcmp.bytes()),
+            }),
+        })
+        .collect()
+}
+
 #[derive(Default)]
 pub struct SimpleFilterStore {
     accounts: HashSet<Pubkey>,
@@ -44,7 +58,7 @@ impl SimpleFilterStore {
                         }
                         ProgramIdFilters::ByFilterType(current_filters) => {
                             if let Some(new_filters) = &account_filter.filters {
-                                current_filters.push(new_filters.iter().cloned().collect());
+                                current_filters.push(normalize_filters(new_filters));
                             } else {
                                 // the new filters will subscribe to all the filters
                                 *program_filters = ProgramIdFilters::AllowAll;
@@ -59,23 +73,7 @@ impl SimpleFilterStore {
                             .filters
                             .clone()
                             .map_or(ProgramIdFilters::AllowAll, |filters| {
-                                // always save filters in bytes
-                                let filters = filters.iter().map(|x| match &x {
-                                    AccountFilterType::Datasize(_) => x.clone(),
-                                    AccountFilterType::Memcmp(memcmp) => {
-                                        match memcmp.data {
-                                            crate::account_filter::MemcmpFilterData::Bytes(_) => x.clone(),
-                                            crate::account_filter::MemcmpFilterData::Base58(_) |
-                                            crate::account_filter::MemcmpFilterData::Base64(_) => {
-                                                AccountFilterType::Memcmp(MemcmpFilter {
-                                                    offset: memcmp.offset,
-                                                    data: crate::account_filter::MemcmpFilterData::Bytes(memcmp.bytes())
-                                                })
-                                            },
-                                        }
-                                    },
-                                }).collect();
-                                ProgramIdFilters::ByFilterType(vec![filters])
+                                ProgramIdFilters::ByFilterType(vec![normalize_filters(&filters)])
                             }),
                     );
                 }
@@ -101,8 +99,7 @@ impl SimpleFilterStore {
                         ProgramIdFilters::ByFilterType(filter_list) => {
                             if let Some(filter_to_match) = &account_filter.filters {
                                 // matches sorted filter list
-                                let filter_to_match: BTreeSet<AccountFilterType> =
-                                    filter_to_match.iter().cloned().collect();
+                                let filter_to_match = normalize_filters(filter_to_match);
                                 filter_list.iter().any(|stored_filters| {
                                     if filter_to_match.len() >= stored_filters.len() {
                                         let subset = filter_to_match
-- 
2.43.0


From fcb634f358ec6216fc2e411343f0bf31265df3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:24 +0000
Subject: [PATCH 02/40] fix: accept a queried filter set that contains a stored
 one at any position

The coverage test compared the stored set with the first elements of the
sorted query instead of testing inclusion, so a query adding a filter that
sorts before a stored one was rejected.
---
 common/src/simple_filter_store.rs | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/common/src/simple_filter_store.rs b/common/src/simple_filter_store.rs
index 9dbfbc6..ca9635a 100644
--- a/common/src/simple_filter_store.rs
+++ b/common/src/simple_filter_store.rs
@@ -101,16 +101,7 @@ impl SimpleFilterStore {
                                 // matches sorted filter list
                                 let filter_to_match = normalize_filters(filter_to_match);
                                 filter_list.iter().any(|stored_filters| {
-                                    if filter_to_match.len() >= stored_filters.len() {
-                                        let subset = filter_to_match
-                                            .iter()
-                                            .take(stored_filters.len())
-                                            .cloned()
-                                            .collect::<BTreeSet<_>>();
-                                        subset == *stored_filters
-                                    } else {
-                                        false
-                                    }
+                                    stored_filters.is_subset(&filter_to_match)
                                 })
                             } else {
                                 false
-- 
2.43.0


From b9b957933090f06ad9a6ab1687cf4b957adcc86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:51 +0000
Subject: [PATCH 03/40] fix: except filter store no longer claims coverage of
 partially excluded programs

contains_filter negated 'fully excluded', so a program or account list of which
only a part is excluded was reported as fully covered.
---
 common/src/except_filter_store.rs |  2 +-
 common/src/simple_filter_store.rs | 21 ++++++++++++++++-----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/common/src/except_filter_store.rs b/common/src/except_filter_store.rs
index 9de0da8..cca7cab 100644
--- a/common/src/except_filter_store.rs
+++ b/common/src/except_filter_store.rs
@@ -24,7 +24,7 @@ impl AccountFiltersStoreInterface for ExceptFilterStore {
     }
 
     fn contains_filter(&self, filter: &AccountFilter) -> bool {
-        !self.simple_filter_store.contains_filter_internal(filter)
+        !self.simple_filter_store.intersects_filter(filter)
     }
 }
 
diff --git a/common/src/simple_filter_store.rs b/common/src/simple_filter_store.rs
index ca9635a..a17ef3c 100644
--- a/common/src/simple_filter_store.rs
+++ b/common/src/simple_filter_store.rs
@@ -69,12 +69,12 @@ impl SimpleFilterStore {
                 None => {
                     self.program_id_filters.insert(
                         *program_id,
-                        account_filter
-                            .filters
-                            .clone()
-                            .map_or(ProgramIdFilters::AllowAll, |filters| {
+                        account_filter.filters.clone().map_or(
+                            ProgramIdFilters::AllowAll,
+                            |filters| {
                                 ProgramIdFilters::ByFilterType(vec![normalize_filters(&filters)])
-                            }),
+                            },
+                        ),
                     );
                 }
             }
@@ -118,6 +118,17 @@ impl SimpleFilterStore {
         accounts_match && program_filter_match
     }
 
+    // true if some accounts selected by the filter may be tracked by this store
+    pub fn intersects_filter(&self, account_filter: &AccountFilter) -> bool {
+        account_filter
+            .accounts
+            .iter()
+            .any(|pk| self.accounts.contains(pk))
+            || account_filter.program_id.map_or(false, |program_id| {
+                self.program_id_filters.contains_key(&program_id)
+            })
+    }
+
     pub fn satisfies_filter(&self, account: &AccountData) -> bool {
         if self.accounts.contains(&account.pubkey) {
             return true;
-- 
2.43.0


From 82321759270533763122b37f68d681959ef223ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:25 +0000
Subject: [PATCH 04/40] fix: malformed account filter configuration is an error
 instead of a panic

Deserializing an AccountFilter with a non-string or invalid pubkey, or with an
unknown filter shape, panicked instead of returning a deserialization error.
---
 common/src/account_filter.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/common/src/account_filter.rs b/common/src/account_filter.rs
index 9f07602..a1fb1cb 100644
--- a/common/src/account_filter.rs
+++ b/common/src/account_filter.rs
@@ -1,6 +1,6 @@
 use base64::Engine;
 use itertools::Itertools;
-use serde::{ser::SerializeMap, Deserialize, Serialize};
+use serde::{de::Error, ser::SerializeMap, Deserialize, Serialize};
 use solana_rpc_client_api::filter::{Memcmp as RpcMemcmp, MemcmpEncodedBytes, RpcFilterType};
 use solana_sdk::pubkey::Pubkey;
 use std::str::FromStr;
@@ -110,28 +110,27 @@ impl<'de> Deserialize<'de> for AccountFilter {
     {
         let json: serde_json::value::Value = serde_json::value::Value::deserialize(deserializer)?;
 
+        let parse_pubkey = |v: &serde_json::value::Value| {
+            let s = v
+                .as_str()
+                .ok_or_else(|| D::Error::custom("pubkey should be a string"))?;
+            Pubkey::from_str(s).map_err(D::Error::custom)
+        };
+
         let accounts = match json.get("accounts") {
             Some(accounts) => match accounts.as_array() {
                 Some(accounts_array) => accounts_array
                     .iter()
-                    .map(|v| {
-                        Pubkey::from_str(v.as_str().expect("should be string"))
-                            .expect("Pubkey should be valid")
-                    })
-                    .collect_vec(),
+                    .map(parse_pubkey)
+                    .collect::<Result<Vec<_>, _>>()?,
                 None => vec![],
             },
             None => vec![],
         };
-        let program_id = json.get("programId").map(|program_id| {
-            Pubkey::from_str(program_id.as_str().expect("should be string"))
-                .expect("Pubkey should be valid")
-        });
+        let program_id = json.get("programId").map(parse_pubkey).transpose()?;
 
         let filters = match json.get("filters") {
-            Some(filters) => {
-                serde_json::from_value(filters.clone()).expect("account filters not deserializable")
-            }
+            Some(filters) => serde_json::from_value(filters.clone()).map_err(D::Error::custom)?,
             None => None,
         };
         Ok(Self {
-- 
2.43.0


From 13ab7d675db5e77956e60368bd60659588f69d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 05/40] fix: program account queries without filters no longer
 return deleted accounts

---
 account_storage/src/inmemory_account_store.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 04b7f74..d0b1e30 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -191,8 +191,10 @@ impl InmemoryAccountStore {
             None => {
                 let account_data = lk_on_account.get_account_data(commitment);
                 if let Some(account_data) = account_data {
-                    // recheck owner
-                    if program_pubkey == account_data.account.owner {
+                    // recheck owner and skip deleted accounts
+                    if account_data.account.lamports > 0
+                        && program_pubkey == account_data.account.owner
+                    {
                         return_vec.push(account_data);
                     }
                 }
-- 
2.43.0


From 7a330a08f06a57b0f98edba2cb9566160faeb0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 06/40] fix: slot promotion also promotes a higher write
 version of the same slot

---
 account_storage/src/account_data_by_commitment.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/account_storage/src/account_data_by_commitment.rs b/account_storage/src/account_data_by_commitment.rs
index 5d88493..9ea51e6 100644
--- a/account_storage/src/account_data_by_commitment.rs
+++ b/account_storage/src/account_data_by_commitment.rs
@@ -199,7 +199,7 @@ impl AccountDataByCommitment {
                 }
                 Commitment::Confirmed => match self.confirmed_account.take() {
                     Some(prev_account_data) => {
-                        if prev_account_data.updated_slot < account_data.updated_slot {
+                        if Self::is_older(&prev_account_data, account_data) {
                             self.confirmed_account = Some(account_data.clone());
                             Some((account_data.clone(), Some(prev_account_data)))
                         } else {
@@ -216,7 +216,7 @@ impl AccountDataByCommitment {
                     // update confirmed if needed
                     match &self.confirmed_account {
                         Some(confirmed_account) => {
-                            if confirmed_account.updated_slot < account_data.updated_slot {
+                            if Self::is_older(confirmed_account, account_data) {
                                 self.confirmed_account = Some(account_data.clone());
                             }
                         }
@@ -227,7 +227,7 @@ impl AccountDataByCommitment {
 
                     let result = match self.finalized_account.take() {
                         Some(prev_account_data) => {
-                            if prev_account_data.updated_slot < account_data.updated_slot {
+                            if Self::is_older(&prev_account_data, account_data) {
                                 self.finalized_account = Some(account_data.clone());
                                 Some((account_data.clone(), Some(prev_account_data)))
                             } else {
@@ -275,6 +275,11 @@ impl AccountDataByCommitment {
         }
     }
 
+    // newer slot wins, for the same slot the higher write version wins
+    fn is_older(current: &AccountData, new: &AccountData) -> bool {
+        (current.updated_slot, current.write_version) < (new.updated_slot, new.write_version)
+    }
+
     pub fn delete(&mut self) {
         self.processed_accounts.clear();
         self.confirmed_account = None;
-- 
2.43.0


From 5d7a88840b9cfc99699c63e1c571d5468132237a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 07/40] fix: an account update adopts the commitment of its
 slot, also for new accounts and concurrent slot notifications

---
 account_storage/src/inmemory_account_store.rs | 31 +++++--------------
 1 file changed, 7 insertions(+), 24 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index d0b1e30..75c8bca 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -138,25 +138,6 @@ impl InmemoryAccountStore {
         }
     }
 
-    fn maybe_update_slot_status(
-        &self,
-        account_data: &AccountData,
-        commitment: Commitment,
-    ) -> Commitment {
-        let account_index = match self
-            .pubkey_to_account_index
-            .get(&account_data.pubkey)
-            .map(|x| *x)
-        {
-            Some(x) => x,
-            None => {
-                return commitment;
-            }
-        };
-        let slot = account_data.updated_slot;
-        self.add_account_index_to_slot_status(slot, account_index, commitment)
-    }
-
     pub fn satisfies_filters(&self, account: &AccountData) -> bool {
         self.filtered_accounts.satisfies(account)
     }
@@ -216,14 +197,15 @@ impl AccountStorageInterface for InmemoryAccountStore {
         }
         let updated_slot = account_data.updated_slot;
 
-        // check if the blockhash and slot is already confirmed
-        let commitment = self.maybe_update_slot_status(&account_data, commitment);
-
         let updated = match self.pubkey_to_account_index.entry(account_data.pubkey) {
             dashmap::mapref::entry::Entry::Occupied(occ) => {
                 let index = *occ.get();
                 let read_lk = self.accounts_store.read().unwrap();
                 let mut acc_by_commitment = read_lk[index].write().unwrap();
+                // check if the blockhash and slot is already confirmed, done with the account locked so that
+                // a slot notification cannot come in between
+                let commitment =
+                    self.add_account_index_to_slot_status(updated_slot, index, commitment);
                 let prev_account = acc_by_commitment.get_account_data(commitment);
                 // if account has been updated
                 if acc_by_commitment.update(account_data.clone(), commitment) {
@@ -247,14 +229,15 @@ impl AccountStorageInterface for InmemoryAccountStore {
                 if self.satisfies_filters(&account_data) {
                     ACCOUNT_STORED_IN_MEMORY.inc();
                     let mut lk = self.accounts_store.write().unwrap();
+                    let index = lk.len();
+                    let commitment =
+                        self.add_account_index_to_slot_status(updated_slot, index, commitment);
                     lk.push(RwLock::new(AccountDataByCommitment::new(
                         account_data.clone(),
                         commitment,
                     )));
-                    let index = lk.len() - 1;
                     drop(lk);
                     self.add_account_owner(index, account_data.account.owner);
-                    self.add_account_index_to_slot_status(updated_slot, index, commitment);
                     vac.insert(index);
                     true
                 } else {
-- 
2.43.0


From 3575a15d3218473652b9f1cd50ddf8fc6312e85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:29 +0000
Subject: [PATCH 08/40] fix: the commitment of an account update does not stand
 for the commitment of its slot

---
 account_storage/src/inmemory_account_store.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 75c8bca..7ac9e49 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -120,7 +120,8 @@ impl InmemoryAccountStore {
                 lk.insert(
                     slot,
                     SlotStatus {
-                        commitment,
+                        // only a slot notification changes the commitment of the slot
+                        commitment: Commitment::Processed,
                         accounts_updated: BTreeSet::new(),
                         parent: None,
                     },
@@ -132,7 +133,7 @@ impl InmemoryAccountStore {
             Commitment::Processed | Commitment::Confirmed => {
                 // insert account into slot status
                 slot_status.accounts_updated.insert(account_index);
-                slot_status.commitment
+                slot_status.commitment.max(commitment)
             }
             Commitment::Finalized => commitment,
         }
-- 
2.43.0


From ab5b0a94c728141d426eb54a089caae3765eac5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:53 +0000
Subject: [PATCH 09/40] fix: slot notifications never lower a slot's commitment
 and always record its parent

---
 account_storage/src/inmemory_account_store.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 7ac9e49..157f5da 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -342,14 +342,14 @@ impl AccountStorageInterface for InmemoryAccountStore {
                 current_slot = None;
                 match lk.get_mut(&slot) {
                     Some(status) => {
-                        if status.commitment == commitment {
+                        if parent.is_some() {
+                            status.parent = parent;
+                        }
+                        if status.commitment >= commitment {
                             // slot already processed for the commitment
                             break;
                         }
                         status.commitment = commitment;
-                        if parent.is_some() {
-                            status.parent = parent;
-                        }
                         for account in &status.accounts_updated {
                             match writable_accounts.entry(*account) {
                                 std::collections::hash_map::Entry::Occupied(_) => {
-- 
2.43.0


From 4fa9326040a0dbd1cb9083d62c3eb733dbbde7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 10/40] fix: promotion of a slot without known accounts still
 promotes its ancestors

---
 account_storage/src/inmemory_account_store.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 157f5da..8773cea 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -386,11 +386,16 @@ impl AccountStorageInterface for InmemoryAccountStore {
                             let status = SlotStatus {
                                 commitment,
                                 accounts_updated: BTreeSet::new(),
-                                parent: Some(slot_info.parent),
+                                parent,
                             };
                             lk.insert(slot, status);
                         }
-                        break;
+                        if commitment == Commitment::Confirmed
+                            || commitment == Commitment::Finalized
+                        {
+                            // the slot itself is unknown but its ancestors may still have to be updated
+                            current_slot = parent.map(|parent_slot| (parent_slot, None));
+                        }
                     }
                 }
             }
-- 
2.43.0


From abc42d73c75abda8c62e9666bdb2d48f02f923a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:53 +0000
Subject: [PATCH 11/40] fix: finalizing an owner change or a deletion keeps the
 newer states of the account

---
 .../src/account_data_by_commitment.rs         | 10 ++++++
 account_storage/src/inmemory_account_store.rs | 32 +++++++++++++------
 2 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/account_storage/src/account_data_by_commitment.rs b/account_storage/src/account_data_by_commitment.rs
index 9ea51e6..da726d2 100644
--- a/account_storage/src/account_data_by_commitment.rs
+++ b/account_storage/src/account_data_by_commitment.rs
@@ -280,6 +280,16 @@ impl AccountDataByCommitment {
         (current.updated_slot, current.write_version) < (new.updated_slot, new.write_version)
     }
 
+    // checks the current states and the processed states starting from the slot
+    pub fn has_state_since(&self, slot: Slot, condition: impl Fn(&AccountData) -> bool) -> bool {
+        self.processed_accounts
+            .range(slot..)
+            .map(|(_, account_data)| account_data)
+            .chain(&self.confirmed_account)
+            .chain(&self.finalized_account)
+            .any(condition)
+    }
+
     pub fn delete(&mut self) {
         self.processed_accounts.clear();
         self.confirmed_account = None;
diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 8773cea..69a81af 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -77,24 +77,34 @@ impl InmemoryAccountStore {
         new_account_data: &AccountData,
         account_index: AccountIndex,
         commitment: Commitment,
+        account: &AccountDataByCommitment,
     ) -> bool {
         assert_eq!(prev_account_data.pubkey, new_account_data.pubkey);
         if prev_account_data.account.owner != new_account_data.account.owner {
             if commitment == Commitment::Finalized {
-                match self
-                    .accounts_by_owner
-                    .entry(prev_account_data.account.owner)
-                {
-                    dashmap::mapref::entry::Entry::Occupied(mut occ) => {
-                        occ.get_mut().write().unwrap().remove(&account_index);
-                    }
-                    dashmap::mapref::entry::Entry::Vacant(_) => {
-                        // do nothing
+                let slot = new_account_data.updated_slot;
+                // a newer state can still belong to the previous owner
+                if !account.has_state_since(slot, |x| {
+                    x.account.owner == prev_account_data.account.owner
+                }) {
+                    match self
+                        .accounts_by_owner
+                        .entry(prev_account_data.account.owner)
+                    {
+                        dashmap::mapref::entry::Entry::Occupied(mut occ) => {
+                            occ.get_mut().write().unwrap().remove(&account_index);
+                        }
+                        dashmap::mapref::entry::Entry::Vacant(_) => {
+                            // do nothing
+                        }
                     }
                 }
 
                 // account is deleted or if new does not satisfies the filter criterias
-                if Self::is_deleted(new_account_data) || !self.satisfies_filters(new_account_data) {
+                // and there is no newer state for which the account has to be kept
+                if !account.has_state_since(slot, |x| {
+                    !Self::is_deleted(x) && self.satisfies_filters(x)
+                }) {
                     return true;
                 }
             }
@@ -216,6 +226,7 @@ impl AccountStorageInterface for InmemoryAccountStore {
                             &account_data,
                             index,
                             commitment,
+                            &acc_by_commitment,
                         ) {
                             acc_by_commitment.delete();
                             occ.remove_entry();
@@ -432,6 +443,7 @@ impl AccountStorageInterface for InmemoryAccountStore {
                             &account_data,
                             writable_account_index,
                             commitment,
+                            &writable_lk,
                         )
                     {
                         self.pubkey_to_account_index.remove(&account_data.pubkey);
-- 
2.43.0


From 0b9b0ea72f7ec9fb0ba57df4da30a0b6889a8adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 12/40] fix: the first confirmed or finalized state of an
 account is found by its owner

---
 account_storage/src/inmemory_account_store.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 69a81af..4c85d7f 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -231,6 +231,11 @@ impl AccountStorageInterface for InmemoryAccountStore {
                             acc_by_commitment.delete();
                             occ.remove_entry();
                         }
+                    } else if !Self::is_deleted(&account_data)
+                        && self.satisfies_filters(&account_data)
+                    {
+                        // first state for the commitment, its owner may not be known yet
+                        self.add_account_owner(index, account_data.account.owner);
                     }
                     true
                 } else {
-- 
2.43.0


From f15fb83fa4e62d76468fe86bb1cf78e141ba76a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 13/40] fix: deadlock between finalization of a deleted account
 and an update of the same account

---
 account_storage/src/inmemory_account_store.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 4c85d7f..55dedb7 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -433,6 +433,7 @@ impl AccountStorageInterface for InmemoryAccountStore {
 
         let mut updated_accounts = vec![];
 
+        let mut deleted_accounts = vec![];
         let lk = self.accounts_store.read().unwrap();
         for (writable_account_index, update_slot) in writable_accounts {
             let mut writable_lk = lk[writable_account_index].write().unwrap();
@@ -451,14 +452,29 @@ impl AccountStorageInterface for InmemoryAccountStore {
                             &writable_lk,
                         )
                     {
-                        self.pubkey_to_account_index.remove(&account_data.pubkey);
                         writable_lk.delete();
+                        deleted_accounts.push((account_data.pubkey, writable_account_index));
                     }
                 }
                 // account has been confirmed first time
                 updated_accounts.push(account_data);
             }
         }
+        drop(lk);
+
+        // update_account locks the index before the accounts, so locking the index with an account locked can deadlock
+        for (pubkey, deleted_index) in deleted_accounts {
+            self.pubkey_to_account_index
+                .remove_if(&pubkey, |_, account_index| {
+                    // account could have been updated again in the meantime
+                    *account_index == deleted_index
+                        && self.accounts_store.read().unwrap()[deleted_index]
+                            .read()
+                            .unwrap()
+                            .get_account_data(Commitment::Processed)
+                            .is_none()
+                });
+        }
         updated_accounts
     }
 
-- 
2.43.0


From a0a8cb3f0c7ff49a85034ccf103797ca5a91cff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:52 +0000
Subject: [PATCH 14/40] fix: account updates reach both the storage of the
 previous owner and the storage of the current owner

---
 account_storage/src/storage_by_program_id.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/account_storage/src/storage_by_program_id.rs b/account_storage/src/storage_by_program_id.rs
index 3437ade..721770b 100644
--- a/account_storage/src/storage_by_program_id.rs
+++ b/account_storage/src/storage_by_program_id.rs
@@ -27,12 +27,19 @@ impl StorageByProgramId {
 
 impl AccountStorageInterface for StorageByProgramId {
     fn update_account(&self, account_data: AccountData, commitment: Commitment) -> bool {
+        // the storage of the previous owner has to be updated as well as the storage of the current one
+        let mut updated = false;
         for (_, interface) in self.program_id_dispatch_map.iter() {
-            if interface.update_account(account_data.clone(), commitment) {
-                return true;
-            }
+            updated |= interface.update_account(account_data.clone(), commitment);
+        }
+        if updated
+            && self
+                .program_id_dispatch_map
+                .contains_key(&account_data.account.owner)
+        {
+            return true;
         }
-        self.default.update_account(account_data, commitment)
+        self.default.update_account(account_data, commitment) || updated
     }
 
     fn initilize_or_update_account(&self, account_data: AccountData) {
-- 
2.43.0


From 201c0fcbbbb90be6fce31af0b0bcc6a7543808a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:55 +0000
Subject: [PATCH 15/40] fix: get_account looks in every storage until the
 account is found

---
 account_storage/src/storage_by_program_id.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/account_storage/src/storage_by_program_id.rs b/account_storage/src/storage_by_program_id.rs
index 721770b..99e2c2d 100644
--- a/account_storage/src/storage_by_program_id.rs
+++ b/account_storage/src/storage_by_program_id.rs
@@ -58,8 +58,8 @@ impl AccountStorageInterface for StorageByProgramId {
         commitment: Commitment,
     ) -> Result<Option<AccountData>, AccountLoadingError> {
         for (_, interface) in self.program_id_dispatch_map.iter() {
-            if let Ok(accounts) = interface.get_account(account_pk, commitment) {
-                return Ok(accounts);
+            if let Ok(Some(account)) = interface.get_account(account_pk, commitment) {
+                return Ok(Some(account));
             }
         }
         self.default.get_account(account_pk, commitment)
-- 
2.43.0


From 29335c22b989283f6af8fb53034e19308693f8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:14 +0000
Subject: [PATCH 16/40] fix: waiting for an account load reports a timeout and
 ignores spurious wake ups

---
 accounts_on_demand/src/accounts_on_demand.rs | 50 ++++++++++++++------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/accounts_on_demand/src/accounts_on_demand.rs b/accounts_on_demand/src/accounts_on_demand.rs
index e288591..ba4a46c 100644
--- a/accounts_on_demand/src/accounts_on_demand.rs
+++ b/accounts_on_demand/src/accounts_on_demand.rs
@@ -76,9 +76,21 @@ impl AccountStorageInterface for AccountsOnDemand {
                 let mut lk = self.accounts_in_loading.lock().unwrap();
                 match lk.get(&account_pk).cloned() {
                     Some(loading_account) => {
-                        match loading_account.wait_timeout(lk, Duration::from_secs(10)) {
-                            Ok(_) => self.accounts_storage.get_account(account_pk, commitment),
-                            Err(_timeout) => Err(AccountLoadingError::OperationTimeOut),
+                        // wait till the loading that we are waiting for is over
+                        match loading_account.wait_timeout_while(
+                            lk,
+                            Duration::from_secs(10),
+                            |loading| {
+                                loading
+                                    .get(&account_pk)
+                                    .is_some_and(|x| Arc::ptr_eq(x, &loading_account))
+                            },
+                        ) {
+                            Ok((lk, wait_result)) if !wait_result.timed_out() => {
+                                drop(lk);
+                                self.accounts_storage.get_account(account_pk, commitment)
+                            }
+                            _ => Err(AccountLoadingError::OperationTimeOut),
                         }
                     }
                     None => {
@@ -142,19 +154,29 @@ impl AccountStorageInterface for AccountsOnDemand {
                 .get_program_accounts(program_id, filters.clone(), commitment)
         } else {
             // subsribing to new gpa accounts
+            let loading_key = (program_id, filters.clone().unwrap_or_default());
             let mut lk = self.gpa_in_loading.lock().unwrap();
-            match lk
-                .get(&(program_id, filters.clone().unwrap_or_default()))
-                .cloned()
-            {
+            match lk.get(&loading_key).cloned() {
                 Some(loading_account) => {
-                    match loading_account.wait_timeout(lk, Duration::from_secs(10)) {
-                        Ok(_) => self.accounts_storage.get_program_accounts(
-                            program_id,
-                            filters.clone(),
-                            commitment,
-                        ),
-                        Err(_timeout) => {
+                    // wait till the loading that we are waiting for is over
+                    match loading_account.wait_timeout_while(
+                        lk,
+                        Duration::from_secs(10),
+                        |loading| {
+                            loading
+                                .get(&loading_key)
+                                .is_some_and(|x| Arc::ptr_eq(x, &loading_account))
+                        },
+                    ) {
+                        Ok((lk, wait_result)) if !wait_result.timed_out() => {
+                            drop(lk);
+                            self.accounts_storage.get_program_accounts(
+                                program_id,
+                                filters.clone(),
+                                commitment,
+                            )
+                        }
+                        _ => {
                             // todo replace with error
                             log::error!("gPA on program : {}", program_id.to_string());
                             Err(AccountLoadingError::OperationTimeOut)
-- 
2.43.0


From 262d1ebb6a9e247876b04935d466f070d35470b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 17/40] fix: a failed account load wakes up the waiters and can
 be loaded again

---
 accounts_on_demand/src/accounts_on_demand.rs | 42 ++++++++++++--------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/accounts_on_demand/src/accounts_on_demand.rs b/accounts_on_demand/src/accounts_on_demand.rs
index ba4a46c..7b54a8a 100644
--- a/accounts_on_demand/src/accounts_on_demand.rs
+++ b/accounts_on_demand/src/accounts_on_demand.rs
@@ -105,9 +105,11 @@ impl AccountStorageInterface for AccountsOnDemand {
                             log::debug!("subscribing to accounts update : {}", account_pk);
                             let mut hash_set = HashSet::new();
                             hash_set.insert(account_pk);
-                            self.accounts_source
-                                .subscribe_accounts(hash_set)
-                                .map_err(|_| AccountLoadingError::ErrorSubscribingAccount)?;
+                            if self.accounts_source.subscribe_accounts(hash_set).is_err() {
+                                // no one can be waiting yet, the lock was never released
+                                lk.remove(&account_pk);
+                                return Err(AccountLoadingError::ErrorSubscribingAccount);
+                            }
                             drop(lk);
 
                             // save snapshot
@@ -116,10 +118,11 @@ impl AccountStorageInterface for AccountsOnDemand {
                                 program_id: None,
                                 filters: None,
                             }];
-                            self.accounts_source
+                            let snapshot_result = self
+                                .accounts_source
                                 .save_snapshot(self.accounts_storage.clone(), account_filter)
-                                .map_err(|_| AccountLoadingError::ErrorCreatingSnapshot)?;
-                            // update loading lock
+                                .map_err(|_| AccountLoadingError::ErrorCreatingSnapshot);
+                            // update loading lock, also if the loading has failed
                             {
                                 let mut write_lock = self.accounts_in_loading.lock().unwrap();
                                 let notify = write_lock.remove(&account_pk);
@@ -128,6 +131,7 @@ impl AccountStorageInterface for AccountsOnDemand {
                                     notify.notify_all();
                                 }
                             }
+                            snapshot_result?;
                             self.accounts_storage.get_account(account_pk, commitment)
                         }
                     }
@@ -186,30 +190,34 @@ impl AccountStorageInterface for AccountsOnDemand {
                 None => {
                     // update account loading map
                     // create a notify for accounts under loading
-                    lk.insert(
-                        (program_id, filters.clone().unwrap_or_default()),
-                        Arc::new(Condvar::new()),
-                    );
-                    self.accounts_source
+                    lk.insert(loading_key.clone(), Arc::new(Condvar::new()));
+                    if self
+                        .accounts_source
                         .subscribe_program_accounts(program_id, filters.clone())
-                        .map_err(|_| AccountLoadingError::ErrorSubscribingAccount)?;
+                        .is_err()
+                    {
+                        // no one can be waiting yet, the lock was never released
+                        lk.remove(&loading_key);
+                        return Err(AccountLoadingError::ErrorSubscribingAccount);
+                    }
                     drop(lk);
                     self.mutable_filters
                         .add_account_filters(&vec![account_filter.clone()]);
 
-                    self.accounts_source
+                    let snapshot_result = self
+                        .accounts_source
                         .save_snapshot(self.accounts_storage.clone(), vec![account_filter])
-                        .map_err(|_| AccountLoadingError::ErrorCreatingSnapshot)?;
-                    // update loading lock
+                        .map_err(|_| AccountLoadingError::ErrorCreatingSnapshot);
+                    // update loading lock, also if the loading has failed
                     {
                         let mut write_lock = self.gpa_in_loading.lock().unwrap();
-                        let notify =
-                            write_lock.remove(&(program_id, filters.clone().unwrap_or_default()));
+                        let notify = write_lock.remove(&loading_key);
                         drop(write_lock);
                         if let Some(notify) = notify {
                             notify.notify_all();
                         }
                     }
+                    snapshot_result?;
                     self.accounts_storage
                         .get_program_accounts(program_id, filters, commitment)
                 }
-- 
2.43.0


From 62545708c4d7cef7596d1a08c2c9b5767c2d6e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 18/40] fix: accounts loaded on demand are registered in the
 filters

---
 accounts_on_demand/src/accounts_on_demand.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/accounts_on_demand/src/accounts_on_demand.rs b/accounts_on_demand/src/accounts_on_demand.rs
index 7b54a8a..5e10705 100644
--- a/accounts_on_demand/src/accounts_on_demand.rs
+++ b/accounts_on_demand/src/accounts_on_demand.rs
@@ -96,8 +96,10 @@ impl AccountStorageInterface for AccountsOnDemand {
                     None => {
                         // account is not loading
                         if self.mutable_filters.contains_account(account_pk) {
-                            // account was already tried to be loaded but does not exists
-                            Ok(None)
+                            // account was already tried to be loaded but does not exists,
+                            // or another thread has loaded it in the meantime
+                            drop(lk);
+                            self.accounts_storage.get_account(account_pk, commitment)
                         } else {
                             // update account loading map
                             // create a notify for accounts under loading
@@ -118,6 +120,8 @@ impl AccountStorageInterface for AccountsOnDemand {
                                 program_id: None,
                                 filters: None,
                             }];
+                            // storage keeps only the accounts known to the filters
+                            self.mutable_filters.add_account_filters(&account_filter);
                             let snapshot_result = self
                                 .accounts_source
                                 .save_snapshot(self.accounts_storage.clone(), account_filter)
-- 
2.43.0


From 070b8e0abf274d3ea6c758a4a48a25764e5dc4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:47 +0000
Subject: [PATCH 19/40] fix: program account queries wait for a load of the
 same query that is still in progress

---
 accounts_on_demand/src/accounts_on_demand.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/accounts_on_demand/src/accounts_on_demand.rs b/accounts_on_demand/src/accounts_on_demand.rs
index 5e10705..31d8ba6 100644
--- a/accounts_on_demand/src/accounts_on_demand.rs
+++ b/accounts_on_demand/src/accounts_on_demand.rs
@@ -157,13 +157,15 @@ impl AccountStorageInterface for AccountsOnDemand {
         };
         // accounts on demand will fetch gPA if they do not exist
         // it will first compare with existing filters and do the necessary if needed
-        if self.mutable_filters.contains_filter(&account_filter) {
+        let loading_key = (program_id, filters.clone().unwrap_or_default());
+        let mut lk = self.gpa_in_loading.lock().unwrap();
+        // the filters are known as soon as the loading starts, the accounts only when it is over
+        if !lk.contains_key(&loading_key) && self.mutable_filters.contains_filter(&account_filter) {
+            drop(lk);
             self.accounts_storage
                 .get_program_accounts(program_id, filters.clone(), commitment)
         } else {
             // subsribing to new gpa accounts
-            let loading_key = (program_id, filters.clone().unwrap_or_default());
-            let mut lk = self.gpa_in_loading.lock().unwrap();
             match lk.get(&loading_key).cloned() {
                 Some(loading_account) => {
                     // wait till the loading that we are waiting for is over
-- 
2.43.0


From 2c95de44a8bbbfba35d7a49c42daf4c84ff2de7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:08 +0000
Subject: [PATCH 20/40] fix: an account or a program whose snapshot has failed
 is loaded again by the next request

---
 accounts_on_demand/src/accounts_on_demand.rs | 28 +++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/accounts_on_demand/src/accounts_on_demand.rs b/accounts_on_demand/src/accounts_on_demand.rs
index 31d8ba6..4d5c011 100644
--- a/accounts_on_demand/src/accounts_on_demand.rs
+++ b/accounts_on_demand/src/accounts_on_demand.rs
@@ -12,7 +12,7 @@ use prometheus::{opts, register_int_gauge, IntGauge};
 use solana_sdk::pubkey::Pubkey;
 use std::sync::Condvar;
 use std::{
-    collections::{BTreeMap, HashMap, HashSet},
+    collections::{BTreeMap, BTreeSet, HashMap, HashSet},
     sync::{Arc, Mutex},
     time::Duration,
 };
@@ -33,6 +33,9 @@ pub struct AccountsOnDemand {
     accounts_storage: Arc<dyn AccountStorageInterface>,
     accounts_in_loading: Arc<Mutex<HashMap<Pubkey, Arc<Condvar>>>>,
     gpa_in_loading: Arc<Mutex<BTreeMap<GpaAccountKey, Arc<Condvar>>>>,
+    // already known to the filters but loading has failed
+    accounts_to_reload: Mutex<HashSet<Pubkey>>,
+    gpa_to_reload: Mutex<BTreeSet<GpaAccountKey>>,
 }
 
 impl AccountsOnDemand {
@@ -47,6 +50,8 @@ impl AccountsOnDemand {
             accounts_storage: accounts_storage.clone(),
             accounts_in_loading: Arc::new(Mutex::new(HashMap::new())),
             gpa_in_loading: Arc::new(Mutex::new(BTreeMap::new())),
+            accounts_to_reload: Mutex::new(HashSet::new()),
+            gpa_to_reload: Mutex::new(BTreeSet::new()),
         }
     }
 }
@@ -95,7 +100,8 @@ impl AccountStorageInterface for AccountsOnDemand {
                     }
                     None => {
                         // account is not loading
-                        if self.mutable_filters.contains_account(account_pk) {
+                        let reload = self.accounts_to_reload.lock().unwrap().contains(&account_pk);
+                        if !reload && self.mutable_filters.contains_account(account_pk) {
                             // account was already tried to be loaded but does not exists,
                             // or another thread has loaded it in the meantime
                             drop(lk);
@@ -126,6 +132,11 @@ impl AccountStorageInterface for AccountsOnDemand {
                                 .accounts_source
                                 .save_snapshot(self.accounts_storage.clone(), account_filter)
                                 .map_err(|_| AccountLoadingError::ErrorCreatingSnapshot);
+                            if snapshot_result.is_err() {
+                                self.accounts_to_reload.lock().unwrap().insert(account_pk);
+                            } else {
+                                self.accounts_to_reload.lock().unwrap().remove(&account_pk);
+                            }
                             // update loading lock, also if the loading has failed
                             {
                                 let mut write_lock = self.accounts_in_loading.lock().unwrap();
@@ -160,7 +171,10 @@ impl AccountStorageInterface for AccountsOnDemand {
         let loading_key = (program_id, filters.clone().unwrap_or_default());
         let mut lk = self.gpa_in_loading.lock().unwrap();
         // the filters are known as soon as the loading starts, the accounts only when it is over
-        if !lk.contains_key(&loading_key) && self.mutable_filters.contains_filter(&account_filter) {
+        if !lk.contains_key(&loading_key)
+            && !self.gpa_to_reload.lock().unwrap().contains(&loading_key)
+            && self.mutable_filters.contains_filter(&account_filter)
+        {
             drop(lk);
             self.accounts_storage
                 .get_program_accounts(program_id, filters.clone(), commitment)
@@ -214,6 +228,14 @@ impl AccountStorageInterface for AccountsOnDemand {
                         .accounts_source
                         .save_snapshot(self.accounts_storage.clone(), vec![account_filter])
                         .map_err(|_| AccountLoadingError::ErrorCreatingSnapshot);
+                    if snapshot_result.is_err() {
+                        self.gpa_to_reload
+                            .lock()
+                            .unwrap()
+                            .insert(loading_key.clone());
+                    } else {
+                        self.gpa_to_reload.lock().unwrap().remove(&loading_key);
+                    }
                     // update loading lock, also if the loading has failed
                     {
                         let mut write_lock = self.gpa_in_loading.lock().unwrap();
-- 
2.43.0


From d300a2ec6de733a98e8cd1f9aedfb5503b7c4244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:07 +0000
Subject: [PATCH 21/40] fix: the parent of a token slot without accounts is
 recorded

---
 token_account_storage/src/inmemory_token_storage.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 7db27a7..14a7182 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -140,7 +140,7 @@ impl ProcessedAccountStore {
                     slot_info.slot,
                     ProcessedAccountBySlot {
                         processed_accounts: HashMap::new(),
-                        slot_parent: None,
+                        slot_parent: Some(slot_info.parent),
                     },
                 );
             }
@@ -246,7 +246,10 @@ impl ProcessedAccountStore {
                     if return_list.iter().all(|x| x.is_some()) {
                         break;
                     }
-                    process_slot = processed_accounts.slot_parent;
+                    // a parent is always older, stops at genesis
+                    process_slot = processed_accounts
+                        .slot_parent
+                        .filter(|parent| *parent < current_slot);
                 }
                 None => {
                     break;
-- 
2.43.0


From eb2e0816d90aa17b71ec27cfaf2a2607a7d048b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 22/40] fix: concurrent or late token slot notifications
 neither move the slot back nor lose the parent

---
 .../src/inmemory_token_storage.rs                  | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 14a7182..5dd0ff0 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -704,19 +704,17 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             }
             Commitment::Confirmed => {
                 log::debug!("confirm slot data  : {slot_info:?}");
-                if self.confirmed_slot.load(Ordering::Relaxed) < slot_info.slot {
-                    self.confirmed_slot.store(slot_info.slot, Ordering::Relaxed);
-                    self.processed_storage.update_slot_info(slot_info);
-                }
+                self.processed_storage.update_slot_info(slot_info);
+                self.confirmed_slot
+                    .fetch_max(slot_info.slot, Ordering::Relaxed);
                 self.processed_storage
                     .get_processed_for_slot(slot_info, &self.mints_by_index)
             }
             Commitment::Finalized => {
                 log::debug!("finalize slot data  : {slot_info:?}");
-                if self.finalized_slot.load(Ordering::Relaxed) < slot_info.slot {
-                    self.processed_storage.update_slot_info(slot_info);
-                    self.finalized_slot.store(slot_info.slot, Ordering::Relaxed);
-                }
+                self.processed_storage.update_slot_info(slot_info);
+                self.finalized_slot
+                    .fetch_max(slot_info.slot, Ordering::Relaxed);
 
                 // move data from processed storage to main storage
                 let finalized_accounts = self.processed_storage.finalize(slot_info.slot);
-- 
2.43.0


From 0af0e2a6d0b9ee36c4de65f55b1f8044209d0266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 23/40] fix: closed multisig accounts are removed

---
 token_account_storage/src/inmemory_token_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 5dd0ff0..b593cee 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -392,7 +392,7 @@ impl TokenProgramAccountsStorage {
                     TOKEN_MINTS_IN_MEMORY.dec();
                     self.mints_by_index.remove(&index);
                     self.accounts_index_by_mint.remove(&index);
-                } else if self.mints_index_by_pubkey.remove(&account_pk).is_some() {
+                } else if self.multisigs.remove(&account_pk).is_some() {
                     // do nothing multisig account is removed
                 } else {
                     self.token_accounts_storage.delete(&account_pk);
-- 
2.43.0


From 4aff270a35e5ad0eec2b5053f75d2c24996006ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:20 +0000
Subject: [PATCH 24/40] fix: deleting a token account keeps the other accounts
 with the same partial pubkey

---
 .../src/inmemory_token_account_storage.rs            | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_account_storage.rs b/token_account_storage/src/inmemory_token_account_storage.rs
index 16924b0..2737277 100644
--- a/token_account_storage/src/inmemory_token_account_storage.rs
+++ b/token_account_storage/src/inmemory_token_account_storage.rs
@@ -127,8 +127,10 @@ impl TokenAccountStorageInterface for InmemoryTokenAccountStorage {
     }
 
     fn delete(&self, pubkey: &Pubkey) {
-        let acc_to_remove = self.pubkey_to_index.remove(&pubkey.into());
-        if let Some((_, indexes)) = acc_to_remove {
+        // other accounts can share the same partial pubkey
+        if let dashmap::mapref::entry::Entry::Occupied(mut occ) =
+            self.pubkey_to_index.entry(pubkey.into())
+        {
             let mut write_lk = self.token_accounts.write().unwrap();
             let deleted_account = TokenAccount {
                 program: Program::TokenProgram,
@@ -144,11 +146,15 @@ impl TokenAccountStorageInterface for InmemoryTokenAccountStorage {
                 additional_data: None,
             }
             .to_bytes();
-            for index in indexes {
+            for index in occ.get().clone() {
                 let binary = write_lk.get_mut(index as usize).unwrap();
                 if TokenAccount::get_pubkey_from_binary(binary) == *pubkey {
                     TOKEN_ACCOUNT_DELETED_IN_MEMORY.inc();
                     *binary = deleted_account;
+                    occ.get_mut().retain(|x| *x != index);
+                    if occ.get().is_empty() {
+                        occ.remove();
+                    }
                     return;
                 }
             }
-- 
2.43.0


From e19ffdd398aa91e2250ea0ff8f0a3d8598ff9625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 25/40] fix: a token account is not confused with an account of
 the same partial pubkey

---
 .../src/inmemory_token_account_storage.rs      | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_account_storage.rs b/token_account_storage/src/inmemory_token_account_storage.rs
index 2737277..a66e703 100644
--- a/token_account_storage/src/inmemory_token_account_storage.rs
+++ b/token_account_storage/src/inmemory_token_account_storage.rs
@@ -39,19 +39,15 @@ impl TokenAccountStorageInterface for InmemoryTokenAccountStorage {
         match self.pubkey_to_index.entry(pubkey.into()) {
             dashmap::mapref::entry::Entry::Occupied(occ) => {
                 let value = occ.get();
-                if value.len() > 1 {
-                    let lk = self.token_accounts.read().unwrap();
-                    for index in value {
-                        if TokenAccount::get_pubkey_from_binary(lk.get(*index as usize).unwrap())
-                            == *pubkey
-                        {
-                            return Some(*index);
-                        }
+                let lk = self.token_accounts.read().unwrap();
+                for index in value {
+                    if TokenAccount::get_pubkey_from_binary(lk.get(*index as usize).unwrap())
+                        == *pubkey
+                    {
+                        return Some(*index);
                     }
-                    None
-                } else {
-                    Some(value[0])
                 }
+                None
             }
             dashmap::mapref::entry::Entry::Vacant(_) => None,
         }
-- 
2.43.0


From 10295c873abec60387afcc6d8816b0296bd1eb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 26/40] fix: a token account with a new owner or mint is found
 by its new owner and mint

---
 token_account_storage/src/inmemory_token_storage.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index b593cee..fbec364 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -339,9 +339,14 @@ impl TokenProgramAccountsStorage {
             TokenProgramAccountType::TokenAccount(token_account) => {
                 let token_account_owner = token_account.owner;
                 let mint_index = token_account.mint;
+                let previous = self
+                    .token_accounts_storage
+                    .get_by_pubkey(&token_account.pubkey);
                 let (token_index, is_added) =
                     self.token_accounts_storage.save_or_update(token_account);
-                if is_added {
+                if is_added
+                    || !previous.is_some_and(|x| x.owner == token_account_owner && x.mint == mint_index)
+                {
                     // add account to the indexes
                     // add account index in accounts_index_by_mint map
                     match self.accounts_index_by_mint.entry(mint_index) {
@@ -511,6 +516,7 @@ impl TokenProgramAccountsStorage {
                                 .token_accounts_storage
                                 .get_by_index(indexes)?
                                 .iter()
+                                .filter(|acc| acc.mint == *mint_index.value())
                                 .filter_map(|token_account| {
                                     token_account_to_solana_account(
                                         token_account,
-- 
2.43.0


From b069505447ceb6ba8c3f75b987494e6ac7c5270b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:05 +0000
Subject: [PATCH 27/40] fix: token accounts and queries for a mint which is not
 known do not panic

---
 token_account_storage/src/inmemory_token_storage.rs | 12 ++++++++++--
 token_account_storage/src/token_program_utils.rs    |  8 +++++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index fbec364..6fb6150 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -430,7 +430,8 @@ impl TokenProgramAccountsStorage {
         }
 
         if let Some(mint_index) = self.mints_index_by_pubkey.get(&account_pk) {
-            let mint_data = self.mints_by_index.get(&mint_index).unwrap();
+            // a mint which was only seen in a token account has no data yet
+            let mint_data = self.mints_by_index.get(&mint_index)?;
             return Some(token_mint_to_solana_account(
                 &mint_data,
                 self.finalized_slot.load(Ordering::Relaxed),
@@ -473,7 +474,14 @@ impl TokenProgramAccountsStorage {
                     dashmap::mapref::entry::Entry::Vacant(_) => None,
                 };
 
-                let mint = mint.map(|pk| *self.mints_index_by_pubkey.get(&pk).unwrap().value());
+                let mint = match mint {
+                    Some(pk) => match self.mints_index_by_pubkey.get(&pk) {
+                        Some(mint_index) => Some(*mint_index.value()),
+                        // no account for an unknown mint
+                        None => return Ok(vec![]),
+                    },
+                    None => None,
+                };
 
                 match indexes {
                     Some(indexes) => {
diff --git a/token_account_storage/src/token_program_utils.rs b/token_account_storage/src/token_program_utils.rs
index f69370f..c39fe4a 100644
--- a/token_account_storage/src/token_program_utils.rs
+++ b/token_account_storage/src/token_program_utils.rs
@@ -254,7 +254,13 @@ pub fn token_account_to_solana_account(
         return None;
     }
     let (delegate, delegated_amount) = token_account.delegate.unwrap_or_default();
-    let mint = mints_by_index.get(&token_account.mint).unwrap();
+    let Some(mint) = mints_by_index.get(&token_account.mint) else {
+        log::error!(
+            "mint not known for token account : {}",
+            token_account.pubkey
+        );
+        return None;
+    };
     let data = match token_account.program {
         Program::TokenProgram => {
             let t_acc = spl_token::state::Account {
-- 
2.43.0


From 5d51e83d782b63cab77b80c1b86259a1f4c94b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:09 +0000
Subject: [PATCH 28/40] fix: closing a token program account which is not
 finalized yet is not ignored

---
 token_account_storage/src/inmemory_token_storage.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 6fb6150..18785ab 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -123,6 +123,14 @@ impl ProcessedAccountStore {
         }
     }
 
+    pub fn contains_account(&self, account_pk: &Pubkey) -> bool {
+        self.processed_slot_accounts
+            .read()
+            .unwrap()
+            .values()
+            .any(|x| x.processed_accounts.contains_key(account_pk))
+    }
+
     pub fn update_slot_info(&self, slot_info: SlotInfo) {
         log::debug!(
             "update slot info slot : {}, parent: {}, root: {}",
@@ -417,6 +425,9 @@ impl TokenProgramAccountsStorage {
                 .token_accounts_storage
                 .contains(&account_data.pubkey)
                 .is_some()
+            || self
+                .processed_storage
+                .contains_account(&account_data.pubkey)
     }
 
     pub fn get_account_finalized(&self, account_pk: Pubkey) -> Option<AccountData> {
-- 
2.43.0


From 65f436cf9000a2be942e4ed4ff99e844e39d2f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:13 +0000
Subject: [PATCH 29/40] fix: token program account queries apply the program
 and all the filters to the returned state

---
 token_account_storage/src/inmemory_token_storage.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 18785ab..ace4a0a 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -681,6 +681,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         if program_pubkey != spl_token::id() && program_pubkey != spl_token_2022::id() {
             return Err(AccountLoadingError::WrongIndex);
         }
+        let filters = account_filters.clone().unwrap_or_default();
         // get all accounts for finalized commitment and update them if necessary
         let mut account_data =
             self.get_program_accounts_finalized(program_pubkey, account_filters)?;
@@ -717,6 +718,11 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                 account_data.remove(*index);
             }
         }
+        // indexes do not cover the program and all the filters
+        account_data.retain(|x| {
+            let data = x.account.data.data();
+            x.account.owner == program_pubkey && filters.iter().all(|filter| filter.allows(&data))
+        });
         Ok(account_data)
     }
 
-- 
2.43.0


From 102053724b75424d2dbbd99e702045242d30bacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:18 +0000
Subject: [PATCH 30/40] fix: token program account queries include the accounts
 which are not finalized yet

---
 .../src/inmemory_token_storage.rs             | 24 ++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index ace4a0a..d9a036c 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -131,6 +131,15 @@ impl ProcessedAccountStore {
             .any(|x| x.processed_accounts.contains_key(account_pk))
     }
 
+    pub fn get_account_pubkeys(&self) -> HashSet<Pubkey> {
+        self.processed_slot_accounts
+            .read()
+            .unwrap()
+            .values()
+            .flat_map(|x| x.processed_accounts.keys().cloned())
+            .collect()
+    }
+
     pub fn update_slot_info(&self, slot_info: SlotInfo) {
         log::debug!(
             "update slot info slot : {}, parent: {}, root: {}",
@@ -688,7 +697,15 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         let confirmed_slot = self.confirmed_slot.load(Ordering::Relaxed);
         if commitment == Commitment::Processed || commitment == Commitment::Confirmed {
             // get list of all pks to search
-            let pks = account_data.iter().map(|x| x.pubkey).collect_vec();
+            let mut pks = account_data.iter().map(|x| x.pubkey).collect_vec();
+            // and all the accounts which are not yet finalized
+            let finalized_pks = pks.iter().cloned().collect::<HashSet<_>>();
+            pks.extend(
+                self.processed_storage
+                    .get_account_pubkeys()
+                    .difference(&finalized_pks),
+            );
+            let mut new_accounts = vec![];
             let processed_accounts =
                 self.processed_storage
                     .get_accounts(pks, commitment, confirmed_slot);
@@ -702,10 +719,14 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                         &self.mints_by_index,
                     );
                     match updated_account {
+                        Some(updated_account) if index >= account_data.len() => {
+                            new_accounts.push(updated_account);
+                        }
                         Some(updated_account) => {
                             // update with processed or confirmed account state
                             *account_data.get_mut(index).unwrap() = updated_account;
                         }
+                        None if index >= account_data.len() => {}
                         None => {
                             // account must have been deleted
                             to_remove.push(index);
@@ -717,6 +738,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             for index in to_remove.iter().rev() {
                 account_data.remove(*index);
             }
+            account_data.append(&mut new_accounts);
         }
         // indexes do not cover the program and all the filters
         account_data.retain(|x| {
-- 
2.43.0


From 034978718d49d7171eb3b28c5b6220b78e0714d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 31/40] fix: mints of a token snapshot are stored under their
 local index and found by pubkey

---
 token_account_storage/src/inmemory_token_storage.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index d9a036c..2447e8c 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -856,11 +856,13 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             match self.mints_index_by_pubkey.get_mut(&mint_account.pubkey) {
                 Some(value) => {
                     mint_mapping.insert(index, *value);
-                    self.mints_by_index.insert(index, mint_account);
+                    self.mints_by_index.insert(*value, mint_account);
                 }
                 None => {
                     let mint_index = self.mint_counter.fetch_add(1, Ordering::Relaxed);
                     mint_mapping.insert(index, mint_index);
+                    self.mints_index_by_pubkey
+                        .insert(mint_account.pubkey, mint_index);
                     self.mints_by_index.insert(mint_index, mint_account);
                 }
             }
@@ -869,7 +871,13 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         for token_account_bytes in token_accounts {
             // use the new mint index
             let mut token_account = TokenAccount::from_bytes(&token_account_bytes);
-            let new_mint_index = *mint_mapping.get(&token_account.mint).unwrap();
+            let Some(new_mint_index) = mint_mapping.get(&token_account.mint).cloned() else {
+                log::error!(
+                    "snapshot does not contain the mint of token account : {}",
+                    token_account.pubkey
+                );
+                continue;
+            };
             token_account.mint = new_mint_index;
             let owner = token_account.owner;
             let (index, is_added) = self.token_accounts_storage.save_or_update(token_account);
-- 
2.43.0


From 9a04b214f11828ec2673f7486f9bf55f595897c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 32/40] fix: token snapshots are compressed with the size
 needed to decompress them

---
 token_account_storage/src/inmemory_token_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 2447e8c..0182e7b 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -825,7 +825,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         lz4::block::compress(
             &binary,
             Some(lz4::block::CompressionMode::HIGHCOMPRESSION(8)),
-            false,
+            true,
         )
         .map_err(|_| AccountLoadingError::CompressionIssues)
     }
-- 
2.43.0


From 91628e9844093c60aaea614ace6da8580d60fc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:30 +0000
Subject: [PATCH 33/40] fix: a token account loaded from a snapshot with a new
 owner or mint is found by its new owner and mint

---
 token_account_storage/src/inmemory_token_storage.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 0182e7b..cfc2550 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -880,8 +880,11 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             };
             token_account.mint = new_mint_index;
             let owner = token_account.owner;
+            let previous = self
+                .token_accounts_storage
+                .get_by_pubkey(&token_account.pubkey);
             let (index, is_added) = self.token_accounts_storage.save_or_update(token_account);
-            if is_added {
+            if is_added || !previous.is_some_and(|x| x.owner == owner && x.mint == new_mint_index) {
                 match self.account_by_owner_pubkey.get_mut(&owner.into()) {
                     Some(mut accs) => accs.push(index),
                     None => {
-- 
2.43.0


From 266157917d5f9914741e4e44aa32d24eb7abf1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 34/40] fix: an account recreated or newly satisfying the
 filters without an owner change is indexed under its owner

---
 account_storage/src/inmemory_account_store.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 55dedb7..b60d78b 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -58,7 +58,10 @@ impl InmemoryAccountStore {
     fn add_account_owner(&self, account_index: AccountIndex, owner: Pubkey) {
         match self.accounts_by_owner.entry(owner) {
             dashmap::mapref::entry::Entry::Occupied(mut occ) => {
-                occ.get_mut().write().unwrap().insert(account_index);
+                // already known most of the time, do not block the readers
+                if !occ.get().read().unwrap().contains(&account_index) {
+                    occ.get_mut().write().unwrap().insert(account_index);
+                }
             }
             dashmap::mapref::entry::Entry::Vacant(vc) => {
                 let mut set = BTreeSet::new();
@@ -108,10 +111,11 @@ impl InmemoryAccountStore {
                     return true;
                 }
             }
-            if !Self::is_deleted(new_account_data) && self.satisfies_filters(new_account_data) {
-                // update owner if account was not deleted but owner was change and the filter criterias are satisfied
-                self.add_account_owner(account_index, new_account_data.account.owner);
-            }
+        }
+        if !Self::is_deleted(new_account_data) && self.satisfies_filters(new_account_data) {
+            // update owner if account was not deleted and the filter criterias are satisfied
+            // even without a change of the owner, the previous state could have been deleted or not satisfy the filters
+            self.add_account_owner(account_index, new_account_data.account.owner);
         }
         false
     }
-- 
2.43.0


From 886ab88efa323b8a060c639f1143850e3c5b1011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:32 +0000
Subject: [PATCH 35/40] fix: account updates received after their unknown slot
 was finalized are stored as finalized

---
 account_storage/src/inmemory_account_store.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index b60d78b..e9716ac 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -401,8 +401,10 @@ impl AccountStorageInterface for InmemoryAccountStore {
                         }
                         if commitment == Commitment::Confirmed
                             || commitment == Commitment::Processed
+                            || slot == slot_info.slot
                         {
                             // add status for processed slot
+                            // a finalized slot is added too, its account updates can still be received
                             let status = SlotStatus {
                                 commitment,
                                 accounts_updated: BTreeSet::new(),
-- 
2.43.0


From 347a7faa00191385b2539b6f779c5d12b2b2f516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:26 +0000
Subject: [PATCH 36/40] fix: token-2022 accounts with extensions could not be
 read

---
 token_account_storage/src/token_program_utils.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/token_account_storage/src/token_program_utils.rs b/token_account_storage/src/token_program_utils.rs
index c39fe4a..e4251a5 100644
--- a/token_account_storage/src/token_program_utils.rs
+++ b/token_account_storage/src/token_program_utils.rs
@@ -94,8 +94,9 @@ pub fn get_token_program_account_type(
         match type_account {
             0 => {
                 //mint
+                // extensions follow the base state
                 let mint = spl_token_2022::state::Mint::unpack_unchecked(
-                    &account_data.account.data.data(),
+                    &data[..spl_token_2022::state::Mint::LEN],
                 )?;
                 Ok(TokenProgramAccountType::Mint(MintAccount {
                     program: crate::account_types::Program::Token2022Program,
@@ -110,8 +111,9 @@ pub fn get_token_program_account_type(
                 }))
             }
             1 => {
+                // extensions follow the base state
                 let token_account = spl_token_2022::state::Account::unpack_unchecked(
-                    &account_data.account.data.data(),
+                    &data[..spl_token_2022::state::Account::LEN],
                 )?;
                 let mint_index = get_or_create_mint_index(
                     token_account.mint,
-- 
2.43.0


From ad95513b6b9260495a0418076e4284c43c6daffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:55 +0000
Subject: [PATCH 37/40] fix: loading a token snapshot could overwrite index
 entries added concurrently

---
 .../src/inmemory_token_storage.rs             | 40 +++++++------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index cfc2550..7e33ad7 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -853,17 +853,16 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         let mut mint_mapping = HashMap::<MintIndex, MintIndex>::new();
         // remap all the mints
         for (index, mint_account) in mints {
-            match self.mints_index_by_pubkey.get_mut(&mint_account.pubkey) {
-                Some(value) => {
-                    mint_mapping.insert(index, *value);
-                    self.mints_by_index.insert(*value, mint_account);
+            match self.mints_index_by_pubkey.entry(mint_account.pubkey) {
+                dashmap::mapref::entry::Entry::Occupied(occ) => {
+                    mint_mapping.insert(index, *occ.get());
+                    self.mints_by_index.insert(*occ.get(), mint_account);
                 }
-                None => {
+                dashmap::mapref::entry::Entry::Vacant(v) => {
                     let mint_index = self.mint_counter.fetch_add(1, Ordering::Relaxed);
                     mint_mapping.insert(index, mint_index);
-                    self.mints_index_by_pubkey
-                        .insert(mint_account.pubkey, mint_index);
                     self.mints_by_index.insert(mint_index, mint_account);
+                    v.insert(mint_index);
                 }
             }
         }
@@ -885,24 +884,15 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                 .get_by_pubkey(&token_account.pubkey);
             let (index, is_added) = self.token_accounts_storage.save_or_update(token_account);
             if is_added || !previous.is_some_and(|x| x.owner == owner && x.mint == new_mint_index) {
-                match self.account_by_owner_pubkey.get_mut(&owner.into()) {
-                    Some(mut accs) => accs.push(index),
-                    None => {
-                        self.account_by_owner_pubkey
-                            .insert(owner.into(), vec![index]);
-                    }
-                }
-
-                match self.accounts_index_by_mint.get_mut(&new_mint_index) {
-                    Some(mut accs) => {
-                        accs.push_back(index);
-                    }
-                    None => {
-                        let mut q = VecDeque::new();
-                        q.push_back(index);
-                        self.accounts_index_by_mint.insert(new_mint_index, q);
-                    }
-                }
+                self.account_by_owner_pubkey
+                    .entry(owner.into())
+                    .or_default()
+                    .push(index);
+
+                self.accounts_index_by_mint
+                    .entry(new_mint_index)
+                    .or_default()
+                    .push_back(index);
             }
         }
 
-- 
2.43.0


From 84a9d8cd9773499ab03c9db7e36c6cf09a46944f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 38/40] fix: keep the signers of a multisig at their positions

---
 token_account_storage/src/token_program_utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/token_account_storage/src/token_program_utils.rs b/token_account_storage/src/token_program_utils.rs
index e4251a5..5892efb 100644
--- a/token_account_storage/src/token_program_utils.rs
+++ b/token_account_storage/src/token_program_utils.rs
@@ -162,7 +162,7 @@ pub fn get_token_program_account_type(
                         signers: multi_sig
                             .signers
                             .iter()
-                            .filter(|x| **x != Pubkey::default())
+                            .take(multi_sig.n as usize)
                             .copied()
                             .collect_vec(),
                     },
@@ -234,7 +234,7 @@ pub fn get_token_program_account_type(
                     signers: multi_sig
                         .signers
                         .iter()
-                        .filter(|x| **x != Pubkey::default())
+                        .take(multi_sig.n as usize)
                         .copied()
                         .collect_vec(),
                 },
-- 
2.43.0


From f0be0500aa732eb1d1a62575305d015045647ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 39/40] fix: a token program account which changes its kind
 replaces the old one

---
 .../src/inmemory_token_storage.rs             | 33 +++++++++++++------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 7e33ad7..fb193c7 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -352,6 +352,27 @@ impl TokenProgramAccountsStorage {
 
     // treat account for finalized commitment
     pub fn add_account_finalized(&self, account: TokenProgramAccountType) -> bool {
+        let account_pk = match &account {
+            TokenProgramAccountType::TokenAccount(token_account) => token_account.pubkey,
+            TokenProgramAccountType::Mint(mint_data) => mint_data.pubkey,
+            TokenProgramAccountType::MultiSig(_, pubkey) => *pubkey,
+            TokenProgramAccountType::Deleted(pubkey) => *pubkey,
+        };
+        // anything stored for the same pubkey as another kind of account is outdated
+        if !matches!(account, TokenProgramAccountType::Mint(_)) {
+            if let Some((_, index)) = self.mints_index_by_pubkey.remove(&account_pk) {
+                TOKEN_MINTS_IN_MEMORY.dec();
+                self.mints_by_index.remove(&index);
+                self.accounts_index_by_mint.remove(&index);
+            }
+        }
+        if !matches!(account, TokenProgramAccountType::MultiSig(..)) {
+            self.multisigs.remove(&account_pk);
+        }
+        if !matches!(account, TokenProgramAccountType::TokenAccount(_)) {
+            self.token_accounts_storage.delete(&account_pk);
+        }
+
         match account {
             TokenProgramAccountType::TokenAccount(token_account) => {
                 let token_account_owner = token_account.owner;
@@ -409,16 +430,8 @@ impl TokenProgramAccountsStorage {
             TokenProgramAccountType::MultiSig(multisig_data, pubkey) => {
                 self.multisigs.insert(pubkey, multisig_data);
             }
-            TokenProgramAccountType::Deleted(account_pk) => {
-                if let Some((_, index)) = self.mints_index_by_pubkey.remove(&account_pk) {
-                    TOKEN_MINTS_IN_MEMORY.dec();
-                    self.mints_by_index.remove(&index);
-                    self.accounts_index_by_mint.remove(&index);
-                } else if self.multisigs.remove(&account_pk).is_some() {
-                    // do nothing multisig account is removed
-                } else {
-                    self.token_accounts_storage.delete(&account_pk);
-                }
+            TokenProgramAccountType::Deleted(_) => {
+                // everything is already removed
             }
         }
         true
-- 
2.43.0


From 9806039c69d9deee055bfa019288364bb0d2f9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:43 +0000
Subject: [PATCH 40/40] fix: filters with data that cannot be decoded match
 nothing instead of panicking or matching all

---
 common/src/account_filter.rs      | 40 +++++++++++++++++++++----------
 common/src/simple_filter_store.rs | 11 +++++----
 2 files changed, 34 insertions(+), 17 deletions(-)

diff --git a/common/src/account_filter.rs b/common/src/account_filter.rs
index a1fb1cb..0d9fdff 100644
--- a/common/src/account_filter.rs
+++ b/common/src/account_filter.rs
@@ -22,14 +22,17 @@ pub struct MemcmpFilter {
 
 impl MemcmpFilter {
     pub fn bytes(&self) -> Vec<u8> {
+        self.try_bytes().expect("Filter data decoding should work")
+    }
+
+    // None when the data is not valid for its encoding
+    pub fn try_bytes(&self) -> Option<Vec<u8>> {
         match &self.data {
-            MemcmpFilterData::Bytes(bytes) => bytes.clone(),
-            MemcmpFilterData::Base58(b58) => bs58::decode(b58)
-                .into_vec()
-                .expect("Base58 decoding should work"),
-            MemcmpFilterData::Base64(b64) => base64::engine::general_purpose::STANDARD
-                .decode(b64)
-                .expect("B64 decoding should work"),
+            MemcmpFilterData::Bytes(bytes) => Some(bytes.clone()),
+            MemcmpFilterData::Base58(b58) => bs58::decode(b58).into_vec().ok(),
+            MemcmpFilterData::Base64(b64) => {
+                base64::engine::general_purpose::STANDARD.decode(b64).ok()
+            }
         }
     }
 
@@ -45,7 +48,11 @@ impl MemcmpFilter {
             }
             data[offset..offset + bytes.len()] == bytes[..]
         } else {
-            let bytes = self.bytes();
+            let bytes = match self.try_bytes() {
+                Some(bytes) => bytes,
+                // like the rpc filter, matches nothing if it cannot be decoded
+                None => return false,
+            };
             let offset = self.offset as usize;
             if offset > data.len() {
                 return false;
@@ -174,12 +181,19 @@ impl From<&RpcFilterType> for AccountFilterType {
         match value {
             RpcFilterType::DataSize(size) => AccountFilterType::Datasize(*size),
             RpcFilterType::Memcmp(memcmp) => {
-                let bytes = memcmp.bytes().map(|x| (*x).clone()).unwrap_or_default();
                 let offset = memcmp.offset as u64;
-                AccountFilterType::Memcmp(MemcmpFilter {
-                    offset,
-                    data: MemcmpFilterData::Bytes(bytes),
-                })
+                let data = match memcmp.bytes() {
+                    Some(bytes) => MemcmpFilterData::Bytes(bytes.into_owned()),
+                    // cannot be decoded and matches nothing, keep it as it is
+                    None => match &memcmp.bytes {
+                        MemcmpEncodedBytes::Binary(data) | MemcmpEncodedBytes::Base58(data) => {
+                            MemcmpFilterData::Base58(data.clone())
+                        }
+                        MemcmpEncodedBytes::Base64(data) => MemcmpFilterData::Base64(data.clone()),
+                        MemcmpEncodedBytes::Bytes(bytes) => MemcmpFilterData::Bytes(bytes.clone()),
+                    },
+                };
+                AccountFilterType::Memcmp(MemcmpFilter { offset, data })
             }
             RpcFilterType::TokenAccountState => {
                 unimplemented!()
diff --git a/common/src/simple_filter_store.rs b/common/src/simple_filter_store.rs
index a17ef3c..3d188e9 100644
--- a/common/src/simple_filter_store.rs
+++ b/common/src/simple_filter_store.rs
@@ -23,10 +23,13 @@ fn normalize_filters(filters: &[AccountFilterType]) -> BTreeSet<AccountFilterTyp
         .iter()
         .map(|filter| match filter {
             AccountFilterType::Datasize(_) => filter.clone(),
-            AccountFilterType::Memcmp(memcmp) => AccountFilterType::Memcmp(MemcmpFilter {
-                offset: memcmp.offset,
-                data: crate::account_filter::MemcmpFilterData::Bytes(memcmp.bytes()),
-            }),
+            AccountFilterType::Memcmp(memcmp) => match memcmp.try_bytes() {
+                Some(bytes) => AccountFilterType::Memcmp(MemcmpFilter {
+                    offset: memcmp.offset,
+                    data: crate::account_filter::MemcmpFilterData::Bytes(bytes),
+                }),
+                None => filter.clone(),
+            },
         })
         .collect()
 }
-- 
2.43.0

