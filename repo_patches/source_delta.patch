From 554a391433408dddf78946aaa820b880d9db2e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:04 +0000
Subject: [PATCH 01/38] fix: account filter JSON with invalid content is an
 error instead of a panic

---
 common/src/account_filter.rs | 47 ++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/common/src/account_filter.rs b/common/src/account_filter.rs
index 9f07602..873a36e 100644
--- a/common/src/account_filter.rs
+++ b/common/src/account_filter.rs
@@ -1,6 +1,6 @@
 use base64::Engine;
 use itertools::Itertools;
-use serde::{ser::SerializeMap, Deserialize, Serialize};
+use serde::{de::Error, ser::SerializeMap, Deserialize, Serialize};
 use solana_rpc_client_api::filter::{Memcmp as RpcMemcmp, MemcmpEncodedBytes, RpcFilterType};
 use solana_sdk::pubkey::Pubkey;
 use std::str::FromStr;
@@ -21,6 +21,17 @@ pub struct MemcmpFilter {
 }
 
 impl MemcmpFilter {
+    /// Decoded pattern or None if the encoding is invalid
+    pub fn try_bytes(&self) -> Option<Vec<u8>> {
+        match &self.data {
+            MemcmpFilterData::Bytes(bytes) => Some(bytes.clone()),
+            MemcmpFilterData::Base58(b58) => bs58::decode(b58).into_vec().ok(),
+            MemcmpFilterData::Base64(b64) => base64::engine::general_purpose::STANDARD
+                .decode(b64)
+                .ok(),
+        }
+    }
+
     pub fn bytes(&self) -> Vec<u8> {
         match &self.data {
             MemcmpFilterData::Bytes(bytes) => bytes.clone(),
@@ -110,30 +121,36 @@ impl<'de> Deserialize<'de> for AccountFilter {
     {
         let json: serde_json::value::Value = serde_json::value::Value::deserialize(deserializer)?;
 
+        let parse_pubkey = |v: &serde_json::value::Value| {
+            let str = v
+                .as_str()
+                .ok_or_else(|| D::Error::custom("Pubkey should be a string"))?;
+            Pubkey::from_str(str).map_err(D::Error::custom)
+        };
+
         let accounts = match json.get("accounts") {
             Some(accounts) => match accounts.as_array() {
                 Some(accounts_array) => accounts_array
                     .iter()
-                    .map(|v| {
-                        Pubkey::from_str(v.as_str().expect("should be string"))
-                            .expect("Pubkey should be valid")
-                    })
-                    .collect_vec(),
+                    .map(parse_pubkey)
+                    .collect::<Result<Vec<_>, _>>()?,
                 None => vec![],
             },
             None => vec![],
         };
-        let program_id = json.get("programId").map(|program_id| {
-            Pubkey::from_str(program_id.as_str().expect("should be string"))
-                .expect("Pubkey should be valid")
-        });
-
-        let filters = match json.get("filters") {
-            Some(filters) => {
-                serde_json::from_value(filters.clone()).expect("account filters not deserializable")
-            }
+        let program_id = json.get("programId").map(parse_pubkey).transpose()?;
+
+        let filters: Option<Vec<AccountFilterType>> = match json.get("filters") {
+            Some(filters) => serde_json::from_value(filters.clone()).map_err(D::Error::custom)?,
             None => None,
         };
+        for filter in filters.iter().flatten() {
+            if let AccountFilterType::Memcmp(memcmp) = filter {
+                if memcmp.try_bytes().is_none() {
+                    return Err(D::Error::custom("memcmp data cannot be decoded"));
+                }
+            }
+        }
         Ok(Self {
             accounts,
             program_id,
-- 
2.43.0


From 4ad8fdde30d657e66d5364d8d9ded24c1c7da2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:09 +0000
Subject: [PATCH 02/38] fix: RPC memcmp filter with undecodable pattern should
 not match every account

---
 common/src/account_filter.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/common/src/account_filter.rs b/common/src/account_filter.rs
index 873a36e..63cf424 100644
--- a/common/src/account_filter.rs
+++ b/common/src/account_filter.rs
@@ -192,8 +192,11 @@ impl From<&RpcFilterType> for AccountFilterType {
         match value {
             RpcFilterType::DataSize(size) => AccountFilterType::Datasize(*size),
             RpcFilterType::Memcmp(memcmp) => {
-                let bytes = memcmp.bytes().map(|x| (*x).clone()).unwrap_or_default();
-                let offset = memcmp.offset as u64;
+                // a pattern which cannot be decoded should match nothing
+                let (offset, bytes) = match memcmp.bytes() {
+                    Some(bytes) => (memcmp.offset as u64, (*bytes).clone()),
+                    None => (u64::MAX, vec![]),
+                };
                 AccountFilterType::Memcmp(MemcmpFilter {
                     offset,
                     data: MemcmpFilterData::Bytes(bytes),
-- 
2.43.0


From a89e3fea8cffade4513be6ba9abc73a923fafcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 03/38] fix: filter containment should not depend on the
 encoding or order of filters

---
 common/src/account_filter.rs      |  6 +--
 common/src/simple_filter_store.rs | 67 ++++++++++++++-----------------
 2 files changed, 33 insertions(+), 40 deletions(-)

diff --git a/common/src/account_filter.rs b/common/src/account_filter.rs
index 63cf424..d9d4956 100644
--- a/common/src/account_filter.rs
+++ b/common/src/account_filter.rs
@@ -26,9 +26,9 @@ impl MemcmpFilter {
         match &self.data {
             MemcmpFilterData::Bytes(bytes) => Some(bytes.clone()),
             MemcmpFilterData::Base58(b58) => bs58::decode(b58).into_vec().ok(),
-            MemcmpFilterData::Base64(b64) => base64::engine::general_purpose::STANDARD
-                .decode(b64)
-                .ok(),
+            MemcmpFilterData::Base64(b64) => {
+                base64::engine::general_purpose::STANDARD.decode(b64).ok()
+            }
         }
     }
 
diff --git a/common/src/simple_filter_store.rs b/common/src/simple_filter_store.rs
index 5f4a7b3..36e8663 100644
--- a/common/src/simple_filter_store.rs
+++ b/common/src/simple_filter_store.rs
@@ -1,6 +1,8 @@
 use crate::{
     account_data::AccountData,
-    account_filter::{AccountFilter, AccountFilterType, AccountFilters, MemcmpFilter},
+    account_filter::{
+        AccountFilter, AccountFilterType, AccountFilters, MemcmpFilter, MemcmpFilterData,
+    },
 };
 use solana_sdk::pubkey::Pubkey;
 use std::collections::{BTreeSet, HashMap, HashSet};
@@ -17,6 +19,23 @@ enum ProgramIdFilters {
     ByFilterType(Vec<BTreeSet<AccountFilterType>>),
 }
 
+// always save and compare filters in bytes
+fn filters_in_bytes(filters: &[AccountFilterType]) -> BTreeSet<AccountFilterType> {
+    filters
+        .iter()
+        .map(|x| match x {
+            AccountFilterType::Datasize(_) => x.clone(),
+            AccountFilterType::Memcmp(memcmp) => match memcmp.try_bytes() {
+                Some(bytes) => AccountFilterType::Memcmp(MemcmpFilter {
+                    offset: memcmp.offset,
+                    data: MemcmpFilterData::Bytes(bytes),
+                }),
+                None => x.clone(),
+            },
+        })
+        .collect()
+}
+
 #[derive(Default)]
 pub struct SimpleFilterStore {
     accounts: HashSet<Pubkey>,
@@ -44,7 +63,7 @@ impl SimpleFilterStore {
                         }
                         ProgramIdFilters::ByFilterType(current_filters) => {
                             if let Some(new_filters) = &account_filter.filters {
-                                current_filters.push(new_filters.iter().cloned().collect());
+                                current_filters.push(filters_in_bytes(new_filters));
                             } else {
                                 // the new filters will subscribe to all the filters
                                 *program_filters = ProgramIdFilters::AllowAll;
@@ -55,28 +74,12 @@ impl SimpleFilterStore {
                 None => {
                     self.program_id_filters.insert(
                         *program_id,
-                        account_filter
-                            .filters
-                            .clone()
-                            .map_or(ProgramIdFilters::AllowAll, |filters| {
-                                // always save filters in bytes
-                                let filters = filters.iter().map(|x| match &x {
-                                    AccountFilterType::Datasize(_) => x.clone(),
-                                    AccountFilterType::Memcmp(memcmp) => {
-                                        match memcmp.data {
-                                            crate::account_filter::MemcmpFilterData::Bytes(_) => x.clone(),
-                                            crate::account_filter::MemcmpFilterData::Base58(_) |
-                                            crate::account_filter::MemcmpFilterData::Base64(_) => {
-                                                AccountFilterType::Memcmp(MemcmpFilter {
-                                                    offset: memcmp.offset,
-                                                    data: crate::account_filter::MemcmpFilterData::Bytes(memcmp.bytes())
-                                                })
-                                            },
-                                        }
-                                    },
-                                }).collect();
-                                ProgramIdFilters::ByFilterType(vec![filters])
-                            }),
+                        account_filter.filters.clone().map_or(
+                            ProgramIdFilters::AllowAll,
+                            |filters| {
+                                ProgramIdFilters::ByFilterType(vec![filters_in_bytes(&filters)])
+                            },
+                        ),
                     );
                 }
             }
@@ -100,20 +103,10 @@ impl SimpleFilterStore {
                         ProgramIdFilters::AllowAll => true,
                         ProgramIdFilters::ByFilterType(filter_list) => {
                             if let Some(filter_to_match) = &account_filter.filters {
-                                // matches sorted filter list
-                                let filter_to_match: BTreeSet<AccountFilterType> =
-                                    filter_to_match.iter().cloned().collect();
+                                // query is covered if it has all the conditions of a stored filter
+                                let filter_to_match = filters_in_bytes(filter_to_match);
                                 filter_list.iter().any(|stored_filters| {
-                                    if filter_to_match.len() >= stored_filters.len() {
-                                        let subset = filter_to_match
-                                            .iter()
-                                            .take(stored_filters.len())
-                                            .cloned()
-                                            .collect::<BTreeSet<_>>();
-                                        subset == *stored_filters
-                                    } else {
-                                        false
-                                    }
+                                    stored_filters.is_subset(&filter_to_match)
                                 })
                             } else {
                                 false
-- 
2.43.0


From 5ee9d05252c42c7b3e3338e991cfe824ab56e671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:44 +0000
Subject: [PATCH 04/38] fix: promotion of a slot should not skip a later write
 version of the same slot

---
 account_storage/src/account_data_by_commitment.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/account_storage/src/account_data_by_commitment.rs b/account_storage/src/account_data_by_commitment.rs
index 5d88493..6dc0c1c 100644
--- a/account_storage/src/account_data_by_commitment.rs
+++ b/account_storage/src/account_data_by_commitment.rs
@@ -15,6 +15,11 @@ pub struct AccountDataByCommitment {
     pub finalized_account: Option<AccountData>,
 }
 
+// there can be multiple states of an account in the same slot, the one with highest write version is the latest
+fn is_newer(new: &AccountData, old: &AccountData) -> bool {
+    (old.updated_slot, old.write_version) < (new.updated_slot, new.write_version)
+}
+
 impl AccountDataByCommitment {
     // Should be used when accounts is created by geyser notification
     pub fn new(data: AccountData, commitment: Commitment) -> Self {
@@ -199,7 +204,7 @@ impl AccountDataByCommitment {
                 }
                 Commitment::Confirmed => match self.confirmed_account.take() {
                     Some(prev_account_data) => {
-                        if prev_account_data.updated_slot < account_data.updated_slot {
+                        if is_newer(account_data, &prev_account_data) {
                             self.confirmed_account = Some(account_data.clone());
                             Some((account_data.clone(), Some(prev_account_data)))
                         } else {
@@ -216,7 +221,7 @@ impl AccountDataByCommitment {
                     // update confirmed if needed
                     match &self.confirmed_account {
                         Some(confirmed_account) => {
-                            if confirmed_account.updated_slot < account_data.updated_slot {
+                            if is_newer(account_data, confirmed_account) {
                                 self.confirmed_account = Some(account_data.clone());
                             }
                         }
@@ -227,7 +232,7 @@ impl AccountDataByCommitment {
 
                     let result = match self.finalized_account.take() {
                         Some(prev_account_data) => {
-                            if prev_account_data.updated_slot < account_data.updated_slot {
+                            if is_newer(account_data, &prev_account_data) {
                                 self.finalized_account = Some(account_data.clone());
                                 Some((account_data.clone(), Some(prev_account_data)))
                             } else {
-- 
2.43.0


From 70640a05ad4a74ddf92658695475c434e8a2ae12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:36 +0000
Subject: [PATCH 05/38] fix: slot status should not be downgraded or left
 behind by late updates and notifications

---
 account_storage/src/inmemory_account_store.rs | 139 +++++++-----------
 1 file changed, 51 insertions(+), 88 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 04b7f74..6308999 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -106,7 +106,7 @@ impl InmemoryAccountStore {
         false
     }
 
-    // commitment for which status was updated
+    // returns the commitment of the update, taking into account the commitment that the slot already has
     fn add_account_index_to_slot_status(
         &self,
         slot: Slot,
@@ -114,49 +114,22 @@ impl InmemoryAccountStore {
         commitment: Commitment,
     ) -> Commitment {
         let mut lk = self.slots_status.lock().unwrap();
-        let slot_status = match lk.get_mut(&slot) {
-            Some(x) => x,
-            None => {
-                lk.insert(
-                    slot,
-                    SlotStatus {
-                        commitment,
-                        accounts_updated: BTreeSet::new(),
-                        parent: None,
-                    },
-                );
-                lk.get_mut(&slot).unwrap()
-            }
-        };
+        // commitment of a slot is only changed by slot notifications
+        let slot_status = lk.entry(slot).or_insert_with(|| SlotStatus {
+            commitment: Commitment::Processed,
+            accounts_updated: BTreeSet::new(),
+            parent: None,
+        });
         match commitment {
             Commitment::Processed | Commitment::Confirmed => {
                 // insert account into slot status
                 slot_status.accounts_updated.insert(account_index);
-                slot_status.commitment
+                commitment.max(slot_status.commitment)
             }
             Commitment::Finalized => commitment,
         }
     }
 
-    fn maybe_update_slot_status(
-        &self,
-        account_data: &AccountData,
-        commitment: Commitment,
-    ) -> Commitment {
-        let account_index = match self
-            .pubkey_to_account_index
-            .get(&account_data.pubkey)
-            .map(|x| *x)
-        {
-            Some(x) => x,
-            None => {
-                return commitment;
-            }
-        };
-        let slot = account_data.updated_slot;
-        self.add_account_index_to_slot_status(slot, account_index, commitment)
-    }
-
     pub fn satisfies_filters(&self, account: &AccountData) -> bool {
         self.filtered_accounts.satisfies(account)
     }
@@ -214,14 +187,15 @@ impl AccountStorageInterface for InmemoryAccountStore {
         }
         let updated_slot = account_data.updated_slot;
 
-        // check if the blockhash and slot is already confirmed
-        let commitment = self.maybe_update_slot_status(&account_data, commitment);
-
         let updated = match self.pubkey_to_account_index.entry(account_data.pubkey) {
             dashmap::mapref::entry::Entry::Occupied(occ) => {
                 let index = *occ.get();
                 let read_lk = self.accounts_store.read().unwrap();
                 let mut acc_by_commitment = read_lk[index].write().unwrap();
+                // check if the slot is already confirmed, should be done when account is locked
+                // so that the slot cannot be promoted before the account is updated
+                let commitment =
+                    self.add_account_index_to_slot_status(updated_slot, index, commitment);
                 let prev_account = acc_by_commitment.get_account_data(commitment);
                 // if account has been updated
                 if acc_by_commitment.update(account_data.clone(), commitment) {
@@ -245,14 +219,15 @@ impl AccountStorageInterface for InmemoryAccountStore {
                 if self.satisfies_filters(&account_data) {
                     ACCOUNT_STORED_IN_MEMORY.inc();
                     let mut lk = self.accounts_store.write().unwrap();
+                    let index = lk.len();
+                    let commitment =
+                        self.add_account_index_to_slot_status(updated_slot, index, commitment);
                     lk.push(RwLock::new(AccountDataByCommitment::new(
                         account_data.clone(),
                         commitment,
                     )));
-                    let index = lk.len() - 1;
                     drop(lk);
                     self.add_account_owner(index, account_data.account.owner);
-                    self.add_account_index_to_slot_status(updated_slot, index, commitment);
                     vac.insert(index);
                     true
                 } else {
@@ -354,58 +329,46 @@ impl AccountStorageInterface for InmemoryAccountStore {
             let mut writable_accounts: HashMap<AccountIndex, Slot> = HashMap::new();
             while let Some((slot, parent)) = current_slot {
                 current_slot = None;
-                match lk.get_mut(&slot) {
-                    Some(status) => {
-                        if status.commitment == commitment {
-                            // slot already processed for the commitment
-                            break;
-                        }
-                        status.commitment = commitment;
-                        if parent.is_some() {
-                            status.parent = parent;
-                        }
-                        for account in &status.accounts_updated {
-                            match writable_accounts.entry(*account) {
-                                std::collections::hash_map::Entry::Occupied(_) => {
-                                    // do nothing account has already been updated by higher slot
-                                }
-                                std::collections::hash_map::Entry::Vacant(vac) => {
-                                    vac.insert(slot);
-                                }
+                let status = lk.entry(slot).or_insert_with(|| {
+                    log::debug!(
+                        "slot status not found for {} and commitment {}, could be normal if the entry is already removed or during startup",
+                        slot,
+                        commitment
+                    );
+                    SlotStatus {
+                        commitment: Commitment::Processed,
+                        accounts_updated: BTreeSet::new(),
+                        parent: None,
+                    }
+                });
+                let is_parent_known = status.parent.is_some();
+                if parent.is_some() {
+                    status.parent = parent;
+                }
+                if commitment == Commitment::Processed {
+                    // nothing to promote, only the parent is saved
+                    break;
+                }
+                if status.commitment >= commitment && is_parent_known {
+                    // slot and its parents are already processed for the commitment
+                    break;
+                }
+                if status.commitment < commitment {
+                    status.commitment = commitment;
+                    for account in &status.accounts_updated {
+                        match writable_accounts.entry(*account) {
+                            std::collections::hash_map::Entry::Occupied(_) => {
+                                // do nothing account has already been updated by higher slot
                             }
-                        }
-                        if commitment == Commitment::Confirmed
-                            || commitment == Commitment::Finalized
-                        {
-                            if let Some(parent_slot) = status.parent {
-                                // update commitment for parent slots
-                                current_slot = Some((parent_slot, None));
+                            std::collections::hash_map::Entry::Vacant(vac) => {
+                                vac.insert(slot);
                             }
                         }
                     }
-                    None => {
-                        if commitment == Commitment::Confirmed {
-                            log::debug!(
-                                "slot status not found for {} and commitment {}, confirmed lagging",
-                                slot,
-                                commitment
-                            );
-                        } else if commitment == Commitment::Finalized {
-                            log::debug!("slot status not found for {} for commitment finalized, could be normal if the entry is already removed or during startup", slot,);
-                        }
-                        if commitment == Commitment::Confirmed
-                            || commitment == Commitment::Processed
-                        {
-                            // add status for processed slot
-                            let status = SlotStatus {
-                                commitment,
-                                accounts_updated: BTreeSet::new(),
-                                parent: Some(slot_info.parent),
-                            };
-                            lk.insert(slot, status);
-                        }
-                        break;
-                    }
+                }
+                if let Some(parent_slot) = status.parent {
+                    // update commitment for parent slots
+                    current_slot = Some((parent_slot, None));
                 }
             }
 
-- 
2.43.0


From f807e7b99c709b8dea93f145e190963abe7dbda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:36 +0000
Subject: [PATCH 06/38] fix: program accounts query without filters should not
 return deleted accounts

---
 account_storage/src/inmemory_account_store.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 6308999..4ae0184 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -165,7 +165,9 @@ impl InmemoryAccountStore {
                 let account_data = lk_on_account.get_account_data(commitment);
                 if let Some(account_data) = account_data {
                     // recheck owner
-                    if program_pubkey == account_data.account.owner {
+                    if account_data.account.lamports > 0
+                        && program_pubkey == account_data.account.owner
+                    {
                         return_vec.push(account_data);
                     }
                 }
-- 
2.43.0


From bdecb1de0e1a9ec913b03100ac96babd51de1835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 07/38] fix: account owner index and account removal should
 consider states of all commitments

---
 .../src/account_data_by_commitment.rs         |  22 +++-
 account_storage/src/inmemory_account_store.rs | 117 ++++++++++--------
 2 files changed, 85 insertions(+), 54 deletions(-)

diff --git a/account_storage/src/account_data_by_commitment.rs b/account_storage/src/account_data_by_commitment.rs
index 6dc0c1c..7f3c88e 100644
--- a/account_storage/src/account_data_by_commitment.rs
+++ b/account_storage/src/account_data_by_commitment.rs
@@ -5,7 +5,7 @@ use lite_account_manager_common::{
     account_filter::AccountFilterType,
     commitment::Commitment,
 };
-use solana_sdk::clock::Slot;
+use solana_sdk::{clock::Slot, pubkey::Pubkey};
 
 #[derive(Default)]
 pub struct AccountDataByCommitment {
@@ -280,6 +280,26 @@ impl AccountDataByCommitment {
         }
     }
 
+    // true if there is any state of the account with the owner
+    pub fn has_owner(&self, owner: &Pubkey) -> bool {
+        self.processed_accounts
+            .values()
+            .chain(self.confirmed_account.iter())
+            .chain(self.finalized_account.iter())
+            .any(|x| x.account.owner == *owner)
+    }
+
+    // returns finalized state if there is no newer state
+    pub fn latest_state_if_finalized(&self) -> Option<&AccountData> {
+        self.finalized_account.as_ref().filter(|finalized| {
+            !self
+                .processed_accounts
+                .values()
+                .chain(self.confirmed_account.iter())
+                .any(|x| is_newer(x, finalized))
+        })
+    }
+
     pub fn delete(&mut self) {
         self.processed_accounts.clear();
         self.confirmed_account = None;
diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 4ae0184..f1a25ac 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -68,42 +68,38 @@ impl InmemoryAccountStore {
         }
     }
 
-    // here if the commitment is processed and the account has changed owner from A->B we keep the key for both A and B
+    // index owner of the account state, if the state can be returned by a program accounts query
+    // here if the account has changed owner from A->B we keep the key for both A and B
     // then we remove the key from A for finalized commitment
-    // returns true if entry needs to be deleted
-    fn update_owner_delete_if_necessary(
+    fn index_account_owner(&self, account_data: &AccountData, account_index: AccountIndex) {
+        if !Self::is_deleted(account_data) && self.satisfies_filters(account_data) {
+            self.add_account_owner(account_index, account_data.account.owner);
+        }
+    }
+
+    // removes the key from owner of previously finalized state, if no state of the account has that owner
+    fn remove_previous_owner(
         &self,
         prev_account_data: &AccountData,
-        new_account_data: &AccountData,
+        account: &AccountDataByCommitment,
         account_index: AccountIndex,
-        commitment: Commitment,
-    ) -> bool {
-        assert_eq!(prev_account_data.pubkey, new_account_data.pubkey);
-        if prev_account_data.account.owner != new_account_data.account.owner {
-            if commitment == Commitment::Finalized {
-                match self
-                    .accounts_by_owner
-                    .entry(prev_account_data.account.owner)
-                {
-                    dashmap::mapref::entry::Entry::Occupied(mut occ) => {
-                        occ.get_mut().write().unwrap().remove(&account_index);
-                    }
-                    dashmap::mapref::entry::Entry::Vacant(_) => {
-                        // do nothing
-                    }
-                }
-
-                // account is deleted or if new does not satisfies the filter criterias
-                if Self::is_deleted(new_account_data) || !self.satisfies_filters(new_account_data) {
-                    return true;
-                }
+    ) {
+        let prev_owner = prev_account_data.account.owner;
+        if !account.has_owner(&prev_owner) {
+            if let Some(accounts) = self.accounts_by_owner.get(&prev_owner) {
+                accounts.write().unwrap().remove(&account_index);
             }
-            if !Self::is_deleted(new_account_data) && self.satisfies_filters(new_account_data) {
-                // update owner if account was not deleted but owner was change and the filter criterias are satisfied
-                self.add_account_owner(account_index, new_account_data.account.owner);
+        }
+    }
+
+    // account should be removed if the latest state is finalized, and is deleted or does not satisfy the filter criterias
+    fn should_be_removed(&self, account: &AccountDataByCommitment) -> bool {
+        match account.latest_state_if_finalized() {
+            Some(account_data) => {
+                Self::is_deleted(account_data) || !self.satisfies_filters(account_data)
             }
+            None => false,
         }
-        false
     }
 
     // returns the commitment of the update, taking into account the commitment that the slot already has
@@ -198,16 +194,15 @@ impl AccountStorageInterface for InmemoryAccountStore {
                 // so that the slot cannot be promoted before the account is updated
                 let commitment =
                     self.add_account_index_to_slot_status(updated_slot, index, commitment);
-                let prev_account = acc_by_commitment.get_account_data(commitment);
+                let prev_finalized = acc_by_commitment.finalized_account.clone();
                 // if account has been updated
                 if acc_by_commitment.update(account_data.clone(), commitment) {
-                    if let Some(prev_account) = prev_account {
-                        if self.update_owner_delete_if_necessary(
-                            &prev_account,
-                            &account_data,
-                            index,
-                            commitment,
-                        ) {
+                    self.index_account_owner(&account_data, index);
+                    if commitment == Commitment::Finalized {
+                        if let Some(prev_finalized) = prev_finalized {
+                            self.remove_previous_owner(&prev_finalized, &acc_by_commitment, index);
+                        }
+                        if self.should_be_removed(&acc_by_commitment) {
                             acc_by_commitment.delete();
                             occ.remove_entry();
                         }
@@ -219,15 +214,17 @@ impl AccountStorageInterface for InmemoryAccountStore {
             }
             dashmap::mapref::entry::Entry::Vacant(vac) => {
                 if self.satisfies_filters(&account_data) {
-                    ACCOUNT_STORED_IN_MEMORY.inc();
                     let mut lk = self.accounts_store.write().unwrap();
                     let index = lk.len();
                     let commitment =
                         self.add_account_index_to_slot_status(updated_slot, index, commitment);
-                    lk.push(RwLock::new(AccountDataByCommitment::new(
-                        account_data.clone(),
-                        commitment,
-                    )));
+                    let account = AccountDataByCommitment::new(account_data.clone(), commitment);
+                    if self.should_be_removed(&account) {
+                        // deletion is already finalized, there is nothing to track
+                        return false;
+                    }
+                    ACCOUNT_STORED_IN_MEMORY.inc();
+                    lk.push(RwLock::new(account));
                     drop(lk);
                     self.add_account_owner(index, account_data.account.owner);
                     vac.insert(index);
@@ -390,6 +387,7 @@ impl AccountStorageInterface for InmemoryAccountStore {
         };
 
         let mut updated_accounts = vec![];
+        let mut accounts_to_remove = vec![];
 
         let lk = self.accounts_store.read().unwrap();
         for (writable_account_index, update_slot) in writable_accounts {
@@ -397,25 +395,38 @@ impl AccountStorageInterface for InmemoryAccountStore {
             if let Some((account_data, prev_account_data)) =
                 writable_lk.promote_slot_commitment(update_slot, commitment)
             {
-                if let Some(prev_account_data) = prev_account_data {
-                    // check if owner has changed
-                    if (prev_account_data.account.owner != account_data.account.owner
-                        || account_data.account.lamports == 0)
-                        && self.update_owner_delete_if_necessary(
+                if commitment == Commitment::Finalized {
+                    if let Some(prev_account_data) = prev_account_data {
+                        self.remove_previous_owner(
                             &prev_account_data,
-                            &account_data,
+                            &writable_lk,
                             writable_account_index,
-                            commitment,
-                        )
-                    {
-                        self.pubkey_to_account_index.remove(&account_data.pubkey);
-                        writable_lk.delete();
+                        );
+                    }
+                    if self.should_be_removed(&writable_lk) {
+                        accounts_to_remove.push((account_data.pubkey, writable_account_index));
                     }
                 }
                 // account has been confirmed first time
                 updated_accounts.push(account_data);
             }
         }
+        drop(lk);
+
+        for (pubkey, account_index) in accounts_to_remove {
+            // locks should be taken in the same order as in update_account, and account may have been updated in the meantime
+            self.pubkey_to_account_index
+                .remove_if(&pubkey, |_, current_index| {
+                    let lk = self.accounts_store.read().unwrap();
+                    let mut account = lk[account_index].write().unwrap();
+                    if *current_index == account_index && self.should_be_removed(&account) {
+                        account.delete();
+                        true
+                    } else {
+                        false
+                    }
+                });
+        }
         updated_accounts
     }
 
-- 
2.43.0


From dc2e9c141943b8408879d15b6e9636eb59c5a234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:38 +0000
Subject: [PATCH 08/38] fix: storage by program id should look for an account
 in all storages

---
 account_storage/src/storage_by_program_id.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/account_storage/src/storage_by_program_id.rs b/account_storage/src/storage_by_program_id.rs
index 3437ade..03612df 100644
--- a/account_storage/src/storage_by_program_id.rs
+++ b/account_storage/src/storage_by_program_id.rs
@@ -51,8 +51,8 @@ impl AccountStorageInterface for StorageByProgramId {
         commitment: Commitment,
     ) -> Result<Option<AccountData>, AccountLoadingError> {
         for (_, interface) in self.program_id_dispatch_map.iter() {
-            if let Ok(accounts) = interface.get_account(account_pk, commitment) {
-                return Ok(accounts);
+            if let Ok(Some(account)) = interface.get_account(account_pk, commitment) {
+                return Ok(Some(account));
             }
         }
         self.default.get_account(account_pk, commitment)
-- 
2.43.0


From 69b5e653e3965c2b8aaff12ed9b0bf1e67929d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:14 +0000
Subject: [PATCH 09/38] fix: token accounts with same partial pubkey should not
 be mixed up

---
 .../src/inmemory_token_account_storage.rs     | 42 ++++++++++---------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_account_storage.rs b/token_account_storage/src/inmemory_token_account_storage.rs
index 16924b0..75860c2 100644
--- a/token_account_storage/src/inmemory_token_account_storage.rs
+++ b/token_account_storage/src/inmemory_token_account_storage.rs
@@ -38,20 +38,16 @@ impl TokenAccountStorageInterface for InmemoryTokenAccountStorage {
     fn contains(&self, pubkey: &Pubkey) -> Option<TokenAccountIndex> {
         match self.pubkey_to_index.entry(pubkey.into()) {
             dashmap::mapref::entry::Entry::Occupied(occ) => {
-                let value = occ.get();
-                if value.len() > 1 {
-                    let lk = self.token_accounts.read().unwrap();
-                    for index in value {
-                        if TokenAccount::get_pubkey_from_binary(lk.get(*index as usize).unwrap())
-                            == *pubkey
-                        {
-                            return Some(*index);
-                        }
+                let lk = self.token_accounts.read().unwrap();
+                // multiple pubkeys can have the same partial pubkey
+                for index in occ.get() {
+                    if TokenAccount::get_pubkey_from_binary(lk.get(*index as usize).unwrap())
+                        == *pubkey
+                    {
+                        return Some(*index);
                     }
-                    None
-                } else {
-                    Some(value[0])
                 }
+                None
             }
             dashmap::mapref::entry::Entry::Vacant(_) => None,
         }
@@ -127,8 +123,9 @@ impl TokenAccountStorageInterface for InmemoryTokenAccountStorage {
     }
 
     fn delete(&self, pubkey: &Pubkey) {
-        let acc_to_remove = self.pubkey_to_index.remove(&pubkey.into());
-        if let Some((_, indexes)) = acc_to_remove {
+        if let dashmap::mapref::entry::Entry::Occupied(mut occ) =
+            self.pubkey_to_index.entry(pubkey.into())
+        {
             let mut write_lk = self.token_accounts.write().unwrap();
             let deleted_account = TokenAccount {
                 program: Program::TokenProgram,
@@ -144,12 +141,17 @@ impl TokenAccountStorageInterface for InmemoryTokenAccountStorage {
                 additional_data: None,
             }
             .to_bytes();
-            for index in indexes {
-                let binary = write_lk.get_mut(index as usize).unwrap();
-                if TokenAccount::get_pubkey_from_binary(binary) == *pubkey {
-                    TOKEN_ACCOUNT_DELETED_IN_MEMORY.inc();
-                    *binary = deleted_account;
-                    return;
+            // other accounts with the same partial pubkey should be kept
+            let indexes = occ.get_mut();
+            if let Some(position) = indexes.iter().position(|index| {
+                TokenAccount::get_pubkey_from_binary(write_lk.get(*index as usize).unwrap())
+                    == *pubkey
+            }) {
+                let index = indexes.remove(position);
+                TOKEN_ACCOUNT_DELETED_IN_MEMORY.inc();
+                *write_lk.get_mut(index as usize).unwrap() = deleted_account;
+                if indexes.is_empty() {
+                    occ.remove();
                 }
             }
         }
-- 
2.43.0


From 6aa910dea70d3a8fccec9b6bab8f432995b2061d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:47 +0000
Subject: [PATCH 10/38] fix: saving a token account should not print to stdout

---
 token_account_storage/src/inmemory_token_account_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/token_account_storage/src/inmemory_token_account_storage.rs b/token_account_storage/src/inmemory_token_account_storage.rs
index 75860c2..2c0998f 100644
--- a/token_account_storage/src/inmemory_token_account_storage.rs
+++ b/token_account_storage/src/inmemory_token_account_storage.rs
@@ -54,7 +54,7 @@ impl TokenAccountStorageInterface for InmemoryTokenAccountStorage {
     }
 
     fn save_or_update(&self, token_account: TokenAccount) -> (TokenAccountIndex, bool) {
-        println!("Saving or updating token account: {:?}", token_account);
+        log::debug!("saving or updating token account: {:?}", token_account);
         match self.pubkey_to_index.entry(token_account.pubkey.into()) {
             dashmap::mapref::entry::Entry::Occupied(mut occ) => {
                 // already present
-- 
2.43.0


From 704e7d13449f1ea300243e7b84cf64fa9e3ba456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:07 +0000
Subject: [PATCH 11/38] fix: token accounts should be readable when the mint
 account is not known or is closed

mint index is kept for every mint referenced by a token account, it is also
used to map mints when a snapshot is loaded
---
 .../src/inmemory_token_storage.rs             | 101 ++++++++++--------
 .../src/token_program_utils.rs                |  25 +++--
 2 files changed, 73 insertions(+), 53 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 7db27a7..1c5d2dd 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -24,7 +24,7 @@ use crate::{
     account_types::{MintAccount, MintIndex, MultiSig, Program, TokenAccount, TokenAccountIndex},
     token_account_storage_interface::TokenAccountStorageInterface,
     token_program_utils::{
-        get_spl_token_owner_mint_filter, get_token_program_account_type,
+        get_or_create_mint_index, get_spl_token_owner_mint_filter, get_token_program_account_type,
         token_account_to_solana_account, token_mint_to_solana_account,
         token_multisig_to_solana_account, token_program_account_to_solana_account,
         TokenProgramAccountType,
@@ -150,7 +150,7 @@ impl ProcessedAccountStore {
     pub fn get_processed_for_slot(
         &self,
         slot_info: SlotInfo,
-        mints_by_index: &Arc<DashMap<MintIndex, MintAccount>>,
+        mint_pubkey_by_index: &Arc<DashMap<MintIndex, Pubkey>>,
     ) -> Vec<AccountData> {
         let lk = self.processed_slot_accounts.read().unwrap();
         match lk.get(&slot_info.slot) {
@@ -162,7 +162,7 @@ impl ProcessedAccountStore {
                         &account.processed_account,
                         slot_info.slot,
                         account.write_version,
-                        mints_by_index,
+                        mint_pubkey_by_index,
                     )
                 })
                 .collect(),
@@ -303,6 +303,8 @@ impl ProcessedAccountStore {
 pub struct TokenProgramAccountsStorage {
     mints_by_index: Arc<DashMap<MintIndex, MintAccount>>,
     mints_index_by_pubkey: Arc<DashMap<Pubkey, MintIndex>>,
+    // mints referenced by token accounts, the mint account itself may not be known
+    mint_pubkey_by_index: Arc<DashMap<MintIndex, Pubkey>>,
     multisigs: Arc<DashMap<Pubkey, MultiSig>>,
     accounts_index_by_mint: Arc<DashMap<MintIndex, VecDeque<TokenAccountIndex>>>,
     account_by_owner_pubkey: Arc<DashMap<InmemoryPubkey, Vec<TokenAccountIndex>>>,
@@ -319,6 +321,7 @@ impl TokenProgramAccountsStorage {
         Self {
             mints_by_index: Arc::new(DashMap::new()),
             mints_index_by_pubkey: Arc::new(DashMap::new()),
+            mint_pubkey_by_index: Arc::new(DashMap::new()),
             accounts_index_by_mint: Arc::new(DashMap::new()),
             multisigs: Arc::new(DashMap::new()),
             account_by_owner_pubkey: Arc::new(DashMap::new()),
@@ -367,28 +370,18 @@ impl TokenProgramAccountsStorage {
                 }
             }
             TokenProgramAccountType::Mint(mint_data) => {
-                match self.mints_index_by_pubkey.entry(mint_data.pubkey) {
-                    dashmap::mapref::entry::Entry::Occupied(occ) => {
-                        self.mints_by_index.insert(*occ.get(), mint_data);
-                    }
-                    dashmap::mapref::entry::Entry::Vacant(v) => {
-                        TOKEN_MINTS_IN_MEMORY.inc();
-                        let index = self
-                            .mint_counter
-                            .fetch_add(1, std::sync::atomic::Ordering::Relaxed);
-                        self.mints_by_index.insert(index, mint_data);
-                        v.insert(index);
-                    }
-                }
+                self.add_mint(mint_data);
             }
             TokenProgramAccountType::MultiSig(multisig_data, pubkey) => {
                 self.multisigs.insert(pubkey, multisig_data);
             }
             TokenProgramAccountType::Deleted(account_pk) => {
-                if let Some((_, index)) = self.mints_index_by_pubkey.remove(&account_pk) {
-                    TOKEN_MINTS_IN_MEMORY.dec();
-                    self.mints_by_index.remove(&index);
-                    self.accounts_index_by_mint.remove(&index);
+                let mint_index = self.mints_index_by_pubkey.get(&account_pk).map(|x| *x);
+                if let Some(index) = mint_index {
+                    // index of the mint is kept because there can be token accounts of a closed mint
+                    if self.mints_by_index.remove(&index).is_some() {
+                        TOKEN_MINTS_IN_MEMORY.dec();
+                    }
                 } else if self.mints_index_by_pubkey.remove(&account_pk).is_some() {
                     // do nothing multisig account is removed
                 } else {
@@ -399,6 +392,23 @@ impl TokenProgramAccountsStorage {
         true
     }
 
+    fn add_mint(&self, mint_account: MintAccount) -> MintIndex {
+        let mint_index = get_or_create_mint_index(
+            mint_account.pubkey,
+            &self.mints_index_by_pubkey,
+            &self.mint_pubkey_by_index,
+            &self.mint_counter,
+        );
+        if self
+            .mints_by_index
+            .insert(mint_index, mint_account)
+            .is_none()
+        {
+            TOKEN_MINTS_IN_MEMORY.inc();
+        }
+        mint_index
+    }
+
     pub fn is_token_program_account(&self, account_data: &AccountData) -> bool {
         self.mints_index_by_pubkey
             .contains_key(&account_data.pubkey)
@@ -422,12 +432,14 @@ impl TokenProgramAccountsStorage {
         }
 
         if let Some(mint_index) = self.mints_index_by_pubkey.get(&account_pk) {
-            let mint_data = self.mints_by_index.get(&mint_index).unwrap();
-            return Some(token_mint_to_solana_account(
-                &mint_data,
-                self.finalized_slot.load(Ordering::Relaxed),
-                0,
-            ));
+            // mint may be referenced by token accounts without being known
+            return self.mints_by_index.get(&mint_index).map(|mint_data| {
+                token_mint_to_solana_account(
+                    &mint_data,
+                    self.finalized_slot.load(Ordering::Relaxed),
+                    0,
+                )
+            });
         }
 
         if let Some(token_account) = self.token_accounts_storage.get_by_pubkey(&account_pk) {
@@ -438,7 +450,7 @@ impl TokenProgramAccountsStorage {
                 &token_account,
                 self.finalized_slot.load(Ordering::Relaxed),
                 0,
-                &self.mints_by_index,
+                &self.mint_pubkey_by_index,
             );
         }
         None
@@ -465,7 +477,14 @@ impl TokenProgramAccountsStorage {
                     dashmap::mapref::entry::Entry::Vacant(_) => None,
                 };
 
-                let mint = mint.map(|pk| *self.mints_index_by_pubkey.get(&pk).unwrap().value());
+                let mint = match mint {
+                    Some(pk) => match self.mints_index_by_pubkey.get(&pk) {
+                        Some(mint_index) => Some(*mint_index.value()),
+                        // there are no accounts for this mint
+                        None => return Ok(vec![]),
+                    },
+                    None => None,
+                };
 
                 match indexes {
                     Some(indexes) => {
@@ -486,7 +505,7 @@ impl TokenProgramAccountsStorage {
                                     token_account,
                                     finalized_slot,
                                     0,
-                                    &self.mints_by_index,
+                                    &self.mint_pubkey_by_index,
                                 )
                             })
                             .collect_vec();
@@ -513,7 +532,7 @@ impl TokenProgramAccountsStorage {
                                         token_account,
                                         finalized_slot,
                                         0,
-                                        &self.mints_by_index,
+                                        &self.mint_pubkey_by_index,
                                     )
                                 })
                                 .collect_vec();
@@ -568,6 +587,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         let token_program_account = match get_token_program_account_type(
             &account_data,
             &self.mints_index_by_pubkey,
+            &self.mint_pubkey_by_index,
             &self.mint_counter,
         ) {
             Ok(res) => res,
@@ -598,6 +618,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         let token_program_account = match get_token_program_account_type(
             &account_data,
             &self.mints_index_by_pubkey,
+            &self.mint_pubkey_by_index,
             &self.mint_counter,
         ) {
             Ok(res) => res,
@@ -635,7 +656,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                         &processed_account.processed_account,
                         *slot,
                         0,
-                        &self.mints_by_index,
+                        &self.mint_pubkey_by_index,
                     )),
                     None => Ok(self.get_account_finalized(account_pk)),
                 }
@@ -670,7 +691,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                         &processed_account.processed_account,
                         *slot,
                         processed_account.write_version,
-                        &self.mints_by_index,
+                        &self.mint_pubkey_by_index,
                     );
                     match updated_account {
                         Some(updated_account) => {
@@ -706,7 +727,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                     self.processed_storage.update_slot_info(slot_info);
                 }
                 self.processed_storage
-                    .get_processed_for_slot(slot_info, &self.mints_by_index)
+                    .get_processed_for_slot(slot_info, &self.mint_pubkey_by_index)
             }
             Commitment::Finalized => {
                 log::debug!("finalize slot data  : {slot_info:?}");
@@ -725,7 +746,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                             &acc.processed_account,
                             *slot,
                             acc.write_version,
-                            &self.mints_by_index,
+                            &self.mint_pubkey_by_index,
                         )
                     })
                     .collect_vec();
@@ -799,17 +820,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         let mut mint_mapping = HashMap::<MintIndex, MintIndex>::new();
         // remap all the mints
         for (index, mint_account) in mints {
-            match self.mints_index_by_pubkey.get_mut(&mint_account.pubkey) {
-                Some(value) => {
-                    mint_mapping.insert(index, *value);
-                    self.mints_by_index.insert(index, mint_account);
-                }
-                None => {
-                    let mint_index = self.mint_counter.fetch_add(1, Ordering::Relaxed);
-                    mint_mapping.insert(index, mint_index);
-                    self.mints_by_index.insert(mint_index, mint_account);
-                }
-            }
+            mint_mapping.insert(index, self.add_mint(mint_account));
         }
 
         for token_account_bytes in token_accounts {
diff --git a/token_account_storage/src/token_program_utils.rs b/token_account_storage/src/token_program_utils.rs
index f69370f..ccb5474 100644
--- a/token_account_storage/src/token_program_utils.rs
+++ b/token_account_storage/src/token_program_utils.rs
@@ -40,12 +40,14 @@ impl TokenProgramAccountType {
 pub fn get_or_create_mint_index(
     mint: Pubkey,
     mint_index_by_pubkey: &Arc<DashMap<Pubkey, MintIndex>>,
+    mint_pubkey_by_index: &Arc<DashMap<MintIndex, Pubkey>>,
     mint_index_count: &Arc<AtomicU32>,
 ) -> MintIndex {
     match mint_index_by_pubkey.entry(mint) {
         dashmap::mapref::entry::Entry::Occupied(occ) => *occ.get(),
         dashmap::mapref::entry::Entry::Vacant(vac) => {
             let index = mint_index_count.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
+            mint_pubkey_by_index.insert(index, mint);
             vac.insert(index);
             index
         }
@@ -55,6 +57,7 @@ pub fn get_or_create_mint_index(
 pub fn get_token_program_account_type(
     account_data: &AccountData,
     mint_index_by_pubkey: &Arc<DashMap<Pubkey, MintIndex>>,
+    mint_pubkey_by_index: &Arc<DashMap<MintIndex, Pubkey>>,
     mint_index_count: &Arc<AtomicU32>,
 ) -> anyhow::Result<TokenProgramAccountType> {
     if account_data.account.lamports == 0
@@ -116,6 +119,7 @@ pub fn get_token_program_account_type(
                 let mint_index = get_or_create_mint_index(
                     token_account.mint,
                     mint_index_by_pubkey,
+                    mint_pubkey_by_index,
                     mint_index_count,
                 );
                 Ok(TokenProgramAccountType::TokenAccount(TokenAccount {
@@ -191,6 +195,7 @@ pub fn get_token_program_account_type(
             let mint_index = get_or_create_mint_index(
                 token_account.mint,
                 mint_index_by_pubkey,
+                mint_pubkey_by_index,
                 mint_index_count,
             );
             Ok(TokenProgramAccountType::TokenAccount(TokenAccount {
@@ -248,17 +253,18 @@ pub fn token_account_to_solana_account(
     token_account: &TokenAccount,
     updated_slot: u64,
     write_version: u64,
-    mints_by_index: &Arc<DashMap<MintIndex, MintAccount>>,
+    mint_pubkey_by_index: &Arc<DashMap<MintIndex, Pubkey>>,
 ) -> Option<AccountData> {
     if token_account.is_deleted {
         return None;
     }
     let (delegate, delegated_amount) = token_account.delegate.unwrap_or_default();
-    let mint = mints_by_index.get(&token_account.mint).unwrap();
+    // mint account may not be known
+    let mint = *mint_pubkey_by_index.get(&token_account.mint)?;
     let data = match token_account.program {
         Program::TokenProgram => {
             let t_acc = spl_token::state::Account {
-                mint: mint.pubkey,
+                mint,
                 owner: token_account.owner,
                 amount: token_account.amount,
                 delegate: if token_account.delegate.is_some() {
@@ -285,7 +291,7 @@ pub fn token_account_to_solana_account(
         }
         Program::Token2022Program => {
             let t_acc = spl_token_2022::state::Account {
-                mint: mint.pubkey,
+                mint,
                 owner: token_account.owner,
                 amount: token_account.amount,
                 delegate: if token_account.delegate.is_some() {
@@ -454,12 +460,15 @@ pub fn token_program_account_to_solana_account(
     token_program_account: &TokenProgramAccountType,
     updated_slot: u64,
     write_version: u64,
-    mints_by_index: &Arc<DashMap<MintIndex, MintAccount>>,
+    mint_pubkey_by_index: &Arc<DashMap<MintIndex, Pubkey>>,
 ) -> Option<AccountData> {
     match token_program_account {
-        TokenProgramAccountType::TokenAccount(tok_acc) => {
-            token_account_to_solana_account(tok_acc, updated_slot, write_version, mints_by_index)
-        }
+        TokenProgramAccountType::TokenAccount(tok_acc) => token_account_to_solana_account(
+            tok_acc,
+            updated_slot,
+            write_version,
+            mint_pubkey_by_index,
+        ),
         TokenProgramAccountType::Mint(mint_account) => Some(token_mint_to_solana_account(
             mint_account,
             updated_slot,
-- 
2.43.0


From ac6003fa2a11c580214dd7fe6f158c31a103949c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:34 +0000
Subject: [PATCH 12/38] fix: token 2022 accounts and mints with extensions
 should be accepted

---
 token_account_storage/src/token_program_utils.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/token_account_storage/src/token_program_utils.rs b/token_account_storage/src/token_program_utils.rs
index ccb5474..54153df 100644
--- a/token_account_storage/src/token_program_utils.rs
+++ b/token_account_storage/src/token_program_utils.rs
@@ -97,8 +97,9 @@ pub fn get_token_program_account_type(
         match type_account {
             0 => {
                 //mint
+                // extensions are after the base state
                 let mint = spl_token_2022::state::Mint::unpack_unchecked(
-                    &account_data.account.data.data(),
+                    &data[..spl_token_2022::state::Mint::LEN],
                 )?;
                 Ok(TokenProgramAccountType::Mint(MintAccount {
                     program: crate::account_types::Program::Token2022Program,
@@ -113,8 +114,9 @@ pub fn get_token_program_account_type(
                 }))
             }
             1 => {
+                // extensions are after the base state
                 let token_account = spl_token_2022::state::Account::unpack_unchecked(
-                    &account_data.account.data.data(),
+                    &data[..spl_token_2022::state::Account::LEN],
                 )?;
                 let mint_index = get_or_create_mint_index(
                     token_account.mint,
-- 
2.43.0


From a1bff66049d9cfb590e03009b8df156fe39f3cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 13/38] fix: parent should be saved for slots without token
 accounts

---
 token_account_storage/src/inmemory_token_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 1c5d2dd..53790de 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -140,7 +140,7 @@ impl ProcessedAccountStore {
                     slot_info.slot,
                     ProcessedAccountBySlot {
                         processed_accounts: HashMap::new(),
-                        slot_parent: None,
+                        slot_parent: Some(slot_info.parent),
                     },
                 );
             }
-- 
2.43.0


From ffeac283bf8a8e6f317f1f4ffeb9f0b1b9f343f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:01 +0000
Subject: [PATCH 14/38] fix: closing of unfinalized token accounts and of
 multisigs should not be ignored

---
 .../src/inmemory_token_storage.rs              | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 53790de..11a02e2 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -123,6 +123,12 @@ impl ProcessedAccountStore {
         }
     }
 
+    pub fn contains(&self, account_pk: &Pubkey) -> bool {
+        let lk = self.processed_slot_accounts.read().unwrap();
+        lk.values()
+            .any(|slot| slot.processed_accounts.contains_key(account_pk))
+    }
+
     pub fn update_slot_info(&self, slot_info: SlotInfo) {
         log::debug!(
             "update slot info slot : {}, parent: {}, root: {}",
@@ -377,12 +383,10 @@ impl TokenProgramAccountsStorage {
             }
             TokenProgramAccountType::Deleted(account_pk) => {
                 let mint_index = self.mints_index_by_pubkey.get(&account_pk).map(|x| *x);
-                if let Some(index) = mint_index {
-                    // index of the mint is kept because there can be token accounts of a closed mint
-                    if self.mints_by_index.remove(&index).is_some() {
-                        TOKEN_MINTS_IN_MEMORY.dec();
-                    }
-                } else if self.mints_index_by_pubkey.remove(&account_pk).is_some() {
+                // index of the mint is kept because there can be token accounts of a closed mint
+                if mint_index.is_some_and(|index| self.mints_by_index.remove(&index).is_some()) {
+                    TOKEN_MINTS_IN_MEMORY.dec();
+                } else if self.multisigs.remove(&account_pk).is_some() {
                     // do nothing multisig account is removed
                 } else {
                     self.token_accounts_storage.delete(&account_pk);
@@ -419,6 +423,8 @@ impl TokenProgramAccountsStorage {
                 .token_accounts_storage
                 .contains(&account_data.pubkey)
                 .is_some()
+            // account could be closed before its creation is finalized
+            || self.processed_storage.contains(&account_data.pubkey)
     }
 
     pub fn get_account_finalized(&self, account_pk: Pubkey) -> Option<AccountData> {
-- 
2.43.0


From 6fef250cf849d9d7c5cd179674a12c25f2149fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:05 +0000
Subject: [PATCH 15/38] fix: token program queries should follow owner and mint
 changes and apply all filters

---
 .../src/inmemory_token_storage.rs             | 104 +++++++++---------
 1 file changed, 50 insertions(+), 54 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 11a02e2..2ba120b 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -343,37 +343,7 @@ impl TokenProgramAccountsStorage {
     pub fn add_account_finalized(&self, account: TokenProgramAccountType) -> bool {
         match account {
             TokenProgramAccountType::TokenAccount(token_account) => {
-                let token_account_owner = token_account.owner;
-                let mint_index = token_account.mint;
-                let (token_index, is_added) =
-                    self.token_accounts_storage.save_or_update(token_account);
-                if is_added {
-                    // add account to the indexes
-                    // add account index in accounts_index_by_mint map
-                    match self.accounts_index_by_mint.entry(mint_index) {
-                        dashmap::mapref::entry::Entry::Occupied(mut occ) => {
-                            occ.get_mut().push_back(token_index);
-                        }
-                        dashmap::mapref::entry::Entry::Vacant(v) => {
-                            let mut q = VecDeque::new();
-                            q.push_back(token_index);
-                            v.insert(q);
-                        }
-                    }
-
-                    // add account index in account_by_owner_pubkey map
-                    match self
-                        .account_by_owner_pubkey
-                        .entry(token_account_owner.into())
-                    {
-                        dashmap::mapref::entry::Entry::Occupied(mut occ) => {
-                            occ.get_mut().push(token_index);
-                        }
-                        dashmap::mapref::entry::Entry::Vacant(v) => {
-                            v.insert(vec![token_index]);
-                        }
-                    }
-                }
+                self.save_token_account(token_account);
             }
             TokenProgramAccountType::Mint(mint_data) => {
                 self.add_mint(mint_data);
@@ -396,6 +366,44 @@ impl TokenProgramAccountsStorage {
         true
     }
 
+    // saves token account and updates the indexes by mint and by owner
+    fn save_token_account(&self, token_account: TokenAccount) {
+        let owner = token_account.owner;
+        let mint_index = token_account.mint;
+        let previous = self
+            .token_accounts_storage
+            .get_by_pubkey(&token_account.pubkey);
+        let (token_index, is_added) = self.token_accounts_storage.save_or_update(token_account);
+        // indexes should be updated if owner or mint of an existing account changes
+        let previous = previous.filter(|_| !is_added);
+
+        if previous.as_ref().map(|x| x.mint) != Some(mint_index) {
+            self.accounts_index_by_mint
+                .entry(mint_index)
+                .or_default()
+                .push_back(token_index);
+            if let Some(previous) = &previous {
+                if let Some(mut indexes) = self.accounts_index_by_mint.get_mut(&previous.mint) {
+                    indexes.retain(|x| *x != token_index);
+                }
+            }
+        }
+
+        let partial_owner: InmemoryPubkey = owner.into();
+        let previous_owner = previous.map(|x| InmemoryPubkey::from(x.owner));
+        if previous_owner != Some(partial_owner) {
+            self.account_by_owner_pubkey
+                .entry(partial_owner)
+                .or_default()
+                .push(token_index);
+            if let Some(previous_owner) = previous_owner {
+                if let Some(mut indexes) = self.account_by_owner_pubkey.get_mut(&previous_owner) {
+                    indexes.retain(|x| *x != token_index);
+                }
+            }
+        }
+    }
+
     fn add_mint(&self, mint_account: MintAccount) -> MintIndex {
         let mint_index = get_or_create_mint_index(
             mint_account.pubkey,
@@ -682,7 +690,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         }
         // get all accounts for finalized commitment and update them if necessary
         let mut account_data =
-            self.get_program_accounts_finalized(program_pubkey, account_filters)?;
+            self.get_program_accounts_finalized(program_pubkey, account_filters.clone())?;
         let confirmed_slot = self.confirmed_slot.load(Ordering::Relaxed);
         if commitment == Commitment::Processed || commitment == Commitment::Confirmed {
             // get list of all pks to search
@@ -716,6 +724,15 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                 account_data.remove(*index);
             }
         }
+        // recheck program and filters, as the indexes are not exact and the state could have changed
+        account_data.retain(|account| {
+            let data = account.account.data.data();
+            account.account.owner == program_pubkey
+                && account_filters
+                    .iter()
+                    .flatten()
+                    .all(|filter| filter.allows(&data))
+        });
         Ok(account_data)
     }
 
@@ -834,28 +851,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             let mut token_account = TokenAccount::from_bytes(&token_account_bytes);
             let new_mint_index = *mint_mapping.get(&token_account.mint).unwrap();
             token_account.mint = new_mint_index;
-            let owner = token_account.owner;
-            let (index, is_added) = self.token_accounts_storage.save_or_update(token_account);
-            if is_added {
-                match self.account_by_owner_pubkey.get_mut(&owner.into()) {
-                    Some(mut accs) => accs.push(index),
-                    None => {
-                        self.account_by_owner_pubkey
-                            .insert(owner.into(), vec![index]);
-                    }
-                }
-
-                match self.accounts_index_by_mint.get_mut(&new_mint_index) {
-                    Some(mut accs) => {
-                        accs.push_back(index);
-                    }
-                    None => {
-                        let mut q = VecDeque::new();
-                        q.push_back(index);
-                        self.accounts_index_by_mint.insert(new_mint_index, q);
-                    }
-                }
-            }
+            self.save_token_account(token_account);
         }
 
         Ok(())
-- 
2.43.0


From 9ed9ee18d7789c2289e13f4c7b1755b2a13b59a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 16/38] fix: token snapshots should be loadable, limited to
 their program and checked before loading

- compressed snapshot lacked the size, which is needed to decompress it
- mints of token accounts are part of the snapshot, as the mint account may be unknown or closed
- multisigs of the other program are not part of the snapshot
- malformed snapshot is an error instead of a panic and does not change the storage
---
 token_account_storage/src/account_types.rs    | 59 +++++++++++--------
 .../src/inmemory_token_storage.rs             | 57 ++++++++++++++----
 2 files changed, 81 insertions(+), 35 deletions(-)

diff --git a/token_account_storage/src/account_types.rs b/token_account_storage/src/account_types.rs
index 78a556b..3caa2d5 100644
--- a/token_account_storage/src/account_types.rs
+++ b/token_account_storage/src/account_types.rs
@@ -177,21 +177,33 @@ impl TokenAccount {
     }
 
     pub fn from_bytes(v: &[u8]) -> TokenAccount {
-        let header: [u8; 78] = v[0..78].try_into().unwrap();
-        let mut others = &v[78..];
+        Self::try_from_bytes(v).expect("should be a serialized token account")
+    }
+
+    // returns none if bytes are not a serialized token account
+    pub fn try_from_bytes(v: &[u8]) -> Option<TokenAccount> {
+        if v.len() < 78 {
+            return None;
+        }
+        let (header, mut others) = v.split_at(78);
         let (bit_flags, is_deleted, pubkey, owner, mint_index, amount) =
-            arrayref::array_refs![&header, 1, 1, 32, 32, 4, 8];
+            arrayref::array_refs![arrayref::array_ref![header, 0, 78], 1, 1, 32, 32, 4, 8];
         let bit_flags = bit_flags[0];
-        let program = match bit_flags & 0x1 {
+        let program = match bit_flags & 0x3 {
             0 => Program::TokenProgram,
             1 => Program::Token2022Program,
-            _ => unreachable!(),
+            _ => return None,
         };
         let state = match (bit_flags >> 2) & 0x3 {
             INITIALIZED_STATE_BITS => TokenProgramAccountState::Initialized,
             FROZEN_STATE_BITS => TokenProgramAccountState::Frozen,
             UNITITIALIZED_STATE_BITS => TokenProgramAccountState::Uninitialized,
-            _ => unreachable!(),
+            _ => return None,
+        };
+        let is_deleted = match is_deleted[0] {
+            0 => false,
+            1 => true,
+            _ => return None,
         };
         let has_delegate = (bit_flags >> 4) & 0x1 == 0x1;
         let has_native = (bit_flags >> 5) & 0x1 == 0x1;
@@ -199,45 +211,35 @@ impl TokenAccount {
         let has_additional_data = (bit_flags >> 7) & 0x1 == 0x1;
 
         let delegate = if has_delegate {
-            let delegate_bytes: &[u8; 32 + 8] = others[..32 + 8].try_into().unwrap();
-            others = &others[32 + 8..];
-            let delegate_pk = Pubkey::new_from_array(*arrayref::array_ref![delegate_bytes, 0, 32]);
-            let amount = u64::from_le_bytes(*arrayref::array_ref![delegate_bytes, 32, 8]);
+            let delegate_pk = Pubkey::new_from_array(take_bytes(&mut others)?);
+            let amount = u64::from_le_bytes(take_bytes(&mut others)?);
             Some((delegate_pk, amount))
         } else {
             None
         };
 
         let is_native = if has_native {
-            let native_bytes = *arrayref::array_ref![others, 0, 8];
-            others = &others[8..];
-            Some(u64::from_le_bytes(native_bytes))
+            Some(u64::from_le_bytes(take_bytes(&mut others)?))
         } else {
             None
         };
 
         let close_authority = if has_close_authority {
-            let native_bytes = *arrayref::array_ref![others, 0, 32];
-            others = &others[32..];
-            Some(Pubkey::new_from_array(native_bytes))
+            Some(Pubkey::new_from_array(take_bytes(&mut others)?))
         } else {
             None
         };
 
         let additional_data = if has_additional_data {
-            let native_bytes = *arrayref::array_ref![others, 0, 4];
-            Some(others[4..4 + u32::from_le_bytes(native_bytes) as usize].to_vec())
+            let size = u32::from_le_bytes(take_bytes(&mut others)?);
+            Some(others.get(..size as usize)?.to_vec())
         } else {
             None
         };
 
-        TokenAccount {
+        Some(TokenAccount {
             program,
-            is_deleted: match is_deleted[0] {
-                0 => false,
-                1 => true,
-                _ => unreachable!(),
-            },
+            is_deleted,
             pubkey: Pubkey::new_from_array(*pubkey),
             owner: Pubkey::new_from_array(*owner),
             mint: u32::from_le_bytes(*mint_index),
@@ -247,7 +249,7 @@ impl TokenAccount {
             is_native,
             close_authority,
             additional_data,
-        }
+        })
     }
 
     pub fn get_pubkey_from_binary(binary: &[u8]) -> Pubkey {
@@ -266,6 +268,13 @@ impl TokenAccount {
     }
 }
 
+// takes first N bytes out of the slice
+fn take_bytes<const N: usize>(bytes: &mut &[u8]) -> Option<[u8; N]> {
+    let taken = bytes.get(..N)?.try_into().ok()?;
+    *bytes = &bytes[N..];
+    Some(taken)
+}
+
 #[cfg(test)]
 mod test {
     use itertools::Itertools;
diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 2ba120b..9b26d11 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -585,6 +585,8 @@ struct TokenProgramSnapshot {
     pub mints: Vec<(MintIndex, MintAccount)>,
     pub multisigs: Vec<MultiSig>,
     pub token_accounts: Vec<Vec<u8>>,
+    // mints of the token accounts, mint account itself may not be known
+    pub mint_pubkeys: Vec<(MintIndex, Pubkey)>,
 }
 
 impl AccountStorageInterface for TokenProgramAccountsStorage {
@@ -802,20 +804,33 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             })
             .collect_vec();
 
-        let multisigs = self.multisigs.iter().map(|ite| ite.clone()).collect_vec();
+        let multisigs = self
+            .multisigs
+            .iter()
+            .filter(|multisig| multisig.program == program)
+            .map(|ite| ite.clone())
+            .collect_vec();
         let token_accounts = self.token_accounts_storage.create_snapshot(program)?;
+        let mint_pubkeys = token_accounts
+            .iter()
+            .map(|bytes| TokenAccount::get_mint_index_from_binary(bytes))
+            .unique()
+            .filter_map(|index| self.mint_pubkey_by_index.get(&index).map(|pk| (index, *pk)))
+            .collect_vec();
 
         let snapshot = TokenProgramSnapshot {
             mints,
             multisigs,
             token_accounts,
+            mint_pubkeys,
         };
         let binary = bincode::serialize(&snapshot).unwrap();
         drop(snapshot);
         lz4::block::compress(
             &binary,
             Some(lz4::block::CompressionMode::HIGHCOMPRESSION(8)),
-            false,
+            // size is needed to decompress
+            true,
         )
         .map_err(|_| AccountLoadingError::CompressionIssues)
     }
@@ -834,23 +849,45 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             mints,
             multisigs,
             token_accounts,
+            mint_pubkeys,
         } = snapshot;
 
+        // check everything before changing the storage
+        let mint_pubkeys = mint_pubkeys
+            .into_iter()
+            .collect::<HashMap<MintIndex, Pubkey>>();
+        let token_accounts = token_accounts
+            .iter()
+            .map(|bytes| {
+                let token_account = TokenAccount::try_from_bytes(bytes)?;
+                let mint = *mint_pubkeys.get(&token_account.mint)?;
+                Some((token_account, mint))
+            })
+            .collect::<Option<Vec<_>>>()
+            .ok_or(AccountLoadingError::DeserializationIssues)?;
+        if multisigs
+            .iter()
+            .any(|multisig| multisig.signers.len() > spl_token::instruction::MAX_SIGNERS)
+        {
+            return Err(AccountLoadingError::DeserializationIssues);
+        }
+
         for multisig in multisigs {
             self.multisigs.insert(multisig.pubkey, multisig);
         }
 
-        let mut mint_mapping = HashMap::<MintIndex, MintIndex>::new();
-        // remap all the mints
-        for (index, mint_account) in mints {
-            mint_mapping.insert(index, self.add_mint(mint_account));
+        for (_, mint_account) in mints {
+            self.add_mint(mint_account);
         }
 
-        for token_account_bytes in token_accounts {
+        for (mut token_account, mint) in token_accounts {
             // use the new mint index
-            let mut token_account = TokenAccount::from_bytes(&token_account_bytes);
-            let new_mint_index = *mint_mapping.get(&token_account.mint).unwrap();
-            token_account.mint = new_mint_index;
+            token_account.mint = get_or_create_mint_index(
+                mint,
+                &self.mints_index_by_pubkey,
+                &self.mint_pubkey_by_index,
+                &self.mint_counter,
+            );
             self.save_token_account(token_account);
         }
 
-- 
2.43.0


From 0e6f88107fb16e682ee8e0ba5e7a1c8d4556376b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:00 +0000
Subject: [PATCH 17/38] fix: accounts should not be missing or outdated while a
 slot is finalized in the token storage

---
 .../src/inmemory_token_storage.rs             | 106 +++++++++++-------
 1 file changed, 64 insertions(+), 42 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 9b26d11..6a3629a 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -2,7 +2,7 @@ use std::{
     collections::{BTreeMap, HashMap, HashSet, VecDeque},
     sync::{
         atomic::{AtomicU32, AtomicU64, Ordering},
-        Arc, RwLock,
+        Arc, RwLock, RwLockReadGuard,
     },
 };
 
@@ -52,12 +52,19 @@ struct ProcessedAccountBySlot {
     pub slot_parent: Option<u64>,
 }
 
+type ProcessedSlots = BTreeMap<u64, ProcessedAccountBySlot>;
+
 #[derive(Default, Clone)]
 struct ProcessedAccountStore {
-    processed_slot_accounts: Arc<RwLock<BTreeMap<u64, ProcessedAccountBySlot>>>,
+    processed_slot_accounts: Arc<RwLock<ProcessedSlots>>,
 }
 
 impl ProcessedAccountStore {
+    // while the lock is held no account is finalized
+    pub fn read(&self) -> RwLockReadGuard<'_, ProcessedSlots> {
+        self.processed_slot_accounts.read().unwrap()
+    }
+
     pub fn insert_account(
         &self,
         account_pk: Pubkey,
@@ -181,8 +188,13 @@ impl ProcessedAccountStore {
         }
     }
 
-    // returns list of accounts that are finalized
-    pub fn finalize(&self, slot: u64) -> Vec<(ProcessedAccount, u64)> {
+    // gives list of accounts that are finalized to the callback and returns its result
+    // processed accounts are locked until callback returns so that an account which is being finalized is never missing
+    pub fn finalize<T>(
+        &self,
+        slot: u64,
+        on_finalized: impl FnOnce(Vec<(ProcessedAccount, u64)>) -> T,
+    ) -> T {
         log::debug!("finalizing slot : {slot}");
         let mut map_of_accounts: HashMap<Pubkey, (ProcessedAccount, u64)> = HashMap::new();
         let mut lk = self.processed_slot_accounts.write().unwrap();
@@ -226,17 +238,16 @@ impl ProcessedAccountStore {
         for (_, acc) in map_of_accounts.drain() {
             return_vec.push(acc);
         }
-        return_vec
+        on_finalized(return_vec)
     }
 
     pub fn get_confirmed_accounts(
-        &self,
+        lk: &ProcessedSlots,
         account_pks: Vec<Pubkey>,
         return_list: &mut [Option<(ProcessedAccount, u64)>],
         confirmed_slot: Slot,
     ) {
         let mut process_slot = Some(confirmed_slot);
-        let lk = self.processed_slot_accounts.read().unwrap();
         while let Some(current_slot) = process_slot {
             match lk.get(&current_slot) {
                 Some(processed_accounts) => {
@@ -262,7 +273,7 @@ impl ProcessedAccountStore {
     }
 
     pub fn get_accounts(
-        &self,
+        lk: &ProcessedSlots,
         account_pks: Vec<Pubkey>,
         commitment: Commitment,
         confirmed_slot: Slot,
@@ -270,7 +281,6 @@ impl ProcessedAccountStore {
         let mut return_list = vec![None; account_pks.len()];
         match commitment {
             Commitment::Processed => {
-                let lk = self.processed_slot_accounts.read().unwrap();
                 // iterate backwards on all the processed slots until we reach confirmed slot
                 for (slot, processed_account_slots) in lk.iter().rev() {
                     log::debug!("getting processed account at slot : {}", slot);
@@ -291,14 +301,18 @@ impl ProcessedAccountStore {
                             break;
                         }
                     } else {
-                        drop(lk);
-                        self.get_confirmed_accounts(account_pks, &mut return_list, confirmed_slot);
+                        Self::get_confirmed_accounts(
+                            lk,
+                            account_pks,
+                            &mut return_list,
+                            confirmed_slot,
+                        );
                         return return_list;
                     }
                 }
             }
             Commitment::Confirmed => {
-                self.get_confirmed_accounts(account_pks, &mut return_list, confirmed_slot)
+                Self::get_confirmed_accounts(lk, account_pks, &mut return_list, confirmed_slot)
             }
             Commitment::Finalized => unreachable!(),
         };
@@ -658,15 +672,15 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         log::debug!("get account : {}", account_pk.to_string());
         match commitment {
             Commitment::Confirmed | Commitment::Processed => {
-                match self
-                    .processed_storage
-                    .get_accounts(
-                        vec![account_pk],
-                        commitment,
-                        self.confirmed_slot.load(Ordering::Relaxed),
-                    )
-                    .first()
-                    .unwrap()
+                let processed_slots = self.processed_storage.read();
+                match ProcessedAccountStore::get_accounts(
+                    &processed_slots,
+                    vec![account_pk],
+                    commitment,
+                    self.confirmed_slot.load(Ordering::Relaxed),
+                )
+                .first()
+                .unwrap()
                 {
                     Some((processed_account, slot)) => Ok(token_program_account_to_solana_account(
                         &processed_account.processed_account,
@@ -690,16 +704,22 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         if program_pubkey != spl_token::id() && program_pubkey != spl_token_2022::id() {
             return Err(AccountLoadingError::WrongIndex);
         }
+        // accounts should not be finalized between the two lookups
+        let processed_slots =
+            (commitment != Commitment::Finalized).then(|| self.processed_storage.read());
         // get all accounts for finalized commitment and update them if necessary
         let mut account_data =
             self.get_program_accounts_finalized(program_pubkey, account_filters.clone())?;
         let confirmed_slot = self.confirmed_slot.load(Ordering::Relaxed);
-        if commitment == Commitment::Processed || commitment == Commitment::Confirmed {
+        if let Some(processed_slots) = processed_slots {
             // get list of all pks to search
             let pks = account_data.iter().map(|x| x.pubkey).collect_vec();
-            let processed_accounts =
-                self.processed_storage
-                    .get_accounts(pks, commitment, confirmed_slot);
+            let processed_accounts = ProcessedAccountStore::get_accounts(
+                &processed_slots,
+                pks,
+                commitment,
+                confirmed_slot,
+            );
             let mut to_remove = vec![];
             for (index, processed_account) in processed_accounts.iter().enumerate() {
                 if let Some((processed_account, slot)) = processed_account {
@@ -748,8 +768,9 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             Commitment::Confirmed => {
                 log::debug!("confirm slot data  : {slot_info:?}");
                 if self.confirmed_slot.load(Ordering::Relaxed) < slot_info.slot {
-                    self.confirmed_slot.store(slot_info.slot, Ordering::Relaxed);
+                    // parent should be known before the slot is used by the readers
                     self.processed_storage.update_slot_info(slot_info);
+                    self.confirmed_slot.store(slot_info.slot, Ordering::Relaxed);
                 }
                 self.processed_storage
                     .get_processed_for_slot(slot_info, &self.mint_pubkey_by_index)
@@ -762,23 +783,24 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                 }
 
                 // move data from processed storage to main storage
-                let finalized_accounts = self.processed_storage.finalize(slot_info.slot);
-
-                let accounts_notifications = finalized_accounts
-                    .iter()
-                    .filter_map(|(acc, slot)| {
-                        token_program_account_to_solana_account(
-                            &acc.processed_account,
-                            *slot,
-                            acc.write_version,
-                            &self.mint_pubkey_by_index,
-                        )
+                self.processed_storage
+                    .finalize(slot_info.slot, |finalized_accounts| {
+                        let accounts_notifications = finalized_accounts
+                            .iter()
+                            .filter_map(|(acc, slot)| {
+                                token_program_account_to_solana_account(
+                                    &acc.processed_account,
+                                    *slot,
+                                    acc.write_version,
+                                    &self.mint_pubkey_by_index,
+                                )
+                            })
+                            .collect_vec();
+                        for (finalized_account, _) in finalized_accounts {
+                            self.add_account_finalized(finalized_account.processed_account);
+                        }
+                        accounts_notifications
                     })
-                    .collect_vec();
-                for (finalized_account, _) in finalized_accounts {
-                    self.add_account_finalized(finalized_account.processed_account);
-                }
-                accounts_notifications
             }
         }
     }
-- 
2.43.0


From d5cda76ddd5dc9d0b35616e4a5c6a5288ca97cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:26 +0000
Subject: [PATCH 18/38] fix: filter of an account loaded on demand should be
 registered

---
 accounts_on_demand/src/accounts_on_demand.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/accounts_on_demand/src/accounts_on_demand.rs b/accounts_on_demand/src/accounts_on_demand.rs
index e288591..5728d38 100644
--- a/accounts_on_demand/src/accounts_on_demand.rs
+++ b/accounts_on_demand/src/accounts_on_demand.rs
@@ -104,6 +104,7 @@ impl AccountStorageInterface for AccountsOnDemand {
                                 program_id: None,
                                 filters: None,
                             }];
+                            self.mutable_filters.add_account_filters(&account_filter);
                             self.accounts_source
                                 .save_snapshot(self.accounts_storage.clone(), account_filter)
                                 .map_err(|_| AccountLoadingError::ErrorCreatingSnapshot)?;
-- 
2.43.0


From 3de708a45680b979c3819584b5dd66ba6e05f16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:53 +0000
Subject: [PATCH 19/38] fix: failed or running loads of accounts on demand
 should not be treated as loaded

---
 accounts_on_demand/src/accounts_on_demand.rs | 249 ++++++++++---------
 1 file changed, 135 insertions(+), 114 deletions(-)

diff --git a/accounts_on_demand/src/accounts_on_demand.rs b/accounts_on_demand/src/accounts_on_demand.rs
index 5728d38..691c815 100644
--- a/accounts_on_demand/src/accounts_on_demand.rs
+++ b/accounts_on_demand/src/accounts_on_demand.rs
@@ -6,13 +6,14 @@ use lite_account_manager_common::{
     accounts_source_interface::AccountsSourceInterface,
     commitment::Commitment,
     mutable_filter_store::MutableFilterStore,
+    simple_filter_store::SimpleFilterStore,
     slot_info::SlotInfo,
 };
 use prometheus::{opts, register_int_gauge, IntGauge};
 use solana_sdk::pubkey::Pubkey;
 use std::sync::Condvar;
 use std::{
-    collections::{BTreeMap, HashMap, HashSet},
+    collections::HashSet,
     sync::{Arc, Mutex},
     time::Duration,
 };
@@ -25,14 +26,85 @@ lazy_static::lazy_static! {
         register_int_gauge!(opts!("lite_account_manager_number_of_program_filters_on_demand", "Number of program filters on demand")).unwrap();
 }
 
-type GpaAccountKey = (Pubkey, Vec<AccountFilterType>);
+const LOADING_TIMEOUT: Duration = Duration::from_secs(10);
+
+// result of a load which can be shared between all the callers waiting for it
+#[derive(Default)]
+struct Loading {
+    result: Mutex<Option<Result<(), AccountLoadingError>>>,
+    notify: Condvar,
+}
+
+impl Loading {
+    pub fn finish(&self, result: Result<(), AccountLoadingError>) {
+        *self.result.lock().unwrap() = Some(result);
+        self.notify.notify_all();
+    }
+
+    pub fn wait(&self) -> Result<(), AccountLoadingError> {
+        let lk = self.result.lock().unwrap();
+        let (result, _) = self
+            .notify
+            .wait_timeout_while(lk, LOADING_TIMEOUT, |result| result.is_none())
+            .unwrap();
+        (*result).unwrap_or(Err(AccountLoadingError::OperationTimeOut))
+    }
+}
+
+#[derive(Default)]
+struct LoadingState {
+    in_progress: Vec<(AccountFilter, Arc<Loading>)>,
+    // filters that were registered but could not be loaded
+    failed: Vec<AccountFilter>,
+    loaded: SimpleFilterStore,
+}
+
+impl LoadingState {
+    fn covers(filter: &AccountFilter, query: &AccountFilter) -> bool {
+        let mut filter_store = SimpleFilterStore::default();
+        filter_store.add_account_filter(filter);
+        filter_store.contains_filter(query)
+    }
+
+    pub fn is_loaded(&self, query: &AccountFilter, mutable_filters: &MutableFilterStore) -> bool {
+        // filters are registered before they are loaded
+        self.loaded.contains_filter(query)
+            || mutable_filters.contains_filter(query)
+                && !self
+                    .in_progress
+                    .iter()
+                    .map(|(filter, _)| filter)
+                    .chain(self.failed.iter())
+                    .any(|filter| Self::covers(filter, query))
+    }
+
+    pub fn get_in_progress(&self, query: &AccountFilter) -> Option<Arc<Loading>> {
+        self.in_progress
+            .iter()
+            .find(|(filter, _)| Self::covers(filter, query))
+            .map(|(_, loading)| loading.clone())
+    }
+
+    pub fn finish(
+        &mut self,
+        loading: &Arc<Loading>,
+        filter: &AccountFilter,
+        result: Result<(), AccountLoadingError>,
+    ) {
+        self.in_progress.retain(|(_, x)| !Arc::ptr_eq(x, loading));
+        self.failed.retain(|x| x != filter);
+        match result {
+            Ok(()) => self.loaded.add_account_filter(filter),
+            Err(_) => self.failed.push(filter.clone()),
+        }
+    }
+}
 
 pub struct AccountsOnDemand {
     accounts_source: Arc<dyn AccountsSourceInterface>,
     mutable_filters: Arc<MutableFilterStore>,
     accounts_storage: Arc<dyn AccountStorageInterface>,
-    accounts_in_loading: Arc<Mutex<HashMap<Pubkey, Arc<Condvar>>>>,
-    gpa_in_loading: Arc<Mutex<BTreeMap<GpaAccountKey, Arc<Condvar>>>>,
+    loading_state: Arc<Mutex<LoadingState>>,
 }
 
 impl AccountsOnDemand {
@@ -45,10 +117,55 @@ impl AccountsOnDemand {
             accounts_source,
             mutable_filters,
             accounts_storage: accounts_storage.clone(),
-            accounts_in_loading: Arc::new(Mutex::new(HashMap::new())),
-            gpa_in_loading: Arc::new(Mutex::new(BTreeMap::new())),
+            loading_state: Arc::new(Mutex::new(LoadingState::default())),
         }
     }
+
+    // loads the filter or waits for the running load if it is not yet loaded
+    fn load_if_required(&self, filter: AccountFilter) -> Result<(), AccountLoadingError> {
+        let loading = {
+            let mut state = self.loading_state.lock().unwrap();
+            if state.is_loaded(&filter, &self.mutable_filters) {
+                return Ok(());
+            }
+            if let Some(loading) = state.get_in_progress(&filter) {
+                drop(state);
+                return loading.wait();
+            }
+            let loading = Arc::new(Loading::default());
+            state.in_progress.push((filter.clone(), loading.clone()));
+            loading
+        };
+
+        let result = self.load(&filter);
+        self.loading_state
+            .lock()
+            .unwrap()
+            .finish(&loading, &filter, result);
+        loading.finish(result);
+        result
+    }
+
+    fn load(&self, filter: &AccountFilter) -> Result<(), AccountLoadingError> {
+        log::debug!("subscribing to updates : {:?}", filter);
+        match filter.program_id {
+            Some(program_id) => self
+                .accounts_source
+                .subscribe_program_accounts(program_id, filter.filters.clone()),
+            None => self
+                .accounts_source
+                .subscribe_accounts(filter.accounts.iter().cloned().collect::<HashSet<_>>()),
+        }
+        .map_err(|_| AccountLoadingError::ErrorSubscribingAccount)?;
+
+        let account_filters = vec![filter.clone()];
+        self.mutable_filters.add_account_filters(&account_filters);
+
+        // save snapshot
+        self.accounts_source
+            .save_snapshot(self.accounts_storage.clone(), account_filters)
+            .map_err(|_| AccountLoadingError::ErrorCreatingSnapshot)
+    }
 }
 
 impl AccountStorageInterface for AccountsOnDemand {
@@ -73,54 +190,12 @@ impl AccountStorageInterface for AccountsOnDemand {
                 // account does not exist in account store
                 // first check if we have already subscribed to the required account
                 // This is to avoid resetting geyser subscription because of accounts that do not exists.
-                let mut lk = self.accounts_in_loading.lock().unwrap();
-                match lk.get(&account_pk).cloned() {
-                    Some(loading_account) => {
-                        match loading_account.wait_timeout(lk, Duration::from_secs(10)) {
-                            Ok(_) => self.accounts_storage.get_account(account_pk, commitment),
-                            Err(_timeout) => Err(AccountLoadingError::OperationTimeOut),
-                        }
-                    }
-                    None => {
-                        // account is not loading
-                        if self.mutable_filters.contains_account(account_pk) {
-                            // account was already tried to be loaded but does not exists
-                            Ok(None)
-                        } else {
-                            // update account loading map
-                            // create a notify for accounts under loading
-                            lk.insert(account_pk, Arc::new(Condvar::new()));
-                            log::debug!("subscribing to accounts update : {}", account_pk);
-                            let mut hash_set = HashSet::new();
-                            hash_set.insert(account_pk);
-                            self.accounts_source
-                                .subscribe_accounts(hash_set)
-                                .map_err(|_| AccountLoadingError::ErrorSubscribingAccount)?;
-                            drop(lk);
-
-                            // save snapshot
-                            let account_filter = vec![AccountFilter {
-                                accounts: vec![account_pk],
-                                program_id: None,
-                                filters: None,
-                            }];
-                            self.mutable_filters.add_account_filters(&account_filter);
-                            self.accounts_source
-                                .save_snapshot(self.accounts_storage.clone(), account_filter)
-                                .map_err(|_| AccountLoadingError::ErrorCreatingSnapshot)?;
-                            // update loading lock
-                            {
-                                let mut write_lock = self.accounts_in_loading.lock().unwrap();
-                                let notify = write_lock.remove(&account_pk);
-                                drop(write_lock);
-                                if let Some(notify) = notify {
-                                    notify.notify_all();
-                                }
-                            }
-                            self.accounts_storage.get_account(account_pk, commitment)
-                        }
-                    }
-                }
+                self.load_if_required(AccountFilter {
+                    accounts: vec![account_pk],
+                    program_id: None,
+                    filters: None,
+                })?;
+                self.accounts_storage.get_account(account_pk, commitment)
             }
         }
     }
@@ -131,69 +206,15 @@ impl AccountStorageInterface for AccountsOnDemand {
         filters: Option<Vec<AccountFilterType>>,
         commitment: Commitment,
     ) -> Result<Vec<AccountData>, AccountLoadingError> {
-        let account_filter = AccountFilter {
+        // accounts on demand will fetch gPA if they do not exist
+        // it will first compare with existing filters and do the necessary if needed
+        self.load_if_required(AccountFilter {
             accounts: vec![],
             program_id: Some(program_id),
             filters: filters.clone(),
-        };
-        // accounts on demand will fetch gPA if they do not exist
-        // it will first compare with existing filters and do the necessary if needed
-        if self.mutable_filters.contains_filter(&account_filter) {
-            self.accounts_storage
-                .get_program_accounts(program_id, filters.clone(), commitment)
-        } else {
-            // subsribing to new gpa accounts
-            let mut lk = self.gpa_in_loading.lock().unwrap();
-            match lk
-                .get(&(program_id, filters.clone().unwrap_or_default()))
-                .cloned()
-            {
-                Some(loading_account) => {
-                    match loading_account.wait_timeout(lk, Duration::from_secs(10)) {
-                        Ok(_) => self.accounts_storage.get_program_accounts(
-                            program_id,
-                            filters.clone(),
-                            commitment,
-                        ),
-                        Err(_timeout) => {
-                            // todo replace with error
-                            log::error!("gPA on program : {}", program_id.to_string());
-                            Err(AccountLoadingError::OperationTimeOut)
-                        }
-                    }
-                }
-                None => {
-                    // update account loading map
-                    // create a notify for accounts under loading
-                    lk.insert(
-                        (program_id, filters.clone().unwrap_or_default()),
-                        Arc::new(Condvar::new()),
-                    );
-                    self.accounts_source
-                        .subscribe_program_accounts(program_id, filters.clone())
-                        .map_err(|_| AccountLoadingError::ErrorSubscribingAccount)?;
-                    drop(lk);
-                    self.mutable_filters
-                        .add_account_filters(&vec![account_filter.clone()]);
-
-                    self.accounts_source
-                        .save_snapshot(self.accounts_storage.clone(), vec![account_filter])
-                        .map_err(|_| AccountLoadingError::ErrorCreatingSnapshot)?;
-                    // update loading lock
-                    {
-                        let mut write_lock = self.gpa_in_loading.lock().unwrap();
-                        let notify =
-                            write_lock.remove(&(program_id, filters.clone().unwrap_or_default()));
-                        drop(write_lock);
-                        if let Some(notify) = notify {
-                            notify.notify_all();
-                        }
-                    }
-                    self.accounts_storage
-                        .get_program_accounts(program_id, filters, commitment)
-                }
-            }
-        }
+        })?;
+        self.accounts_storage
+            .get_program_accounts(program_id, filters, commitment)
     }
 
     fn process_slot_data(&self, slot_info: SlotInfo, commitment: Commitment) -> Vec<AccountData> {
-- 
2.43.0


From be508bedf11235b0a64b83d00f227ad957274557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:21 +0000
Subject: [PATCH 20/38] fix: short read of an AppendVec should be an error

---
 .../src/snapshot_utils/append_vec.rs                  | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/simulate_from_snapshot/src/snapshot_utils/append_vec.rs b/simulate_from_snapshot/src/snapshot_utils/append_vec.rs
index 53585e6..d967bdf 100644
--- a/simulate_from_snapshot/src/snapshot_utils/append_vec.rs
+++ b/simulate_from_snapshot/src/snapshot_utils/append_vec.rs
@@ -161,7 +161,16 @@ impl AppendVec {
         slot: u64,
     ) -> io::Result<Self> {
         let mut map = MmapMut::map_anon(current_len)?;
-        io::copy(&mut reader.take(current_len as u64), &mut map.as_mut())?;
+        let copied = io::copy(&mut reader.take(current_len as u64), &mut map.as_mut())?;
+        if copied != current_len as u64 {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::UnexpectedEof,
+                format!(
+                    "AppendVec of {} bytes ended after {} bytes",
+                    current_len, copied
+                ),
+            ));
+        }
         Ok(AppendVec {
             map: map.make_read_only()?,
             current_len,
-- 
2.43.0


From 3119791fbc89c9c7c79df3a9b33544e9d958b058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:52 +0000
Subject: [PATCH 21/38] fix: errors of account files of an unpacked snapshot
 should not be dropped

---
 simulate_from_snapshot/src/snapshot_utils/unpacked.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulate_from_snapshot/src/snapshot_utils/unpacked.rs b/simulate_from_snapshot/src/snapshot_utils/unpacked.rs
index 780e9b9..37fa814 100644
--- a/simulate_from_snapshot/src/snapshot_utils/unpacked.rs
+++ b/simulate_from_snapshot/src/snapshot_utils/unpacked.rs
@@ -86,7 +86,7 @@ impl UnpackedSnapshotExtractor {
     pub fn unboxed_iter(&self) -> impl Iterator<Item = SnapshotResult<AppendVec>> + '_ {
         std::iter::once(self.iter_streams())
             .flatten_ok()
-            .flatten_ok()
+            .map(|append_vec| append_vec?)
     }
 
     fn iter_streams(&self) -> SnapshotResult<impl Iterator<Item = SnapshotResult<AppendVec>> + '_> {
-- 
2.43.0


From ea1ee87184998bff8eb1afe236f5c7e5f0083e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 22/38] fix: account should be found by its owner when the
 program gets tracked after the owner change

---
 account_storage/src/inmemory_account_store.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index f1a25ac..1a07b4d 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -68,11 +68,11 @@ impl InmemoryAccountStore {
         }
     }
 
-    // index owner of the account state, if the state can be returned by a program accounts query
+    // index owner of the account state, its program may get tracked at any time
     // here if the account has changed owner from A->B we keep the key for both A and B
     // then we remove the key from A for finalized commitment
     fn index_account_owner(&self, account_data: &AccountData, account_index: AccountIndex) {
-        if !Self::is_deleted(account_data) && self.satisfies_filters(account_data) {
+        if !Self::is_deleted(account_data) {
             self.add_account_owner(account_index, account_data.account.owner);
         }
     }
-- 
2.43.0


From 2aa18e0cc3ae205bf46be8727b4433cb2c8d0d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 23/38] fix: unsupported filters of getProgramAccounts should
 be an error instead of a panic

---
 simulate_from_snapshot/src/rpc_server.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/simulate_from_snapshot/src/rpc_server.rs b/simulate_from_snapshot/src/rpc_server.rs
index 45cbc69..afe9554 100644
--- a/simulate_from_snapshot/src/rpc_server.rs
+++ b/simulate_from_snapshot/src/rpc_server.rs
@@ -13,6 +13,7 @@ use solana_account_decoder::UiAccount;
 use solana_rpc_client_api::client_error::reqwest::Method;
 use solana_rpc_client_api::{
     config::{RpcAccountInfoConfig, RpcProgramAccountsConfig},
+    filter::RpcFilterType,
     response::{OptionalContext, Response as RpcResponse, RpcKeyedAccount, RpcResponseContext},
 };
 use solana_sdk::{commitment_config::CommitmentConfig, pubkey::Pubkey};
@@ -102,6 +103,20 @@ impl TestRpcServer for RpcServerImpl {
             .and_then(|x| x.account_config.commitment)
             .unwrap_or_default();
 
+        // token account state filters cannot be converted
+        let has_unsupported_filter = config
+            .as_ref()
+            .and_then(|x| x.filters.as_ref())
+            .map(|filters| {
+                filters
+                    .iter()
+                    .any(|filter| matches!(filter, RpcFilterType::TokenAccountState))
+            })
+            .unwrap_or_default();
+        if has_unsupported_filter {
+            return Err(jsonrpsee::types::error::ErrorCode::InvalidParams.into());
+        }
+
         let account_filters = config
             .as_ref()
             .map(|x| {
-- 
2.43.0


From f1e56f88d934de7ba53c5aa8939c89a98be0cca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 24/38] fix: drop the previous account when a token program
 account is created again as another type

---
 .../src/inmemory_token_storage.rs             | 50 +++++++++++++------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 6a3629a..7cc77f3 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -355,21 +355,28 @@ impl TokenProgramAccountsStorage {
 
     // treat account for finalized commitment
     pub fn add_account_finalized(&self, account: TokenProgramAccountType) -> bool {
+        // account could have been closed and created again as an account of other type
         match account {
             TokenProgramAccountType::TokenAccount(token_account) => {
+                let account_pk = token_account.pubkey;
                 self.save_token_account(token_account);
+                self.remove_mint(&account_pk);
+                self.multisigs.remove(&account_pk);
             }
             TokenProgramAccountType::Mint(mint_data) => {
+                let account_pk = mint_data.pubkey;
                 self.add_mint(mint_data);
+                self.multisigs.remove(&account_pk);
+                self.token_accounts_storage.delete(&account_pk);
             }
             TokenProgramAccountType::MultiSig(multisig_data, pubkey) => {
                 self.multisigs.insert(pubkey, multisig_data);
+                self.remove_mint(&pubkey);
+                self.token_accounts_storage.delete(&pubkey);
             }
             TokenProgramAccountType::Deleted(account_pk) => {
-                let mint_index = self.mints_index_by_pubkey.get(&account_pk).map(|x| *x);
-                // index of the mint is kept because there can be token accounts of a closed mint
-                if mint_index.is_some_and(|index| self.mints_by_index.remove(&index).is_some()) {
-                    TOKEN_MINTS_IN_MEMORY.dec();
+                if self.remove_mint(&account_pk) {
+                    // do nothing mint account is removed
                 } else if self.multisigs.remove(&account_pk).is_some() {
                     // do nothing multisig account is removed
                 } else {
@@ -380,6 +387,17 @@ impl TokenProgramAccountsStorage {
         true
     }
 
+    // index of the mint is kept because there can be token accounts of a closed mint
+    fn remove_mint(&self, account_pk: &Pubkey) -> bool {
+        let mint_index = self.mints_index_by_pubkey.get(account_pk).map(|x| *x);
+        let is_removed =
+            mint_index.is_some_and(|index| self.mints_by_index.remove(&index).is_some());
+        if is_removed {
+            TOKEN_MINTS_IN_MEMORY.dec();
+        }
+        is_removed
+    }
+
     // saves token account and updates the indexes by mint and by owner
     fn save_token_account(&self, token_account: TokenAccount) {
         let owner = token_account.owner;
@@ -459,15 +477,14 @@ impl TokenProgramAccountsStorage {
             ));
         }
 
-        if let Some(mint_index) = self.mints_index_by_pubkey.get(&account_pk) {
-            // mint may be referenced by token accounts without being known
-            return self.mints_by_index.get(&mint_index).map(|mint_data| {
-                token_mint_to_solana_account(
-                    &mint_data,
-                    self.finalized_slot.load(Ordering::Relaxed),
-                    0,
-                )
-            });
+        // pubkey may be referenced by token accounts as mint without being one
+        let mint_index = self.mints_index_by_pubkey.get(&account_pk).map(|x| *x);
+        if let Some(mint_data) = mint_index.and_then(|index| self.mints_by_index.get(&index)) {
+            return Some(token_mint_to_solana_account(
+                &mint_data,
+                self.finalized_slot.load(Ordering::Relaxed),
+                0,
+            ));
         }
 
         if let Some(token_account) = self.token_accounts_storage.get_by_pubkey(&account_pk) {
@@ -895,11 +912,12 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         }
 
         for multisig in multisigs {
-            self.multisigs.insert(multisig.pubkey, multisig);
+            let pubkey = multisig.pubkey;
+            self.add_account_finalized(TokenProgramAccountType::MultiSig(multisig, pubkey));
         }
 
         for (_, mint_account) in mints {
-            self.add_mint(mint_account);
+            self.add_account_finalized(TokenProgramAccountType::Mint(mint_account));
         }
 
         for (mut token_account, mint) in token_accounts {
@@ -910,7 +928,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                 &self.mint_pubkey_by_index,
                 &self.mint_counter,
             );
-            self.save_token_account(token_account);
+            self.add_account_finalized(TokenProgramAccountType::TokenAccount(token_account));
         }
 
         Ok(())
-- 
2.43.0


From 1e41819f0328ccba8fab2245968b0f4d0617d653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:17 +0000
Subject: [PATCH 25/38] fix: keep signers of a multisig in their places when
 one of them is the default public key

---
 .../src/token_program_utils.rs                | 24 +++++++++----------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/token_account_storage/src/token_program_utils.rs b/token_account_storage/src/token_program_utils.rs
index 54153df..dffbceb 100644
--- a/token_account_storage/src/token_program_utils.rs
+++ b/token_account_storage/src/token_program_utils.rs
@@ -5,7 +5,6 @@ use crate::account_types::{
 };
 use anyhow::bail;
 use dashmap::DashMap;
-use itertools::Itertools;
 use lite_account_manager_common::{
     account_data::{Account, AccountData},
     account_filter::{AccountFilterType, MemcmpFilter, MemcmpFilterData},
@@ -54,6 +53,15 @@ pub fn get_or_create_mint_index(
     }
 }
 
+// default pubkey is a valid signer, unused signers are at the end
+fn multisig_signers(signers: &[Pubkey]) -> Vec<Pubkey> {
+    let nb_signers = signers
+        .iter()
+        .rposition(|x| *x != Pubkey::default())
+        .map_or(0, |position| position + 1);
+    signers[..nb_signers].to_vec()
+}
+
 pub fn get_token_program_account_type(
     account_data: &AccountData,
     mint_index_by_pubkey: &Arc<DashMap<Pubkey, MintIndex>>,
@@ -163,12 +171,7 @@ pub fn get_token_program_account_type(
                         is_initialized: multi_sig.is_initialized,
                         m: multi_sig.m,
                         n: multi_sig.n,
-                        signers: multi_sig
-                            .signers
-                            .iter()
-                            .filter(|x| **x != Pubkey::default())
-                            .copied()
-                            .collect_vec(),
+                        signers: multisig_signers(&multi_sig.signers),
                     },
                     account_data.pubkey,
                 ))
@@ -236,12 +239,7 @@ pub fn get_token_program_account_type(
                     is_initialized: multi_sig.is_initialized,
                     m: multi_sig.m,
                     n: multi_sig.n,
-                    signers: multi_sig
-                        .signers
-                        .iter()
-                        .filter(|x| **x != Pubkey::default())
-                        .copied()
-                        .collect_vec(),
+                    signers: multisig_signers(&multi_sig.signers),
                 },
                 account_data.pubkey,
             ))
-- 
2.43.0


From 3bdd8f7f227bf902b24bffac275f6e0d70e2c84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:22 +0000
Subject: [PATCH 26/38] fix: report account files of the manifest which are
 missing in the snapshot

---
 .../src/snapshot_utils/archived.rs            | 28 +++++++++--------
 .../src/snapshot_utils/mod.rs                 | 30 ++++++++++++++++++-
 .../src/snapshot_utils/unpacked.rs            | 18 +++++++----
 3 files changed, 57 insertions(+), 19 deletions(-)

diff --git a/simulate_from_snapshot/src/snapshot_utils/archived.rs b/simulate_from_snapshot/src/snapshot_utils/archived.rs
index abdb2b2..47188bd 100644
--- a/simulate_from_snapshot/src/snapshot_utils/archived.rs
+++ b/simulate_from_snapshot/src/snapshot_utils/archived.rs
@@ -1,8 +1,8 @@
 use {
     crate::snapshot_utils::{
-        deserialize_from, parse_append_vec_name, AccountsDbFields, AppendVec, AppendVecIterator,
-        DeserializableVersionedBank, SerializableAccountStorageEntry, SnapshotError,
-        SnapshotExtractor, SnapshotResult,
+        deserialize_from, parse_append_vec_name, with_missing_append_vecs, AccountsDbFields,
+        AppendVec, AppendVecIterator, DeserializableVersionedBank, SerializableAccountStorageEntry,
+        SnapshotError, SnapshotExtractor, SnapshotResult,
     },
     log::info,
     std::{
@@ -93,22 +93,26 @@ where
     }
 
     fn unboxed_iter(&mut self) -> impl Iterator<Item = SnapshotResult<AppendVec>> + '_ {
-        self.entries
-            .take()
-            .into_iter()
-            .flatten()
-            .filter_map(|entry| {
+        let entries = self.entries.take();
+        let extractor = &*self;
+        entries.into_iter().flat_map(move |entries| {
+            let append_vecs = entries.filter_map(move |entry| {
                 let mut entry = match entry {
                     Ok(x) => x,
-                    Err(e) => return Some(Err(e.into())),
+                    Err(e) => return Some((None, Err(e.into()))),
                 };
                 let path = match entry.path() {
                     Ok(x) => x,
-                    Err(e) => return Some(Err(e.into())),
+                    Err(e) => return Some((None, Err(e.into()))),
                 };
                 let (slot, id) = path.file_name().and_then(parse_append_vec_name)?;
-                Some(self.process_entry(&mut entry, slot, id))
-            })
+                Some((
+                    Some((slot, id)),
+                    extractor.process_entry(&mut entry, slot, id),
+                ))
+            });
+            with_missing_append_vecs(&extractor.accounts_db_fields, append_vecs)
+        })
     }
 
     fn process_entry(
diff --git a/simulate_from_snapshot/src/snapshot_utils/mod.rs b/simulate_from_snapshot/src/snapshot_utils/mod.rs
index 1602484..ab5d29f 100644
--- a/simulate_from_snapshot/src/snapshot_utils/mod.rs
+++ b/simulate_from_snapshot/src/snapshot_utils/mod.rs
@@ -6,7 +6,7 @@ use {
             SerializableAccountStorageEntry,
         },
     },
-    std::{ffi::OsStr, io::Read, path::Path, str::FromStr},
+    std::{collections::HashSet, ffi::OsStr, io::Read, path::Path, str::FromStr},
     thiserror::Error,
 };
 
@@ -30,6 +30,8 @@ pub enum SnapshotError {
     NoSnapshotManifest,
     #[error("Unexpected AppendVec")]
     UnexpectedAppendVec,
+    #[error("Missing AppendVec {0}.{1}")]
+    MissingAppendVec(u64, u64),
     #[error("Failed to create read progress tracking: {0}")]
     ReadProgressTracking(String),
 }
@@ -53,6 +55,32 @@ fn parse_append_vec_name(name: &OsStr) -> Option<(u64, u64)> {
     }
 }
 
+// append vecs found in the snapshot (with their slot and id if known),
+// followed by an error for each append vec of the manifest which was not found
+fn with_missing_append_vecs<'a>(
+    accounts_db_fields: &AccountsDbFields<SerializableAccountStorageEntry>,
+    mut append_vecs: impl Iterator<Item = (Option<(u64, u64)>, SnapshotResult<AppendVec>)> + 'a,
+) -> impl Iterator<Item = SnapshotResult<AppendVec>> + 'a {
+    let mut missing: HashSet<(u64, u64)> = accounts_db_fields
+        .0
+        .iter()
+        .flat_map(|(slot, vecs)| vecs.iter().map(|vec| (*slot, vec.id as u64)))
+        .collect();
+    std::iter::from_fn(move || match append_vecs.next() {
+        Some((name, append_vec)) => {
+            if let Some(name) = name {
+                missing.remove(&name);
+            }
+            Some(append_vec)
+        }
+        None => {
+            let (slot, id) = missing.iter().next().copied()?;
+            missing.remove(&(slot, id));
+            Some(Err(SnapshotError::MissingAppendVec(slot, id)))
+        }
+    })
+}
+
 pub fn append_vec_iter(append_vec: &AppendVec) -> impl Iterator<Item = StoredAccountMetaHandle> {
     let mut offset = 0usize;
     std::iter::repeat_with(move || {
diff --git a/simulate_from_snapshot/src/snapshot_utils/unpacked.rs b/simulate_from_snapshot/src/snapshot_utils/unpacked.rs
index 37fa814..b3d89a2 100644
--- a/simulate_from_snapshot/src/snapshot_utils/unpacked.rs
+++ b/simulate_from_snapshot/src/snapshot_utils/unpacked.rs
@@ -1,8 +1,9 @@
 use {
     crate::snapshot_utils::{
-        deserialize_from, parse_append_vec_name, AccountsDbFields, AppendVec, AppendVecIterator,
-        DeserializableVersionedBank, ReadProgressTracking, SerializableAccountStorageEntry,
-        SnapshotError, SnapshotExtractor, SnapshotResult, SNAPSHOTS_DIR,
+        deserialize_from, parse_append_vec_name, with_missing_append_vecs, AccountsDbFields,
+        AppendVec, AppendVecIterator, DeserializableVersionedBank, ReadProgressTracking,
+        SerializableAccountStorageEntry, SnapshotError, SnapshotExtractor, SnapshotResult,
+        SNAPSHOTS_DIR,
     },
     itertools::Itertools,
     log::info,
@@ -91,7 +92,7 @@ impl UnpackedSnapshotExtractor {
 
     fn iter_streams(&self) -> SnapshotResult<impl Iterator<Item = SnapshotResult<AppendVec>> + '_> {
         let accounts_dir = self.root.join("accounts");
-        Ok(accounts_dir
+        let append_vecs = accounts_dir
             .read_dir()?
             .filter_map(|f| f.ok())
             .filter_map(|f| {
@@ -99,8 +100,13 @@ impl UnpackedSnapshotExtractor {
                 parse_append_vec_name(&f.file_name()).map(move |parsed| (parsed, name))
             })
             .map(move |((slot, version), name)| {
-                self.open_append_vec(slot, version, &accounts_dir.join(name))
-            }))
+                let append_vec = self.open_append_vec(slot, version, &accounts_dir.join(name));
+                (Some((slot, version)), append_vec)
+            });
+        Ok(with_missing_append_vecs(
+            &self.accounts_db_fields,
+            append_vecs,
+        ))
     }
 
     fn open_append_vec(&self, slot: u64, id: u64, path: &Path) -> SnapshotResult<AppendVec> {
-- 
2.43.0


From 37c728d9f7b05926f27653f0d66df0408cf6171f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:13 +0000
Subject: [PATCH 27/38] fix: account filters with wrong JSON types should be an
 error instead of being dropped

---
 common/src/account_filter.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/common/src/account_filter.rs b/common/src/account_filter.rs
index d9d4956..16da123 100644
--- a/common/src/account_filter.rs
+++ b/common/src/account_filter.rs
@@ -128,15 +128,17 @@ impl<'de> Deserialize<'de> for AccountFilter {
             Pubkey::from_str(str).map_err(D::Error::custom)
         };
 
+        if !json.is_object() {
+            return Err(D::Error::custom("Account filter should be an object"));
+        }
+
         let accounts = match json.get("accounts") {
-            Some(accounts) => match accounts.as_array() {
-                Some(accounts_array) => accounts_array
-                    .iter()
-                    .map(parse_pubkey)
-                    .collect::<Result<Vec<_>, _>>()?,
-                None => vec![],
-            },
-            None => vec![],
+            Some(serde_json::value::Value::Array(accounts_array)) => accounts_array
+                .iter()
+                .map(parse_pubkey)
+                .collect::<Result<Vec<_>, _>>()?,
+            Some(serde_json::value::Value::Null) | None => vec![],
+            Some(_) => return Err(D::Error::custom("Accounts should be an array")),
         };
         let program_id = json.get("programId").map(parse_pubkey).transpose()?;
 
-- 
2.43.0


From 470d44e56ab434f505424f513ae35d67735f7e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:13 +0000
Subject: [PATCH 28/38] fix: filters which are partly excepted should not be
 contained in the except filter store

---
 common/src/except_filter_store.rs |  3 ++-
 common/src/simple_filter_store.rs | 11 +++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/common/src/except_filter_store.rs b/common/src/except_filter_store.rs
index 9de0da8..5cd7ffe 100644
--- a/common/src/except_filter_store.rs
+++ b/common/src/except_filter_store.rs
@@ -24,7 +24,8 @@ impl AccountFiltersStoreInterface for ExceptFilterStore {
     }
 
     fn contains_filter(&self, filter: &AccountFilter) -> bool {
-        !self.simple_filter_store.contains_filter_internal(filter)
+        // a filter which is only partly excepted is not contained either
+        !self.simple_filter_store.overlaps_filter(filter)
     }
 }
 
diff --git a/common/src/simple_filter_store.rs b/common/src/simple_filter_store.rs
index 36e8663..dcb7c92 100644
--- a/common/src/simple_filter_store.rs
+++ b/common/src/simple_filter_store.rs
@@ -90,6 +90,17 @@ impl SimpleFilterStore {
         self.accounts.contains(&account_pk)
     }
 
+    /// true if some of the queried accounts, or filters of the queried program are in the store
+    pub fn overlaps_filter(&self, account_filter: &AccountFilter) -> bool {
+        account_filter
+            .accounts
+            .iter()
+            .any(|pk| self.accounts.contains(pk))
+            || account_filter
+                .program_id
+                .is_some_and(|program_id| self.program_id_filters.contains_key(&program_id))
+    }
+
     pub fn contains_filter_internal(&self, account_filter: &AccountFilter) -> bool {
         let accounts_match = account_filter
             .accounts
-- 
2.43.0


From ba68b43165e6141cb6b5f48b44233fec1a783c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:33 +0000
Subject: [PATCH 29/38] fix: parents of a confirmed slot should be confirmed
 when they are announced later

---
 account_storage/src/inmemory_account_store.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 1a07b4d..8046c50 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -322,8 +322,13 @@ impl AccountStorageInterface for InmemoryAccountStore {
 
     fn process_slot_data(&self, slot_info: SlotInfo, commitment: Commitment) -> Vec<AccountData> {
         let slot: u64 = slot_info.slot;
-        let writable_accounts = {
+        let (commitment, writable_accounts) = {
             let mut lk = self.slots_status.lock().unwrap();
+            // a slot promoted before its parent was known, should now promote its parents
+            let commitment = match lk.get(&slot) {
+                Some(status) if status.parent.is_none() => commitment.max(status.commitment),
+                _ => commitment,
+            };
             let mut current_slot = Some((slot, Some(slot_info.parent)));
             let mut writable_accounts: HashMap<AccountIndex, Slot> = HashMap::new();
             while let Some((slot, parent)) = current_slot {
@@ -383,7 +388,7 @@ impl AccountStorageInterface for InmemoryAccountStore {
                 }
             }
 
-            writable_accounts
+            (commitment, writable_accounts)
         };
 
         let mut updated_accounts = vec![];
-- 
2.43.0


From f779af05e07530d9a341b19bb4cb4965327f9900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:26 +0000
Subject: [PATCH 30/38] fix: parent of a confirmed slot was lost when a later
 slot was confirmed before it

---
 token_account_storage/src/inmemory_token_storage.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 7cc77f3..0c4b542 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -784,9 +784,10 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             }
             Commitment::Confirmed => {
                 log::debug!("confirm slot data  : {slot_info:?}");
+                // parent should be known before the slot is used by the readers
+                // and also when a later slot is already confirmed
+                self.processed_storage.update_slot_info(slot_info);
                 if self.confirmed_slot.load(Ordering::Relaxed) < slot_info.slot {
-                    // parent should be known before the slot is used by the readers
-                    self.processed_storage.update_slot_info(slot_info);
                     self.confirmed_slot.store(slot_info.slot, Ordering::Relaxed);
                 }
                 self.processed_storage
-- 
2.43.0


From 823e9babdcc8872519045b03cf9d4353b7bb72ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:33 +0000
Subject: [PATCH 31/38] fix: gauge of processed token accounts counts states
 dropped on finalization

---
 token_account_storage/src/inmemory_token_storage.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 0c4b542..9ac7d6f 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -229,7 +229,8 @@ impl ProcessedAccountStore {
         // remove processed nodes less than finalized slot
         while let Some(first_entry) = lk.first_entry() {
             if *first_entry.key() <= slot {
-                first_entry.remove();
+                let removed = first_entry.remove();
+                TOKEN_PROGRAM_TOTAL_PROCESSED_ACCOUNTS.sub(removed.processed_accounts.len() as i64);
             } else {
                 break;
             }
-- 
2.43.0


From dfb5dbe99b0f488b94eb2f640ca548f63957f540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:40 +0000
Subject: [PATCH 32/38] fix: token snapshot should not be created while
 accounts are being finalized

---
 token_account_storage/src/inmemory_token_storage.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 9ac7d6f..c0c25ae 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -833,6 +833,9 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             return Err(AccountLoadingError::WrongIndex);
         };
 
+        // no account is finalized until the snapshot is created so that it has accounts of a single finalized slot
+        let _processed_slots = self.processed_storage.read();
+
         let mints = self
             .mints_by_index
             .iter()
-- 
2.43.0


From 92d62205ecfa5f02a2811fda75fb911cb25919fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:44 +0000
Subject: [PATCH 33/38] fix: token account read while its type changes should
 not be missing

---
 .../src/inmemory_token_storage.rs             | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index c0c25ae..9d0c453 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -2,7 +2,7 @@ use std::{
     collections::{BTreeMap, HashMap, HashSet, VecDeque},
     sync::{
         atomic::{AtomicU32, AtomicU64, Ordering},
-        Arc, RwLock, RwLockReadGuard,
+        Arc, RwLock, RwLockReadGuard, RwLockWriteGuard,
     },
 };
 
@@ -65,6 +65,10 @@ impl ProcessedAccountStore {
         self.processed_slot_accounts.read().unwrap()
     }
 
+    pub fn write(&self) -> RwLockWriteGuard<'_, ProcessedSlots> {
+        self.processed_slot_accounts.write().unwrap()
+    }
+
     pub fn insert_account(
         &self,
         account_pk: Pubkey,
@@ -652,6 +656,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                 account_data.updated_slot,
             )
         } else {
+            let _processed_slots = self.processed_storage.write();
             self.add_account_finalized(token_program_account)
         }
     }
@@ -679,6 +684,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                 return;
             }
         };
+        let _processed_slots = self.processed_storage.write();
         self.add_account_finalized(token_program_account);
     }
 
@@ -688,9 +694,10 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         commitment: Commitment,
     ) -> Result<Option<AccountData>, AccountLoadingError> {
         log::debug!("get account : {}", account_pk.to_string());
+        // account should not be finalized between the lookups
+        let processed_slots = self.processed_storage.read();
         match commitment {
             Commitment::Confirmed | Commitment::Processed => {
-                let processed_slots = self.processed_storage.read();
                 match ProcessedAccountStore::get_accounts(
                     &processed_slots,
                     vec![account_pk],
@@ -723,13 +730,12 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             return Err(AccountLoadingError::WrongIndex);
         }
         // accounts should not be finalized between the two lookups
-        let processed_slots =
-            (commitment != Commitment::Finalized).then(|| self.processed_storage.read());
+        let processed_slots = self.processed_storage.read();
         // get all accounts for finalized commitment and update them if necessary
         let mut account_data =
             self.get_program_accounts_finalized(program_pubkey, account_filters.clone())?;
         let confirmed_slot = self.confirmed_slot.load(Ordering::Relaxed);
-        if let Some(processed_slots) = processed_slots {
+        if commitment != Commitment::Finalized {
             // get list of all pks to search
             let pks = account_data.iter().map(|x| x.pubkey).collect_vec();
             let processed_accounts = ProcessedAccountStore::get_accounts(
@@ -918,10 +924,12 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
 
         for multisig in multisigs {
             let pubkey = multisig.pubkey;
+            let _processed_slots = self.processed_storage.write();
             self.add_account_finalized(TokenProgramAccountType::MultiSig(multisig, pubkey));
         }
 
         for (_, mint_account) in mints {
+            let _processed_slots = self.processed_storage.write();
             self.add_account_finalized(TokenProgramAccountType::Mint(mint_account));
         }
 
@@ -933,6 +941,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                 &self.mint_pubkey_by_index,
                 &self.mint_counter,
             );
+            let _processed_slots = self.processed_storage.write();
             self.add_account_finalized(TokenProgramAccountType::TokenAccount(token_account));
         }
 
-- 
2.43.0


From a4bd55eea951bc962ad6a706b40e9f34eb33a941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:34 +0000
Subject: [PATCH 34/38] fix: states of abandoned slots should not be returned
 once another fork is finalized

---
 .../src/account_data_by_commitment.rs         | 18 ++++++++++
 account_storage/src/inmemory_account_store.rs | 33 ++++++++++++++++---
 2 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/account_storage/src/account_data_by_commitment.rs b/account_storage/src/account_data_by_commitment.rs
index 7f3c88e..a0ce248 100644
--- a/account_storage/src/account_data_by_commitment.rs
+++ b/account_storage/src/account_data_by_commitment.rs
@@ -300,6 +300,24 @@ impl AccountDataByCommitment {
         })
     }
 
+    // removes the processed state of a slot which can no longer be confirmed because another fork has been finalized
+    pub fn remove_abandoned_state(&mut self, slot: Slot) -> Option<AccountData> {
+        if [&self.confirmed_account, &self.finalized_account]
+            .into_iter()
+            .flatten()
+            .any(|x| x.updated_slot == slot)
+        {
+            return None;
+        }
+        self.processed_accounts.remove(&slot)
+    }
+
+    pub fn is_empty(&self) -> bool {
+        self.processed_accounts.is_empty()
+            && self.confirmed_account.is_none()
+            && self.finalized_account.is_none()
+    }
+
     pub fn delete(&mut self) {
         self.processed_accounts.clear();
         self.confirmed_account = None;
diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 8046c50..4aa0591 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -93,12 +93,13 @@ impl InmemoryAccountStore {
     }
 
     // account should be removed if the latest state is finalized, and is deleted or does not satisfy the filter criterias
+    // or if all of its states were abandoned
     fn should_be_removed(&self, account: &AccountDataByCommitment) -> bool {
         match account.latest_state_if_finalized() {
             Some(account_data) => {
                 Self::is_deleted(account_data) || !self.satisfies_filters(account_data)
             }
-            None => false,
+            None => account.is_empty(),
         }
     }
 
@@ -322,7 +323,7 @@ impl AccountStorageInterface for InmemoryAccountStore {
 
     fn process_slot_data(&self, slot_info: SlotInfo, commitment: Commitment) -> Vec<AccountData> {
         let slot: u64 = slot_info.slot;
-        let (commitment, writable_accounts) = {
+        let (commitment, writable_accounts, abandoned_accounts) = {
             let mut lk = self.slots_status.lock().unwrap();
             // a slot promoted before its parent was known, should now promote its parents
             let commitment = match lk.get(&slot) {
@@ -331,6 +332,9 @@ impl AccountStorageInterface for InmemoryAccountStore {
             };
             let mut current_slot = Some((slot, Some(slot_info.parent)));
             let mut writable_accounts: HashMap<AccountIndex, Slot> = HashMap::new();
+            let mut abandoned_accounts: Vec<(AccountIndex, Slot)> = vec![];
+            // set if all the ancestors up to a previously finalized slot are known
+            let mut finalized_ancestor: Option<Slot> = None;
             while let Some((slot, parent)) = current_slot {
                 current_slot = None;
                 let status = lk.entry(slot).or_insert_with(|| {
@@ -355,6 +359,7 @@ impl AccountStorageInterface for InmemoryAccountStore {
                 }
                 if status.commitment >= commitment && is_parent_known {
                     // slot and its parents are already processed for the commitment
+                    finalized_ancestor = Some(slot);
                     break;
                 }
                 if status.commitment < commitment {
@@ -381,14 +386,25 @@ impl AccountStorageInterface for InmemoryAccountStore {
                 while let Some(entry) = lk.first_entry() {
                     if *entry.key() < slot {
                         log::debug!("removing slot {}", entry.key());
-                        entry.remove();
+                        let (removed_slot, status) = entry.remove_entry();
+                        // slots between two finalized slots which are not their descendants will never be finalized
+                        if finalized_ancestor.is_some_and(|ancestor| ancestor < removed_slot)
+                            && status.commitment == Commitment::Processed
+                        {
+                            abandoned_accounts.extend(
+                                status
+                                    .accounts_updated
+                                    .into_iter()
+                                    .map(|account| (account, removed_slot)),
+                            );
+                        }
                     } else {
                         break;
                     }
                 }
             }
 
-            (commitment, writable_accounts)
+            (commitment, writable_accounts, abandoned_accounts)
         };
 
         let mut updated_accounts = vec![];
@@ -416,6 +432,15 @@ impl AccountStorageInterface for InmemoryAccountStore {
                 updated_accounts.push(account_data);
             }
         }
+        for (account_index, abandoned_slot) in abandoned_accounts {
+            let mut writable_lk = lk[account_index].write().unwrap();
+            if let Some(account_data) = writable_lk.remove_abandoned_state(abandoned_slot) {
+                self.remove_previous_owner(&account_data, &writable_lk, account_index);
+                if self.should_be_removed(&writable_lk) {
+                    accounts_to_remove.push((account_data.pubkey, account_index));
+                }
+            }
+        }
         drop(lk);
 
         for (pubkey, account_index) in accounts_to_remove {
-- 
2.43.0


From 253c45fb52133597a438d20d18bc2df176a72e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:52 +0000
Subject: [PATCH 35/38] fix: filters should not be stored again when they are
 already in the store

---
 common/src/simple_filter_store.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/src/simple_filter_store.rs b/common/src/simple_filter_store.rs
index dcb7c92..cb9fdc3 100644
--- a/common/src/simple_filter_store.rs
+++ b/common/src/simple_filter_store.rs
@@ -63,7 +63,10 @@ impl SimpleFilterStore {
                         }
                         ProgramIdFilters::ByFilterType(current_filters) => {
                             if let Some(new_filters) = &account_filter.filters {
-                                current_filters.push(filters_in_bytes(new_filters));
+                                let new_filters = filters_in_bytes(new_filters);
+                                if !current_filters.contains(&new_filters) {
+                                    current_filters.push(new_filters);
+                                }
                             } else {
                                 // the new filters will subscribe to all the filters
                                 *program_filters = ProgramIdFilters::AllowAll;
-- 
2.43.0


From c9d74a0dbf683679a27cd4c2f4979fe22ca124f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:13 +0000
Subject: [PATCH 36/38] fix: states of an account older than a finalized update
 should be removed

---
 account_storage/src/account_data_by_commitment.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/account_storage/src/account_data_by_commitment.rs b/account_storage/src/account_data_by_commitment.rs
index a0ce248..9ce0e53 100644
--- a/account_storage/src/account_data_by_commitment.rs
+++ b/account_storage/src/account_data_by_commitment.rs
@@ -179,8 +179,12 @@ impl AccountDataByCommitment {
                     self.confirmed_account = Some(data.clone());
                 }
                 if update_finalized {
+                    let finalized_slot = data.updated_slot;
                     self.finalized_account = Some(data);
                     updated = true;
+                    // older processed slot data is not required anymore
+                    self.processed_accounts
+                        .retain(|slot, _| *slot >= finalized_slot);
                 }
             }
             Commitment::Processed => {
-- 
2.43.0


From ddccd25accd69538092fd654e9dcf49ef1b089f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:57 +0000
Subject: [PATCH 37/38] fix: queries should not wait for an on-demand load that
 panicked

---
 accounts_on_demand/src/accounts_on_demand.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/accounts_on_demand/src/accounts_on_demand.rs b/accounts_on_demand/src/accounts_on_demand.rs
index 691c815..67c83c5 100644
--- a/accounts_on_demand/src/accounts_on_demand.rs
+++ b/accounts_on_demand/src/accounts_on_demand.rs
@@ -14,6 +14,7 @@ use solana_sdk::pubkey::Pubkey;
 use std::sync::Condvar;
 use std::{
     collections::HashSet,
+    panic::{catch_unwind, resume_unwind, AssertUnwindSafe},
     sync::{Arc, Mutex},
     time::Duration,
 };
@@ -137,13 +138,18 @@ impl AccountsOnDemand {
             loading
         };
 
-        let result = self.load(&filter);
+        let loaded = catch_unwind(AssertUnwindSafe(|| self.load(&filter)));
+        // nobody should wait for a load that panicked
+        let result = match &loaded {
+            Ok(result) => *result,
+            Err(_) => Err(AccountLoadingError::ErrorCreatingSnapshot),
+        };
         self.loading_state
             .lock()
             .unwrap()
             .finish(&loading, &filter, result);
         loading.finish(result);
-        result
+        loaded.unwrap_or_else(|panic| resume_unwind(panic))
     }
 
     fn load(&self, filter: &AccountFilter) -> Result<(), AccountLoadingError> {
-- 
2.43.0


From a771bfeb509a7dde04d4bc24c66acd7a37c5db70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:49 +0000
Subject: [PATCH 38/38] fix: accounts removed from the store should not be
 counted as stored in memory

---
 account_storage/src/inmemory_account_store.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 4aa0591..9c1e363 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -206,6 +206,7 @@ impl AccountStorageInterface for InmemoryAccountStore {
                         if self.should_be_removed(&acc_by_commitment) {
                             acc_by_commitment.delete();
                             occ.remove_entry();
+                            ACCOUNT_STORED_IN_MEMORY.dec();
                         }
                     }
                     true
@@ -451,6 +452,7 @@ impl AccountStorageInterface for InmemoryAccountStore {
                     let mut account = lk[account_index].write().unwrap();
                     if *current_index == account_index && self.should_be_removed(&account) {
                         account.delete();
+                        ACCOUNT_STORED_IN_MEMORY.dec();
                         true
                     } else {
                         false
-- 
2.43.0

