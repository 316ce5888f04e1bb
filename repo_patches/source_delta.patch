From 569d1476f3e752b4253a56fa80c75b8f5e45a13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 01/48] fix: do not return deleted accounts from unfiltered
 program queries and snapshots

---
 account_storage/src/inmemory_account_store.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 04b7f74..d240d15 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -191,8 +191,10 @@ impl InmemoryAccountStore {
             None => {
                 let account_data = lk_on_account.get_account_data(commitment);
                 if let Some(account_data) = account_data {
-                    // recheck owner
-                    if program_pubkey == account_data.account.owner {
+                    // recheck owner, and skip accounts which are deleted
+                    if account_data.account.lamports > 0
+                        && program_pubkey == account_data.account.owner
+                    {
                         return_vec.push(account_data);
                     }
                 }
-- 
2.43.0


From 7116aa807debb8177cac7b6d19bcf43184ef475e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 02/48] fix: promote the last write of a slot even if an
 earlier write of it was already promoted

---
 account_storage/src/account_data_by_commitment.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/account_storage/src/account_data_by_commitment.rs b/account_storage/src/account_data_by_commitment.rs
index 5d88493..12f30e6 100644
--- a/account_storage/src/account_data_by_commitment.rs
+++ b/account_storage/src/account_data_by_commitment.rs
@@ -184,6 +184,13 @@ impl AccountDataByCommitment {
         }
         updated
     }
+
+    // write version orders the updates of an account within the same slot
+    fn is_newer(account_data: &AccountData, prev_account_data: &AccountData) -> bool {
+        (prev_account_data.updated_slot, prev_account_data.write_version)
+            < (account_data.updated_slot, account_data.write_version)
+    }
+
     // this method will promote processed account to confirmed account to finalized account
     // returns promoted account
     pub fn promote_slot_commitment(
@@ -199,7 +206,7 @@ impl AccountDataByCommitment {
                 }
                 Commitment::Confirmed => match self.confirmed_account.take() {
                     Some(prev_account_data) => {
-                        if prev_account_data.updated_slot < account_data.updated_slot {
+                        if Self::is_newer(account_data, &prev_account_data) {
                             self.confirmed_account = Some(account_data.clone());
                             Some((account_data.clone(), Some(prev_account_data)))
                         } else {
@@ -216,7 +223,7 @@ impl AccountDataByCommitment {
                     // update confirmed if needed
                     match &self.confirmed_account {
                         Some(confirmed_account) => {
-                            if confirmed_account.updated_slot < account_data.updated_slot {
+                            if Self::is_newer(account_data, confirmed_account) {
                                 self.confirmed_account = Some(account_data.clone());
                             }
                         }
@@ -227,7 +234,7 @@ impl AccountDataByCommitment {
 
                     let result = match self.finalized_account.take() {
                         Some(prev_account_data) => {
-                            if prev_account_data.updated_slot < account_data.updated_slot {
+                            if Self::is_newer(account_data, &prev_account_data) {
                                 self.finalized_account = Some(account_data.clone());
                                 Some((account_data.clone(), Some(prev_account_data)))
                             } else {
-- 
2.43.0


From 9c426dbdc2ddf8a4dfba44e65ba205918f4cfa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:10 +0000
Subject: [PATCH 03/48] fix: apply the status of the slot while the account is
 locked, also to new accounts, and never lower the commitment of an update

---
 account_storage/src/inmemory_account_store.rs | 34 +++++--------------
 1 file changed, 9 insertions(+), 25 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index d240d15..e755623 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -132,31 +132,12 @@ impl InmemoryAccountStore {
             Commitment::Processed | Commitment::Confirmed => {
                 // insert account into slot status
                 slot_status.accounts_updated.insert(account_index);
-                slot_status.commitment
+                slot_status.commitment.max(commitment)
             }
             Commitment::Finalized => commitment,
         }
     }
 
-    fn maybe_update_slot_status(
-        &self,
-        account_data: &AccountData,
-        commitment: Commitment,
-    ) -> Commitment {
-        let account_index = match self
-            .pubkey_to_account_index
-            .get(&account_data.pubkey)
-            .map(|x| *x)
-        {
-            Some(x) => x,
-            None => {
-                return commitment;
-            }
-        };
-        let slot = account_data.updated_slot;
-        self.add_account_index_to_slot_status(slot, account_index, commitment)
-    }
-
     pub fn satisfies_filters(&self, account: &AccountData) -> bool {
         self.filtered_accounts.satisfies(account)
     }
@@ -216,14 +197,15 @@ impl AccountStorageInterface for InmemoryAccountStore {
         }
         let updated_slot = account_data.updated_slot;
 
-        // check if the blockhash and slot is already confirmed
-        let commitment = self.maybe_update_slot_status(&account_data, commitment);
-
         let updated = match self.pubkey_to_account_index.entry(account_data.pubkey) {
             dashmap::mapref::entry::Entry::Occupied(occ) => {
                 let index = *occ.get();
                 let read_lk = self.accounts_store.read().unwrap();
                 let mut acc_by_commitment = read_lk[index].write().unwrap();
+                // check if the slot is already confirmed, the account should already be locked
+                // so that a concurrent promotion of the slot cannot miss this update
+                let commitment =
+                    self.add_account_index_to_slot_status(updated_slot, index, commitment);
                 let prev_account = acc_by_commitment.get_account_data(commitment);
                 // if account has been updated
                 if acc_by_commitment.update(account_data.clone(), commitment) {
@@ -247,14 +229,16 @@ impl AccountStorageInterface for InmemoryAccountStore {
                 if self.satisfies_filters(&account_data) {
                     ACCOUNT_STORED_IN_MEMORY.inc();
                     let mut lk = self.accounts_store.write().unwrap();
+                    let index = lk.len();
+                    // the first update of an account can also be for an already confirmed slot
+                    let commitment =
+                        self.add_account_index_to_slot_status(updated_slot, index, commitment);
                     lk.push(RwLock::new(AccountDataByCommitment::new(
                         account_data.clone(),
                         commitment,
                     )));
-                    let index = lk.len() - 1;
                     drop(lk);
                     self.add_account_owner(index, account_data.account.owner);
-                    self.add_account_index_to_slot_status(updated_slot, index, commitment);
                     vac.insert(index);
                     true
                 } else {
-- 
2.43.0


From 0861222846375bab8576822768820f4e3ac69c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:55 +0000
Subject: [PATCH 04/48] fix: never lower the commitment of a slot, and promote
 all its known ancestors even if a slot in between is already promoted

---
 account_storage/src/inmemory_account_store.rs | 47 ++++++++++---------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index e755623..defc6c0 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -342,28 +342,28 @@ impl AccountStorageInterface for InmemoryAccountStore {
                 current_slot = None;
                 match lk.get_mut(&slot) {
                     Some(status) => {
-                        if status.commitment == commitment {
-                            // slot already processed for the commitment
-                            break;
-                        }
-                        status.commitment = commitment;
                         if parent.is_some() {
                             status.parent = parent;
                         }
-                        for account in &status.accounts_updated {
-                            match writable_accounts.entry(*account) {
-                                std::collections::hash_map::Entry::Occupied(_) => {
-                                    // do nothing account has already been updated by higher slot
-                                }
-                                std::collections::hash_map::Entry::Vacant(vac) => {
-                                    vac.insert(slot);
+                        // commitment of a slot is never lowered, if slot is already processed for
+                        // the commitment there may still be ancestors which are not
+                        if status.commitment < commitment {
+                            status.commitment = commitment;
+                            for account in &status.accounts_updated {
+                                match writable_accounts.entry(*account) {
+                                    std::collections::hash_map::Entry::Occupied(_) => {
+                                        // do nothing account has already been updated by higher slot
+                                    }
+                                    std::collections::hash_map::Entry::Vacant(vac) => {
+                                        vac.insert(slot);
+                                    }
                                 }
                             }
                         }
                         if commitment == Commitment::Confirmed
                             || commitment == Commitment::Finalized
                         {
-                            if let Some(parent_slot) = status.parent {
+                            if let Some(parent_slot) = status.parent.filter(|x| *x < slot) {
                                 // update commitment for parent slots
                                 current_slot = Some((parent_slot, None));
                             }
@@ -379,18 +379,21 @@ impl AccountStorageInterface for InmemoryAccountStore {
                         } else if commitment == Commitment::Finalized {
                             log::debug!("slot status not found for {} for commitment finalized, could be normal if the entry is already removed or during startup", slot,);
                         }
+                        // add status for the slot, its accounts may be updated afterwards
+                        let status = SlotStatus {
+                            commitment,
+                            accounts_updated: BTreeSet::new(),
+                            parent,
+                        };
+                        lk.insert(slot, status);
                         if commitment == Commitment::Confirmed
-                            || commitment == Commitment::Processed
+                            || commitment == Commitment::Finalized
                         {
-                            // add status for processed slot
-                            let status = SlotStatus {
-                                commitment,
-                                accounts_updated: BTreeSet::new(),
-                                parent: Some(slot_info.parent),
-                            };
-                            lk.insert(slot, status);
+                            // accounts of the parent slots can still be waiting for the commitment
+                            if let Some(parent_slot) = parent.filter(|x| *x < slot) {
+                                current_slot = Some((parent_slot, None));
+                            }
                         }
-                        break;
                     }
                 }
             }
-- 
2.43.0


From 8f74ca3d258fcf83c65e79bb001c97cc296002b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:20 +0000
Subject: [PATCH 05/48] fix: keep accounts of a program while any live state is
 owned by it, and keep states newer than a finalized deletion or owner change

---
 .../src/account_data_by_commitment.rs         | 33 ++++++++++-
 account_storage/src/inmemory_account_store.rs | 59 ++++++++++++-------
 2 files changed, 68 insertions(+), 24 deletions(-)

diff --git a/account_storage/src/account_data_by_commitment.rs b/account_storage/src/account_data_by_commitment.rs
index 12f30e6..07025fe 100644
--- a/account_storage/src/account_data_by_commitment.rs
+++ b/account_storage/src/account_data_by_commitment.rs
@@ -5,7 +5,7 @@ use lite_account_manager_common::{
     account_filter::AccountFilterType,
     commitment::Commitment,
 };
-use solana_sdk::clock::Slot;
+use solana_sdk::{clock::Slot, pubkey::Pubkey};
 
 #[derive(Default)]
 pub struct AccountDataByCommitment {
@@ -187,8 +187,10 @@ impl AccountDataByCommitment {
 
     // write version orders the updates of an account within the same slot
     fn is_newer(account_data: &AccountData, prev_account_data: &AccountData) -> bool {
-        (prev_account_data.updated_slot, prev_account_data.write_version)
-            < (account_data.updated_slot, account_data.write_version)
+        (
+            prev_account_data.updated_slot,
+            prev_account_data.write_version,
+        ) < (account_data.updated_slot, account_data.write_version)
     }
 
     // this method will promote processed account to confirmed account to finalized account
@@ -282,6 +284,31 @@ impl AccountDataByCommitment {
         }
     }
 
+    // states which can still be returned, processed states older than the finalized one cannot
+    fn live_states(&self) -> impl Iterator<Item = &AccountData> {
+        let finalized_slot = self
+            .finalized_account
+            .as_ref()
+            .map_or(0, |x| x.updated_slot);
+        self.processed_accounts
+            .range(finalized_slot..)
+            .map(|(_, v)| v)
+            .chain(self.confirmed_account.iter())
+            .chain(self.finalized_account.iter())
+    }
+
+    // true if the program owns the account in any of its states
+    pub fn is_owned_by(&self, owner: &Pubkey) -> bool {
+        self.live_states().any(|x| x.account.owner == *owner)
+    }
+
+    // returns the finalized state if there is no newer state of the account
+    pub fn last_finalized_state(&self) -> Option<&AccountData> {
+        self.finalized_account
+            .as_ref()
+            .filter(|finalized| !self.live_states().any(|x| Self::is_newer(x, finalized)))
+    }
+
     pub fn delete(&mut self) {
         self.processed_accounts.clear();
         self.confirmed_account = None;
diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index defc6c0..feba636 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -56,6 +56,12 @@ impl InmemoryAccountStore {
     }
 
     fn add_account_owner(&self, account_index: AccountIndex, owner: Pubkey) {
+        // most of the time the owner already has the account
+        if let Some(accounts) = self.accounts_by_owner.get(&owner) {
+            if accounts.read().unwrap().contains(&account_index) {
+                return;
+            }
+        }
         match self.accounts_by_owner.entry(owner) {
             dashmap::mapref::entry::Entry::Occupied(mut occ) => {
                 occ.get_mut().write().unwrap().insert(account_index);
@@ -69,18 +75,21 @@ impl InmemoryAccountStore {
     }
 
     // here if the commitment is processed and the account has changed owner from A->B we keep the key for both A and B
-    // then we remove the key from A for finalized commitment
+    // then we remove the key from A for finalized commitment, unless a newer state is again owned by A
     // returns true if entry needs to be deleted
     fn update_owner_delete_if_necessary(
         &self,
         prev_account_data: &AccountData,
         new_account_data: &AccountData,
         account_index: AccountIndex,
+        account_by_commitment: &AccountDataByCommitment,
         commitment: Commitment,
     ) -> bool {
         assert_eq!(prev_account_data.pubkey, new_account_data.pubkey);
-        if prev_account_data.account.owner != new_account_data.account.owner {
-            if commitment == Commitment::Finalized {
+        if prev_account_data.account.owner != new_account_data.account.owner
+            && commitment == Commitment::Finalized
+        {
+            if !account_by_commitment.is_owned_by(&prev_account_data.account.owner) {
                 match self
                     .accounts_by_owner
                     .entry(prev_account_data.account.owner)
@@ -92,20 +101,26 @@ impl InmemoryAccountStore {
                         // do nothing
                     }
                 }
-
-                // account is deleted or if new does not satisfies the filter criterias
-                if Self::is_deleted(new_account_data) || !self.satisfies_filters(new_account_data) {
-                    return true;
-                }
             }
-            if !Self::is_deleted(new_account_data) && self.satisfies_filters(new_account_data) {
-                // update owner if account was not deleted but owner was change and the filter criterias are satisfied
-                self.add_account_owner(account_index, new_account_data.account.owner);
+
+            if self.should_be_removed(account_by_commitment) {
+                return true;
             }
         }
+        if !Self::is_deleted(new_account_data) && self.satisfies_filters(new_account_data) {
+            // update owner if account was not deleted and the filter criterias are satisfied
+            self.add_account_owner(account_index, new_account_data.account.owner);
+        }
         false
     }
 
+    // account is finally deleted or if its last state does not satisfies the filter criterias
+    fn should_be_removed(&self, account_by_commitment: &AccountDataByCommitment) -> bool {
+        account_by_commitment
+            .last_finalized_state()
+            .map_or(false, |x| Self::is_deleted(x) || !self.satisfies_filters(x))
+    }
+
     // commitment for which status was updated
     fn add_account_index_to_slot_status(
         &self,
@@ -209,16 +224,17 @@ impl AccountStorageInterface for InmemoryAccountStore {
                 let prev_account = acc_by_commitment.get_account_data(commitment);
                 // if account has been updated
                 if acc_by_commitment.update(account_data.clone(), commitment) {
-                    if let Some(prev_account) = prev_account {
-                        if self.update_owner_delete_if_necessary(
-                            &prev_account,
-                            &account_data,
-                            index,
-                            commitment,
-                        ) {
-                            acc_by_commitment.delete();
-                            occ.remove_entry();
-                        }
+                    // owner has to be added even if there was no previous state for the commitment
+                    let prev_account = prev_account.unwrap_or_else(|| account_data.clone());
+                    if self.update_owner_delete_if_necessary(
+                        &prev_account,
+                        &account_data,
+                        index,
+                        &acc_by_commitment,
+                        commitment,
+                    ) {
+                        acc_by_commitment.delete();
+                        occ.remove_entry();
                     }
                     true
                 } else {
@@ -429,6 +445,7 @@ impl AccountStorageInterface for InmemoryAccountStore {
                             &prev_account_data,
                             &account_data,
                             writable_account_index,
+                            &writable_lk,
                             commitment,
                         )
                     {
-- 
2.43.0


From 2a36f7ee5d6a55fa90c9f5a0808035f5e6ccb1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:19 +0000
Subject: [PATCH 06/48] fix: deadlock between slot finalization removing an
 account and an update of the same account

---
 account_storage/src/inmemory_account_store.rs | 26 +++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index feba636..507eee8 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -121,6 +121,24 @@ impl InmemoryAccountStore {
             .map_or(false, |x| Self::is_deleted(x) || !self.satisfies_filters(x))
     }
 
+    // should not be called with the account locked, updates lock first the key and then the account
+    fn remove_account(&self, pubkey: Pubkey, account_index: AccountIndex) {
+        if let dashmap::mapref::entry::Entry::Occupied(occ) =
+            self.pubkey_to_account_index.entry(pubkey)
+        {
+            if *occ.get() != account_index {
+                return;
+            }
+            let read_lk = self.accounts_store.read().unwrap();
+            let mut acc_by_commitment = read_lk[account_index].write().unwrap();
+            // account could have been updated in the meantime
+            if self.should_be_removed(&acc_by_commitment) {
+                acc_by_commitment.delete();
+                occ.remove_entry();
+            }
+        }
+    }
+
     // commitment for which status was updated
     fn add_account_index_to_slot_status(
         &self,
@@ -430,6 +448,7 @@ impl AccountStorageInterface for InmemoryAccountStore {
         };
 
         let mut updated_accounts = vec![];
+        let mut accounts_to_remove = vec![];
 
         let lk = self.accounts_store.read().unwrap();
         for (writable_account_index, update_slot) in writable_accounts {
@@ -449,14 +468,17 @@ impl AccountStorageInterface for InmemoryAccountStore {
                             commitment,
                         )
                     {
-                        self.pubkey_to_account_index.remove(&account_data.pubkey);
-                        writable_lk.delete();
+                        accounts_to_remove.push((account_data.pubkey, writable_account_index));
                     }
                 }
                 // account has been confirmed first time
                 updated_accounts.push(account_data);
             }
         }
+        drop(lk);
+        for (pubkey, account_index) in accounts_to_remove {
+            self.remove_account(pubkey, account_index);
+        }
         updated_accounts
     }
 
-- 
2.43.0


From 17e36d6a60d218a3af0b1b54dbe2a6e5d14d6e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:14 +0000
Subject: [PATCH 07/48] fix: look for an account in all the storages instead of
 stopping at the first which does not have it

---
 account_storage/src/storage_by_program_id.rs | 23 +++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/account_storage/src/storage_by_program_id.rs b/account_storage/src/storage_by_program_id.rs
index 3437ade..2ab4a73 100644
--- a/account_storage/src/storage_by_program_id.rs
+++ b/account_storage/src/storage_by_program_id.rs
@@ -50,12 +50,25 @@ impl AccountStorageInterface for StorageByProgramId {
         account_pk: Pubkey,
         commitment: Commitment,
     ) -> Result<Option<AccountData>, AccountLoadingError> {
-        for (_, interface) in self.program_id_dispatch_map.iter() {
-            if let Ok(accounts) = interface.get_account(account_pk, commitment) {
-                return Ok(accounts);
-            }
+        // while owner of an account is changing more than one storage can know the account
+        let last_state = self
+            .program_id_dispatch_map
+            .iter()
+            .filter_map(|(program_id, interface)| {
+                let account = interface.get_account(account_pk, commitment).ok()??;
+                Some((program_id, account))
+            })
+            .max_by_key(|(program_id, account)| {
+                (
+                    account.updated_slot,
+                    account.write_version,
+                    account.account.owner == **program_id,
+                )
+            });
+        match last_state {
+            Some((_, account)) => Ok(Some(account)),
+            None => self.default.get_account(account_pk, commitment),
         }
-        self.default.get_account(account_pk, commitment)
     }
 
     fn get_program_accounts(
-- 
2.43.0


From 6675c3422780b32114916002e58c461f5c766c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:18 +0000
Subject: [PATCH 08/48] fix: update all the storages which know an account when
 its owner changes

---
 account_storage/src/storage_by_program_id.rs | 27 +++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/account_storage/src/storage_by_program_id.rs b/account_storage/src/storage_by_program_id.rs
index 2ab4a73..ecc9058 100644
--- a/account_storage/src/storage_by_program_id.rs
+++ b/account_storage/src/storage_by_program_id.rs
@@ -27,20 +27,29 @@ impl StorageByProgramId {
 
 impl AccountStorageInterface for StorageByProgramId {
     fn update_account(&self, account_data: AccountData, commitment: Commitment) -> bool {
+        // owner of the account may have changed, so that storage of the new owner and the storage
+        // which has the previous state should both be updated
+        let mut updated = false;
         for (_, interface) in self.program_id_dispatch_map.iter() {
-            if interface.update_account(account_data.clone(), commitment) {
-                return true;
-            }
+            updated |= interface.update_account(account_data.clone(), commitment);
         }
-        self.default.update_account(account_data, commitment)
+        self.default.update_account(account_data, commitment) || updated
     }
 
     fn initilize_or_update_account(&self, account_data: AccountData) {
-        match self
-            .program_id_dispatch_map
-            .get(&account_data.account.owner)
-        {
-            Some(val) => val.initilize_or_update_account(account_data),
+        let owner = account_data.account.owner;
+        // storages which have a state from a previous owner should also be updated
+        for (program_id, interface) in self.program_id_dispatch_map.iter() {
+            if *program_id != owner {
+                interface.update_account(account_data.clone(), Commitment::Finalized);
+            }
+        }
+        match self.program_id_dispatch_map.get(&owner) {
+            Some(val) => {
+                self.default
+                    .update_account(account_data.clone(), Commitment::Finalized);
+                val.initilize_or_update_account(account_data)
+            }
             None => self.default.initilize_or_update_account(account_data),
         }
     }
-- 
2.43.0


From 5dae7d7811e81c354561964f28887e32b0b20597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 09/48] fix: recognise a memcmp filter whatever encoding it is
 registered or queried with

---
 common/src/simple_filter_store.rs | 44 ++++++++++++++++---------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/common/src/simple_filter_store.rs b/common/src/simple_filter_store.rs
index 5f4a7b3..612df86 100644
--- a/common/src/simple_filter_store.rs
+++ b/common/src/simple_filter_store.rs
@@ -1,6 +1,6 @@
 use crate::{
     account_data::AccountData,
-    account_filter::{AccountFilter, AccountFilterType, AccountFilters, MemcmpFilter},
+    account_filter::{AccountFilter, AccountFilterType, AccountFilters, MemcmpFilter, MemcmpFilterData},
 };
 use solana_sdk::pubkey::Pubkey;
 use std::collections::{BTreeSet, HashMap, HashSet};
@@ -17,6 +17,25 @@ enum ProgramIdFilters {
     ByFilterType(Vec<BTreeSet<AccountFilterType>>),
 }
 
+// filters are always saved and compared in bytes, as same filter can have different encodings
+fn filters_in_bytes(filters: &[AccountFilterType]) -> BTreeSet<AccountFilterType> {
+    filters
+        .iter()
+        .map(|x| match &x {
+            AccountFilterType::Datasize(_) => x.clone(),
+            AccountFilterType::Memcmp(memcmp) => match memcmp.data {
+                MemcmpFilterData::Bytes(_) => x.clone(),
+                MemcmpFilterData::Base58(_) | MemcmpFilterData::Base64(_) => {
+                    AccountFilterType::Memcmp(MemcmpFilter {
+                        offset: memcmp.offset,
+                        data: MemcmpFilterData::Bytes(memcmp.bytes()),
+                    })
+                }
+            },
+        })
+        .collect()
+}
+
 #[derive(Default)]
 pub struct SimpleFilterStore {
     accounts: HashSet<Pubkey>,
@@ -44,7 +63,7 @@ impl SimpleFilterStore {
                         }
                         ProgramIdFilters::ByFilterType(current_filters) => {
                             if let Some(new_filters) = &account_filter.filters {
-                                current_filters.push(new_filters.iter().cloned().collect());
+                                current_filters.push(filters_in_bytes(new_filters));
                             } else {
                                 // the new filters will subscribe to all the filters
                                 *program_filters = ProgramIdFilters::AllowAll;
@@ -59,23 +78,7 @@ impl SimpleFilterStore {
                             .filters
                             .clone()
                             .map_or(ProgramIdFilters::AllowAll, |filters| {
-                                // always save filters in bytes
-                                let filters = filters.iter().map(|x| match &x {
-                                    AccountFilterType::Datasize(_) => x.clone(),
-                                    AccountFilterType::Memcmp(memcmp) => {
-                                        match memcmp.data {
-                                            crate::account_filter::MemcmpFilterData::Bytes(_) => x.clone(),
-                                            crate::account_filter::MemcmpFilterData::Base58(_) |
-                                            crate::account_filter::MemcmpFilterData::Base64(_) => {
-                                                AccountFilterType::Memcmp(MemcmpFilter {
-                                                    offset: memcmp.offset,
-                                                    data: crate::account_filter::MemcmpFilterData::Bytes(memcmp.bytes())
-                                                })
-                                            },
-                                        }
-                                    },
-                                }).collect();
-                                ProgramIdFilters::ByFilterType(vec![filters])
+                                ProgramIdFilters::ByFilterType(vec![filters_in_bytes(&filters)])
                             }),
                     );
                 }
@@ -101,8 +104,7 @@ impl SimpleFilterStore {
                         ProgramIdFilters::ByFilterType(filter_list) => {
                             if let Some(filter_to_match) = &account_filter.filters {
                                 // matches sorted filter list
-                                let filter_to_match: BTreeSet<AccountFilterType> =
-                                    filter_to_match.iter().cloned().collect();
+                                let filter_to_match = filters_in_bytes(filter_to_match);
                                 filter_list.iter().any(|stored_filters| {
                                     if filter_to_match.len() >= stored_filters.len() {
                                         let subset = filter_to_match
-- 
2.43.0


From 48567faeee2873b8fd42339600af386de37c6200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 10/48] fix: accept every query which is narrower than a
 registered filter

---
 common/src/simple_filter_store.rs | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/common/src/simple_filter_store.rs b/common/src/simple_filter_store.rs
index 612df86..05007d1 100644
--- a/common/src/simple_filter_store.rs
+++ b/common/src/simple_filter_store.rs
@@ -1,6 +1,8 @@
 use crate::{
     account_data::AccountData,
-    account_filter::{AccountFilter, AccountFilterType, AccountFilters, MemcmpFilter, MemcmpFilterData},
+    account_filter::{
+        AccountFilter, AccountFilterType, AccountFilters, MemcmpFilter, MemcmpFilterData,
+    },
 };
 use solana_sdk::pubkey::Pubkey;
 use std::collections::{BTreeSet, HashMap, HashSet};
@@ -74,12 +76,12 @@ impl SimpleFilterStore {
                 None => {
                     self.program_id_filters.insert(
                         *program_id,
-                        account_filter
-                            .filters
-                            .clone()
-                            .map_or(ProgramIdFilters::AllowAll, |filters| {
+                        account_filter.filters.clone().map_or(
+                            ProgramIdFilters::AllowAll,
+                            |filters| {
                                 ProgramIdFilters::ByFilterType(vec![filters_in_bytes(&filters)])
-                            }),
+                            },
+                        ),
                     );
                 }
             }
@@ -106,16 +108,7 @@ impl SimpleFilterStore {
                                 // matches sorted filter list
                                 let filter_to_match = filters_in_bytes(filter_to_match);
                                 filter_list.iter().any(|stored_filters| {
-                                    if filter_to_match.len() >= stored_filters.len() {
-                                        let subset = filter_to_match
-                                            .iter()
-                                            .take(stored_filters.len())
-                                            .cloned()
-                                            .collect::<BTreeSet<_>>();
-                                        subset == *stored_filters
-                                    } else {
-                                        false
-                                    }
+                                    stored_filters.is_subset(&filter_to_match)
                                 })
                             } else {
                                 false
-- 
2.43.0


From 6fa32d548931b76905affe5202c0f4eb8855ffbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 11/48] fix: except filter store should not claim to contain an
 excepted account asked together with others

---
 common/src/except_filter_store.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/common/src/except_filter_store.rs b/common/src/except_filter_store.rs
index 9de0da8..e5dc48a 100644
--- a/common/src/except_filter_store.rs
+++ b/common/src/except_filter_store.rs
@@ -24,7 +24,20 @@ impl AccountFiltersStoreInterface for ExceptFilterStore {
     }
 
     fn contains_filter(&self, filter: &AccountFilter) -> bool {
-        !self.simple_filter_store.contains_filter_internal(filter)
+        // accounts and programs are excepted independently
+        let has_excepted_account = filter
+            .accounts
+            .iter()
+            .any(|pk| self.simple_filter_store.contains_account(*pk));
+        let is_excepted_program = filter.program_id.is_some()
+            && self
+                .simple_filter_store
+                .contains_filter_internal(&AccountFilter {
+                    accounts: vec![],
+                    program_id: filter.program_id,
+                    filters: filter.filters.clone(),
+                });
+        !has_excepted_account && !is_excepted_program
     }
 }
 
-- 
2.43.0


From 3922160376fc9168fd1890ac3a69689c427287e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 12/48] fix: return an error instead of panicking on malformed
 account filter configurations

---
 common/src/account_filter.rs | 75 ++++++++++++++++++++++--------------
 1 file changed, 46 insertions(+), 29 deletions(-)

diff --git a/common/src/account_filter.rs b/common/src/account_filter.rs
index 9f07602..fef8a52 100644
--- a/common/src/account_filter.rs
+++ b/common/src/account_filter.rs
@@ -1,6 +1,7 @@
 use base64::Engine;
 use itertools::Itertools;
 use serde::{ser::SerializeMap, Deserialize, Serialize};
+use serde_json::Value;
 use solana_rpc_client_api::filter::{Memcmp as RpcMemcmp, MemcmpEncodedBytes, RpcFilterType};
 use solana_sdk::pubkey::Pubkey;
 use std::str::FromStr;
@@ -22,15 +23,18 @@ pub struct MemcmpFilter {
 
 impl MemcmpFilter {
     pub fn bytes(&self) -> Vec<u8> {
-        match &self.data {
+        self.try_bytes()
+            .expect("Base58 / Base64 decoding should work")
+    }
+
+    pub fn try_bytes(&self) -> anyhow::Result<Vec<u8>> {
+        Ok(match &self.data {
             MemcmpFilterData::Bytes(bytes) => bytes.clone(),
-            MemcmpFilterData::Base58(b58) => bs58::decode(b58)
-                .into_vec()
-                .expect("Base58 decoding should work"),
-            MemcmpFilterData::Base64(b64) => base64::engine::general_purpose::STANDARD
-                .decode(b64)
-                .expect("B64 decoding should work"),
-        }
+            MemcmpFilterData::Base58(b58) => bs58::decode(b58).into_vec()?,
+            MemcmpFilterData::Base64(b64) => {
+                base64::engine::general_purpose::STANDARD.decode(b64)?
+            }
+        })
     }
 
     pub fn bytes_match(&self, data: &[u8]) -> bool {
@@ -108,32 +112,45 @@ impl<'de> Deserialize<'de> for AccountFilter {
     where
         D: serde::Deserializer<'de>,
     {
-        let json: serde_json::value::Value = serde_json::value::Value::deserialize(deserializer)?;
+        use serde::de::Error;
+        let json = Value::deserialize(deserializer)?;
+        if !json.is_object() {
+            return Err(D::Error::custom("account filter should be an object"));
+        }
+
+        let parse_pubkey = |value: &serde_json::Value| {
+            let value = value
+                .as_str()
+                .ok_or_else(|| D::Error::custom("pubkey should be a string"))?;
+            Pubkey::from_str(value)
+                .map_err(|e| D::Error::custom(format!("invalid pubkey {value} : {e}")))
+        };
 
         let accounts = match json.get("accounts") {
-            Some(accounts) => match accounts.as_array() {
-                Some(accounts_array) => accounts_array
-                    .iter()
-                    .map(|v| {
-                        Pubkey::from_str(v.as_str().expect("should be string"))
-                            .expect("Pubkey should be valid")
-                    })
-                    .collect_vec(),
-                None => vec![],
-            },
-            None => vec![],
+            Some(Value::Null) | None => vec![],
+            Some(accounts) => accounts
+                .as_array()
+                .ok_or_else(|| D::Error::custom("accounts should be an array"))?
+                .iter()
+                .map(parse_pubkey)
+                .collect::<Result<Vec<_>, D::Error>>()?,
         };
-        let program_id = json.get("programId").map(|program_id| {
-            Pubkey::from_str(program_id.as_str().expect("should be string"))
-                .expect("Pubkey should be valid")
-        });
-
-        let filters = match json.get("filters") {
-            Some(filters) => {
-                serde_json::from_value(filters.clone()).expect("account filters not deserializable")
-            }
+        let program_id = match json.get("programId") {
+            Some(Value::Null) | None => None,
+            Some(program_id) => Some(parse_pubkey(program_id)?),
+        };
+
+        let filters: Option<Vec<AccountFilterType>> = match json.get("filters") {
+            Some(filters) => serde_json::from_value(filters.clone()).map_err(|e| {
+                D::Error::custom(format!("account filters not deserializable : {e}"))
+            })?,
             None => None,
         };
+        for filter in filters.iter().flatten() {
+            if let AccountFilterType::Memcmp(memcmp) = filter {
+                memcmp.try_bytes().map_err(D::Error::custom)?;
+            }
+        }
         Ok(Self {
             accounts,
             program_id,
-- 
2.43.0


From b5f635a734dd1bce8fef9da8539bc7940f962d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 13/48] fix: rpc filter which cannot be decoded should not
 match all the accounts

---
 common/src/account_filter.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/common/src/account_filter.rs b/common/src/account_filter.rs
index fef8a52..b63edd6 100644
--- a/common/src/account_filter.rs
+++ b/common/src/account_filter.rs
@@ -192,8 +192,11 @@ impl From<&RpcFilterType> for AccountFilterType {
         match value {
             RpcFilterType::DataSize(size) => AccountFilterType::Datasize(*size),
             RpcFilterType::Memcmp(memcmp) => {
-                let bytes = memcmp.bytes().map(|x| (*x).clone()).unwrap_or_default();
-                let offset = memcmp.offset as u64;
+                // like for rpc, a filter which cannot be decoded does not match any account
+                let (offset, bytes) = match memcmp.bytes() {
+                    Some(bytes) => (memcmp.offset as u64, bytes.into_owned()),
+                    None => (u64::MAX, vec![]),
+                };
                 AccountFilterType::Memcmp(MemcmpFilter {
                     offset,
                     data: MemcmpFilterData::Bytes(bytes),
-- 
2.43.0


From cdfedf97e40da33203c9a0f02ed5726d9992786c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:18 +0000
Subject: [PATCH 14/48] fix: do not print every token account to stdout

---
 token_account_storage/src/inmemory_token_account_storage.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/token_account_storage/src/inmemory_token_account_storage.rs b/token_account_storage/src/inmemory_token_account_storage.rs
index 16924b0..6d7552b 100644
--- a/token_account_storage/src/inmemory_token_account_storage.rs
+++ b/token_account_storage/src/inmemory_token_account_storage.rs
@@ -58,7 +58,6 @@ impl TokenAccountStorageInterface for InmemoryTokenAccountStorage {
     }
 
     fn save_or_update(&self, token_account: TokenAccount) -> (TokenAccountIndex, bool) {
-        println!("Saving or updating token account: {:?}", token_account);
         match self.pubkey_to_index.entry(token_account.pubkey.into()) {
             dashmap::mapref::entry::Entry::Occupied(mut occ) => {
                 // already present
-- 
2.43.0


From b4cbe6a5bbd91a3cd58ae48d0240bc54dd1e786c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:18 +0000
Subject: [PATCH 15/48] fix: token accounts with the same partial pubkey should
 not be confused with each other or deleted together

---
 .../src/inmemory_token_account_storage.rs     | 33 ++++++++++---------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_account_storage.rs b/token_account_storage/src/inmemory_token_account_storage.rs
index 6d7552b..374fb58 100644
--- a/token_account_storage/src/inmemory_token_account_storage.rs
+++ b/token_account_storage/src/inmemory_token_account_storage.rs
@@ -39,19 +39,16 @@ impl TokenAccountStorageInterface for InmemoryTokenAccountStorage {
         match self.pubkey_to_index.entry(pubkey.into()) {
             dashmap::mapref::entry::Entry::Occupied(occ) => {
                 let value = occ.get();
-                if value.len() > 1 {
-                    let lk = self.token_accounts.read().unwrap();
-                    for index in value {
-                        if TokenAccount::get_pubkey_from_binary(lk.get(*index as usize).unwrap())
-                            == *pubkey
-                        {
-                            return Some(*index);
-                        }
+                // another account can have the same partial pubkey, so always check the full pubkey
+                let lk = self.token_accounts.read().unwrap();
+                for index in value {
+                    if TokenAccount::get_pubkey_from_binary(lk.get(*index as usize).unwrap())
+                        == *pubkey
+                    {
+                        return Some(*index);
                     }
-                    None
-                } else {
-                    Some(value[0])
                 }
+                None
             }
             dashmap::mapref::entry::Entry::Vacant(_) => None,
         }
@@ -126,8 +123,9 @@ impl TokenAccountStorageInterface for InmemoryTokenAccountStorage {
     }
 
     fn delete(&self, pubkey: &Pubkey) {
-        let acc_to_remove = self.pubkey_to_index.remove(&pubkey.into());
-        if let Some((_, indexes)) = acc_to_remove {
+        if let dashmap::mapref::entry::Entry::Occupied(mut occ) =
+            self.pubkey_to_index.entry(pubkey.into())
+        {
             let mut write_lk = self.token_accounts.write().unwrap();
             let deleted_account = TokenAccount {
                 program: Program::TokenProgram,
@@ -143,11 +141,16 @@ impl TokenAccountStorageInterface for InmemoryTokenAccountStorage {
                 additional_data: None,
             }
             .to_bytes();
-            for index in indexes {
-                let binary = write_lk.get_mut(index as usize).unwrap();
+            for (position, index) in occ.get().iter().enumerate() {
+                let binary = write_lk.get_mut(*index as usize).unwrap();
                 if TokenAccount::get_pubkey_from_binary(binary) == *pubkey {
                     TOKEN_ACCOUNT_DELETED_IN_MEMORY.inc();
                     *binary = deleted_account;
+                    // keep other accounts with the same partial pubkey
+                    occ.get_mut().swap_remove(position);
+                    if occ.get().is_empty() {
+                        occ.remove();
+                    }
                     return;
                 }
             }
-- 
2.43.0


From d447044c82cee548dcaec69fe39e31645e1eec52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 16/48] fix: do not panic on token accounts whose mint is not
 known yet

---
 .../src/inmemory_token_storage.rs             | 20 +++++++++++++------
 .../src/token_program_utils.rs                |  3 ++-
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 7db27a7..5972b48 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -421,8 +421,9 @@ impl TokenProgramAccountsStorage {
             ));
         }
 
-        if let Some(mint_index) = self.mints_index_by_pubkey.get(&account_pk) {
-            let mint_data = self.mints_by_index.get(&mint_index).unwrap();
+        // mint can have an index but no data when it is only referenced by its token accounts
+        let mint_index = self.mints_index_by_pubkey.get(&account_pk).map(|x| *x);
+        if let Some(mint_data) = mint_index.and_then(|index| self.mints_by_index.get(&index)) {
             return Some(token_mint_to_solana_account(
                 &mint_data,
                 self.finalized_slot.load(Ordering::Relaxed),
@@ -465,7 +466,13 @@ impl TokenProgramAccountsStorage {
                     dashmap::mapref::entry::Entry::Vacant(_) => None,
                 };
 
-                let mint = mint.map(|pk| *self.mints_index_by_pubkey.get(&pk).unwrap().value());
+                let mint = match mint {
+                    Some(pk) => match self.mints_index_by_pubkey.get(&pk) {
+                        Some(mint_index) => Some(*mint_index.value()),
+                        None => return Ok(vec![]),
+                    },
+                    None => None,
+                };
 
                 match indexes {
                     Some(indexes) => {
@@ -718,6 +725,10 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                 // move data from processed storage to main storage
                 let finalized_accounts = self.processed_storage.finalize(slot_info.slot);
 
+                for (finalized_account, _) in &finalized_accounts {
+                    self.add_account_finalized(finalized_account.processed_account.clone());
+                }
+                // mints of the accounts could have been finalized at the same time
                 let accounts_notifications = finalized_accounts
                     .iter()
                     .filter_map(|(acc, slot)| {
@@ -729,9 +740,6 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                         )
                     })
                     .collect_vec();
-                for (finalized_account, _) in finalized_accounts {
-                    self.add_account_finalized(finalized_account.processed_account);
-                }
                 accounts_notifications
             }
         }
diff --git a/token_account_storage/src/token_program_utils.rs b/token_account_storage/src/token_program_utils.rs
index f69370f..5e12782 100644
--- a/token_account_storage/src/token_program_utils.rs
+++ b/token_account_storage/src/token_program_utils.rs
@@ -254,7 +254,8 @@ pub fn token_account_to_solana_account(
         return None;
     }
     let (delegate, delegated_amount) = token_account.delegate.unwrap_or_default();
-    let mint = mints_by_index.get(&token_account.mint).unwrap();
+    // cannot be converted until the mint is known
+    let mint = mints_by_index.get(&token_account.mint)?;
     let data = match token_account.program {
         Program::TokenProgram => {
             let t_acc = spl_token::state::Account {
-- 
2.43.0


From af2b72f6ac7fb918208786b0396adb2dffa8d4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 17/48] fix: token 2022 mints and accounts with extensions were
 always rejected

---
 token_account_storage/src/token_program_utils.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/token_account_storage/src/token_program_utils.rs b/token_account_storage/src/token_program_utils.rs
index 5e12782..ab87447 100644
--- a/token_account_storage/src/token_program_utils.rs
+++ b/token_account_storage/src/token_program_utils.rs
@@ -94,8 +94,9 @@ pub fn get_token_program_account_type(
         match type_account {
             0 => {
                 //mint
+                // extensions are after the base state
                 let mint = spl_token_2022::state::Mint::unpack_unchecked(
-                    &account_data.account.data.data(),
+                    &data[..spl_token_2022::state::Mint::LEN],
                 )?;
                 Ok(TokenProgramAccountType::Mint(MintAccount {
                     program: crate::account_types::Program::Token2022Program,
@@ -110,8 +111,9 @@ pub fn get_token_program_account_type(
                 }))
             }
             1 => {
+                // extensions are after the base state
                 let token_account = spl_token_2022::state::Account::unpack_unchecked(
-                    &account_data.account.data.data(),
+                    &data[..spl_token_2022::state::Account::LEN],
                 )?;
                 let mint_index = get_or_create_mint_index(
                     token_account.mint,
-- 
2.43.0


From a8b136e02c2062b62d8575083af6eb7f6e4e72ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 18/48] fix: keep the position of all the signers of a multisig

---
 token_account_storage/src/token_program_utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/token_account_storage/src/token_program_utils.rs b/token_account_storage/src/token_program_utils.rs
index ab87447..d727927 100644
--- a/token_account_storage/src/token_program_utils.rs
+++ b/token_account_storage/src/token_program_utils.rs
@@ -162,7 +162,7 @@ pub fn get_token_program_account_type(
                         signers: multi_sig
                             .signers
                             .iter()
-                            .filter(|x| **x != Pubkey::default())
+                            .take(multi_sig.n as usize)
                             .copied()
                             .collect_vec(),
                     },
@@ -234,7 +234,7 @@ pub fn get_token_program_account_type(
                     signers: multi_sig
                         .signers
                         .iter()
-                        .filter(|x| **x != Pubkey::default())
+                        .take(multi_sig.n as usize)
                         .copied()
                         .collect_vec(),
                 },
-- 
2.43.0


From d5dba92adf8845d0a1125643c4dcb5fed435f7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 19/48] fix: remove closed multisigs, and snapshot only
 multisigs of the program

---
 token_account_storage/src/inmemory_token_storage.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 5972b48..dfc58ed 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -389,7 +389,7 @@ impl TokenProgramAccountsStorage {
                     TOKEN_MINTS_IN_MEMORY.dec();
                     self.mints_by_index.remove(&index);
                     self.accounts_index_by_mint.remove(&index);
-                } else if self.mints_index_by_pubkey.remove(&account_pk).is_some() {
+                } else if self.multisigs.remove(&account_pk).is_some() {
                     // do nothing multisig account is removed
                 } else {
                     self.token_accounts_storage.delete(&account_pk);
@@ -766,7 +766,12 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             })
             .collect_vec();
 
-        let multisigs = self.multisigs.iter().map(|ite| ite.clone()).collect_vec();
+        let multisigs = self
+            .multisigs
+            .iter()
+            .filter(|multisig| multisig.program == program)
+            .map(|ite| ite.clone())
+            .collect_vec();
         let token_accounts = self.token_accounts_storage.create_snapshot(program)?;
 
         let snapshot = TokenProgramSnapshot {
-- 
2.43.0


From 7d683ed560f12dfe999d55873d495191a15d0d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:19 +0000
Subject: [PATCH 20/48] fix: keep the owner and mint indexes up to date when a
 token account changes of owner or mint

---
 .../src/inmemory_token_storage.rs              | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index dfc58ed..58741f4 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -336,14 +336,23 @@ impl TokenProgramAccountsStorage {
             TokenProgramAccountType::TokenAccount(token_account) => {
                 let token_account_owner = token_account.owner;
                 let mint_index = token_account.mint;
+                let previous = self
+                    .token_accounts_storage
+                    .get_by_pubkey(&token_account.pubkey);
                 let (token_index, is_added) =
                     self.token_accounts_storage.save_or_update(token_account);
-                if is_added {
+                // owner (and mint if recreated) of a token account can change
+                let is_moved = !previous.is_some_and(|previous| {
+                    previous.owner == token_account_owner && previous.mint == mint_index
+                });
+                if is_added || is_moved {
                     // add account to the indexes
                     // add account index in accounts_index_by_mint map
                     match self.accounts_index_by_mint.entry(mint_index) {
                         dashmap::mapref::entry::Entry::Occupied(mut occ) => {
-                            occ.get_mut().push_back(token_index);
+                            if is_added || !occ.get().contains(&token_index) {
+                                occ.get_mut().push_back(token_index);
+                            }
                         }
                         dashmap::mapref::entry::Entry::Vacant(v) => {
                             let mut q = VecDeque::new();
@@ -358,7 +367,9 @@ impl TokenProgramAccountsStorage {
                         .entry(token_account_owner.into())
                     {
                         dashmap::mapref::entry::Entry::Occupied(mut occ) => {
-                            occ.get_mut().push(token_index);
+                            if is_added || !occ.get().contains(&token_index) {
+                                occ.get_mut().push(token_index);
+                            }
                         }
                         dashmap::mapref::entry::Entry::Vacant(v) => {
                             v.insert(vec![token_index]);
@@ -515,6 +526,7 @@ impl TokenProgramAccountsStorage {
                                 .token_accounts_storage
                                 .get_by_index(indexes)?
                                 .iter()
+                                .filter(|acc| acc.mint == *mint_index.value())
                                 .filter_map(|token_account| {
                                     token_account_to_solana_account(
                                         token_account,
-- 
2.43.0


From 4d2fc385d786e34dbc2497003f143585b4df6d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:19 +0000
Subject: [PATCH 21/48] fix: token accounts were lost when their mint was
 closed and recreated

---
 .../src/inmemory_token_storage.rs                  | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 58741f4..df27adb 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -380,7 +380,9 @@ impl TokenProgramAccountsStorage {
             TokenProgramAccountType::Mint(mint_data) => {
                 match self.mints_index_by_pubkey.entry(mint_data.pubkey) {
                     dashmap::mapref::entry::Entry::Occupied(occ) => {
-                        self.mints_by_index.insert(*occ.get(), mint_data);
+                        if self.mints_by_index.insert(*occ.get(), mint_data).is_none() {
+                            TOKEN_MINTS_IN_MEMORY.inc();
+                        }
                     }
                     dashmap::mapref::entry::Entry::Vacant(v) => {
                         TOKEN_MINTS_IN_MEMORY.inc();
@@ -396,10 +398,14 @@ impl TokenProgramAccountsStorage {
                 self.multisigs.insert(pubkey, multisig_data);
             }
             TokenProgramAccountType::Deleted(account_pk) => {
-                if let Some((_, index)) = self.mints_index_by_pubkey.remove(&account_pk) {
+                // keep the index of the mint, token accounts which are still referring to it should
+                // be found again if the mint is recreated
+                let mint_index = self.mints_index_by_pubkey.get(&account_pk).map(|x| *x);
+                if mint_index
+                    .and_then(|index| self.mints_by_index.remove(&index))
+                    .is_some()
+                {
                     TOKEN_MINTS_IN_MEMORY.dec();
-                    self.mints_by_index.remove(&index);
-                    self.accounts_index_by_mint.remove(&index);
                 } else if self.multisigs.remove(&account_pk).is_some() {
                     // do nothing multisig account is removed
                 } else {
-- 
2.43.0


From 86e6528f846dc36f61c0772f5a28c452efcdf908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:19 +0000
Subject: [PATCH 22/48] fix: remember the parent of a slot without token
 accounts

---
 token_account_storage/src/inmemory_token_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index df27adb..fb7d30b 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -140,7 +140,7 @@ impl ProcessedAccountStore {
                     slot_info.slot,
                     ProcessedAccountBySlot {
                         processed_accounts: HashMap::new(),
-                        slot_parent: None,
+                        slot_parent: Some(slot_info.parent),
                     },
                 );
             }
-- 
2.43.0


From 699475e43584deb86284e127b1cf39aba551ae03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:19 +0000
Subject: [PATCH 23/48] fix: confirmed and finalized slots of the token storage
 should never go backwards

---
 .../src/inmemory_token_storage.rs             | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index fb7d30b..b5f0473 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -2,7 +2,7 @@ use std::{
     collections::{BTreeMap, HashMap, HashSet, VecDeque},
     sync::{
         atomic::{AtomicU32, AtomicU64, Ordering},
-        Arc, RwLock,
+        Arc, Mutex, RwLock,
     },
 };
 
@@ -168,8 +168,6 @@ impl ProcessedAccountStore {
                 .collect(),
             None => {
                 log::error!("confirmed slot not found in cache : {}", slot_info.slot);
-                drop(lk);
-                self.update_slot_info(slot_info);
                 vec![]
             }
         }
@@ -310,6 +308,8 @@ pub struct TokenProgramAccountsStorage {
     processed_storage: ProcessedAccountStore,
     confirmed_slot: Arc<AtomicU64>,
     finalized_slot: Arc<AtomicU64>,
+    // finalized state is updated by one writer at a time
+    finalization_lock: Arc<Mutex<()>>,
     mint_counter: Arc<AtomicU32>,
 }
 
@@ -326,6 +326,7 @@ impl TokenProgramAccountsStorage {
             processed_storage: ProcessedAccountStore::default(),
             confirmed_slot: Arc::new(AtomicU64::new(0)),
             finalized_slot: Arc::new(AtomicU64::new(0)),
+            finalization_lock: Arc::new(Mutex::new(())),
             mint_counter: Arc::new(AtomicU32::new(0)),
         }
     }
@@ -726,19 +727,26 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             }
             Commitment::Confirmed => {
                 log::debug!("confirm slot data  : {slot_info:?}");
-                if self.confirmed_slot.load(Ordering::Relaxed) < slot_info.slot {
-                    self.confirmed_slot.store(slot_info.slot, Ordering::Relaxed);
+                if self.finalized_slot.load(Ordering::Relaxed) < slot_info.slot {
                     self.processed_storage.update_slot_info(slot_info);
+                    self.confirmed_slot
+                        .fetch_max(slot_info.slot, Ordering::Relaxed);
                 }
                 self.processed_storage
                     .get_processed_for_slot(slot_info, &self.mints_by_index)
             }
             Commitment::Finalized => {
                 log::debug!("finalize slot data  : {slot_info:?}");
-                if self.finalized_slot.load(Ordering::Relaxed) < slot_info.slot {
-                    self.processed_storage.update_slot_info(slot_info);
-                    self.finalized_slot.store(slot_info.slot, Ordering::Relaxed);
+                let _finalization_lock = self.finalization_lock.lock().unwrap();
+                if self.finalized_slot.load(Ordering::Relaxed) >= slot_info.slot {
+                    // slot was already finalized
+                    return vec![];
                 }
+                self.processed_storage.update_slot_info(slot_info);
+                // a finalized slot is also confirmed
+                self.confirmed_slot
+                    .fetch_max(slot_info.slot, Ordering::Relaxed);
+                self.finalized_slot.store(slot_info.slot, Ordering::Relaxed);
 
                 // move data from processed storage to main storage
                 let finalized_accounts = self.processed_storage.finalize(slot_info.slot);
-- 
2.43.0


From 4441d822feff022ce3629f62dd25801f5cbb8e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:20 +0000
Subject: [PATCH 24/48] fix: token updates of an already finalized slot should
 not overwrite newer states, and accounts which are not finalized yet can be
 closed

---
 .../src/inmemory_token_storage.rs             | 38 ++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index b5f0473..a5c9bc1 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -64,8 +64,14 @@ impl ProcessedAccountStore {
         processed_account: TokenProgramAccountType,
         write_version: u64,
         slot: Slot,
+        finalized_slot: &AtomicU64,
     ) -> bool {
         let mut lk = self.processed_slot_accounts.write().unwrap();
+        let finalized_slot = finalized_slot.load(Ordering::Relaxed);
+        if finalized_slot != 0 && slot <= finalized_slot {
+            // too late the slot is already finalized
+            return false;
+        }
         match lk.get_mut(&slot) {
             Some(processed_account_by_slot) => {
                 match processed_account_by_slot
@@ -123,6 +129,25 @@ impl ProcessedAccountStore {
         }
     }
 
+    pub fn contains(&self, account_pk: &Pubkey) -> bool {
+        let lk = self.processed_slot_accounts.read().unwrap();
+        lk.values()
+            .any(|slot| slot.processed_accounts.contains_key(account_pk))
+    }
+
+    pub fn remove_account_until(&self, account_pk: &Pubkey, slot: Slot) {
+        let mut lk = self.processed_slot_accounts.write().unwrap();
+        for (_, processed_account_by_slot) in lk.range_mut(..=slot) {
+            if processed_account_by_slot
+                .processed_accounts
+                .remove(account_pk)
+                .is_some()
+            {
+                TOKEN_PROGRAM_TOTAL_PROCESSED_ACCOUNTS.dec();
+            }
+        }
+    }
+
     pub fn update_slot_info(&self, slot_info: SlotInfo) {
         log::debug!(
             "update slot info slot : {}, parent: {}, root: {}",
@@ -427,6 +452,7 @@ impl TokenProgramAccountsStorage {
                 .token_accounts_storage
                 .contains(&account_data.pubkey)
                 .is_some()
+            || self.processed_storage.contains(&account_data.pubkey)
     }
 
     pub fn get_account_finalized(&self, account_pk: Pubkey) -> Option<AccountData> {
@@ -608,9 +634,15 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                 token_program_account,
                 account_data.write_version,
                 account_data.updated_slot,
+                &self.finalized_slot,
             )
         } else {
-            self.add_account_finalized(token_program_account)
+            let _finalization_lock = self.finalization_lock.lock().unwrap();
+            let is_updated = self.add_account_finalized(token_program_account);
+            // unfinalized updates which are older are outdated
+            self.processed_storage
+                .remove_account_until(&account_data.pubkey, account_data.updated_slot);
+            is_updated
         }
     }
 
@@ -636,7 +668,11 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                 return;
             }
         };
+        let _finalization_lock = self.finalization_lock.lock().unwrap();
         self.add_account_finalized(token_program_account);
+        // unfinalized updates which are older are outdated
+        self.processed_storage
+            .remove_account_until(&account_data.pubkey, account_data.updated_slot);
     }
 
     fn get_account(
-- 
2.43.0


From eea338f6fee9b3a447d3c5c5f5a81238bccfdd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:20 +0000
Subject: [PATCH 25/48] fix: token accounts which are being finalized were not
 visible, and a slot being its own parent was looping forever

---
 .../src/inmemory_token_storage.rs             | 41 +++++++++++--------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index a5c9bc1..66deed2 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -202,14 +202,12 @@ impl ProcessedAccountStore {
     pub fn finalize(&self, slot: u64) -> Vec<(ProcessedAccount, u64)> {
         log::debug!("finalizing slot : {slot}");
         let mut map_of_accounts: HashMap<Pubkey, (ProcessedAccount, u64)> = HashMap::new();
-        let mut lk = self.processed_slot_accounts.write().unwrap();
+        let lk = self.processed_slot_accounts.read().unwrap();
         let mut process_slot = Some(slot);
         while let Some(current_slot) = process_slot {
-            match lk.entry(current_slot) {
-                std::collections::btree_map::Entry::Occupied(mut occ) => {
-                    let value = occ.get_mut();
-                    for (pk, acc) in value.processed_accounts.drain() {
-                        TOKEN_PROGRAM_TOTAL_PROCESSED_ACCOUNTS.dec();
+            match lk.get(&current_slot) {
+                Some(value) => {
+                    for (pk, acc) in value.processed_accounts.clone() {
                         // as we are going from most recent slot to least recent slot
                         // if the key already exists then we do not insert in the map
                         match map_of_accounts.entry(pk) {
@@ -222,28 +220,32 @@ impl ProcessedAccountStore {
                             }
                         }
                     }
-                    process_slot = value.slot_parent;
-                    occ.remove();
+                    // parent slot is always before the slot
+                    process_slot = value.slot_parent.filter(|parent| *parent < current_slot);
                 }
-                std::collections::btree_map::Entry::Vacant(_) => {
+                None => {
                     break;
                 }
             }
         }
+        let mut return_vec = Vec::with_capacity(map_of_accounts.len());
+        for (_, acc) in map_of_accounts.drain() {
+            return_vec.push(acc);
+        }
+        return_vec
+    }
 
-        // remove processed nodes less than finalized slot
+    // remove processed nodes less than finalized slot
+    pub fn remove_until(&self, slot: u64) {
+        let mut lk = self.processed_slot_accounts.write().unwrap();
         while let Some(first_entry) = lk.first_entry() {
             if *first_entry.key() <= slot {
-                first_entry.remove();
+                let removed = first_entry.remove();
+                TOKEN_PROGRAM_TOTAL_PROCESSED_ACCOUNTS.sub(removed.processed_accounts.len() as i64);
             } else {
                 break;
             }
         }
-        let mut return_vec = Vec::with_capacity(map_of_accounts.len());
-        for (_, acc) in map_of_accounts.drain() {
-            return_vec.push(acc);
-        }
-        return_vec
     }
 
     pub fn get_confirmed_accounts(
@@ -269,7 +271,10 @@ impl ProcessedAccountStore {
                     if return_list.iter().all(|x| x.is_some()) {
                         break;
                     }
-                    process_slot = processed_accounts.slot_parent;
+                    // parent slot is always before the slot
+                    process_slot = processed_accounts
+                        .slot_parent
+                        .filter(|parent| *parent < current_slot);
                 }
                 None => {
                     break;
@@ -790,6 +795,8 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                 for (finalized_account, _) in &finalized_accounts {
                     self.add_account_finalized(finalized_account.processed_account.clone());
                 }
+                // remove only when added to main storage, so that the accounts can always be read
+                self.processed_storage.remove_until(slot_info.slot);
                 // mints of the accounts could have been finalized at the same time
                 let accounts_notifications = finalized_accounts
                     .iter()
-- 
2.43.0


From 0f4fb89f9274bf58b4fb358cf0d93e85dc841ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:01 +0000
Subject: [PATCH 26/48] fix: token program queries should take into account
 unfinalized accounts, the program and all the filters

---
 .../src/inmemory_token_storage.rs             | 81 +++++++++++--------
 .../src/token_program_utils.rs                | 19 ++---
 2 files changed, 57 insertions(+), 43 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 66deed2..495024e 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -326,6 +326,26 @@ impl ProcessedAccountStore {
         };
         return_list
     }
+
+    // all unfinalized accounts as they are for the commitment
+    pub fn get_all_accounts(
+        &self,
+        commitment: Commitment,
+        confirmed_slot: Slot,
+    ) -> HashMap<Pubkey, (ProcessedAccount, u64)> {
+        let account_pks = {
+            let lk = self.processed_slot_accounts.read().unwrap();
+            lk.values()
+                .flat_map(|slot| slot.processed_accounts.keys().cloned())
+                .unique()
+                .collect_vec()
+        };
+        self.get_accounts(account_pks.clone(), commitment, confirmed_slot)
+            .into_iter()
+            .zip(account_pks)
+            .filter_map(|(account, account_pk)| account.map(|account| (account_pk, account)))
+            .collect()
+    }
 }
 
 pub struct TokenProgramAccountsStorage {
@@ -720,42 +740,35 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         if program_pubkey != spl_token::id() && program_pubkey != spl_token_2022::id() {
             return Err(AccountLoadingError::WrongIndex);
         }
+        // get all unfinalized accounts first, so that an account which is being finalized is not missed
+        let unfinalized_accounts = match commitment {
+            Commitment::Processed | Commitment::Confirmed => self
+                .processed_storage
+                .get_all_accounts(commitment, self.confirmed_slot.load(Ordering::Relaxed)),
+            Commitment::Finalized => HashMap::new(),
+        };
         // get all accounts for finalized commitment and update them if necessary
         let mut account_data =
-            self.get_program_accounts_finalized(program_pubkey, account_filters)?;
-        let confirmed_slot = self.confirmed_slot.load(Ordering::Relaxed);
-        if commitment == Commitment::Processed || commitment == Commitment::Confirmed {
-            // get list of all pks to search
-            let pks = account_data.iter().map(|x| x.pubkey).collect_vec();
-            let processed_accounts =
-                self.processed_storage
-                    .get_accounts(pks, commitment, confirmed_slot);
-            let mut to_remove = vec![];
-            for (index, processed_account) in processed_accounts.iter().enumerate() {
-                if let Some((processed_account, slot)) = processed_account {
-                    let updated_account = token_program_account_to_solana_account(
-                        &processed_account.processed_account,
-                        *slot,
-                        processed_account.write_version,
-                        &self.mints_by_index,
-                    );
-                    match updated_account {
-                        Some(updated_account) => {
-                            // update with processed or confirmed account state
-                            *account_data.get_mut(index).unwrap() = updated_account;
-                        }
-                        None => {
-                            // account must have been deleted
-                            to_remove.push(index);
-                        }
-                    }
-                }
-            }
-
-            for index in to_remove.iter().rev() {
-                account_data.remove(*index);
-            }
-        }
+            self.get_program_accounts_finalized(program_pubkey, account_filters.clone())?;
+        account_data.retain(|x| !unfinalized_accounts.contains_key(&x.pubkey));
+        account_data.extend(unfinalized_accounts.values().filter_map(
+            |(processed_account, slot)| {
+                token_program_account_to_solana_account(
+                    &processed_account.processed_account,
+                    *slot,
+                    processed_account.write_version,
+                    &self.mints_by_index,
+                )
+            },
+        ));
+        // indexes do not take into account the program and all the filters
+        account_data.retain(|x| {
+            x.account.owner == program_pubkey
+                && account_filters
+                    .iter()
+                    .flatten()
+                    .all(|filter| filter.allows(&x.account.data.data()))
+        });
         Ok(account_data)
     }
 
diff --git a/token_account_storage/src/token_program_utils.rs b/token_account_storage/src/token_program_utils.rs
index d727927..898147c 100644
--- a/token_account_storage/src/token_program_utils.rs
+++ b/token_account_storage/src/token_program_utils.rs
@@ -8,7 +8,7 @@ use dashmap::DashMap;
 use itertools::Itertools;
 use lite_account_manager_common::{
     account_data::{Account, AccountData},
-    account_filter::{AccountFilterType, MemcmpFilter, MemcmpFilterData},
+    account_filter::AccountFilterType,
 };
 use solana_sdk::{
     program_option::COption,
@@ -480,7 +480,7 @@ pub fn get_spl_token_owner_mint_filter(
     filters: &[AccountFilterType],
 ) -> (Option<Pubkey>, Option<Pubkey>) {
     let mut data_size_filter: Option<u64> = None;
-    let mut memcmp_filter: Option<&[u8]> = None;
+    let mut memcmp_filter: Option<Vec<u8>> = None;
     let mut owner_key: Option<Pubkey> = None;
     let mut incorrect_owner_len: Option<usize> = None;
     let mut incorrect_mint_len: Option<usize> = None;
@@ -492,13 +492,13 @@ pub fn get_spl_token_owner_mint_filter(
     for filter in filters {
         match filter {
             AccountFilterType::Datasize(size) => data_size_filter = Some(*size),
-            AccountFilterType::Memcmp(MemcmpFilter {
-                offset,
-                data: MemcmpFilterData::Bytes(bytes),
-                ..
-            }) => {
+            AccountFilterType::Memcmp(filter) => {
+                let offset = &filter.offset;
+                let Ok(bytes) = filter.try_bytes() else {
+                    continue;
+                };
                 if *offset == account_packed_len && *program_id == spl_token_2022::id() {
-                    memcmp_filter = Some(bytes)
+                    memcmp_filter = Some(bytes.clone())
                 };
                 if *offset == SPL_TOKEN_ACCOUNT_OWNER_OFFSET {
                     if bytes.len() == PUBKEY_BYTES {
@@ -518,7 +518,8 @@ pub fn get_spl_token_owner_mint_filter(
             _ => {}
         }
     }
-    if data_size_filter == Some(account_packed_len) || memcmp_filter == Some(&[ACCOUNTTYPE_ACCOUNT])
+    if data_size_filter == Some(account_packed_len)
+        || memcmp_filter == Some(vec![ACCOUNTTYPE_ACCOUNT])
     {
         if let Some(incorrect_owner_len) = incorrect_owner_len {
             log::error!(
-- 
2.43.0


From b53ce69233ee43392e9a882b9c02fd73aa05f92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:01 +0000
Subject: [PATCH 27/48] fix: token snapshot could not be loaded, and loading it
 should keep the indexes of existing mints

---
 token_account_storage/src/account_types.rs    | 13 ++++
 .../src/inmemory_token_storage.rs             | 61 +++++++------------
 2 files changed, 35 insertions(+), 39 deletions(-)

diff --git a/token_account_storage/src/account_types.rs b/token_account_storage/src/account_types.rs
index 78a556b..1745faa 100644
--- a/token_account_storage/src/account_types.rs
+++ b/token_account_storage/src/account_types.rs
@@ -176,6 +176,19 @@ impl TokenAccount {
         bytes
     }
 
+    // returns none if bytes were not created by to_bytes
+    pub fn try_from_bytes(v: &[u8]) -> Option<TokenAccount> {
+        let bit_flags = *v.first()?;
+        let has = |bit: u8| ((bit_flags >> bit) & 0x1) as usize;
+        let mut size = 78 + has(4) * (32 + 8) + has(5) * 8 + has(6) * 32;
+        if has(7) == 1 {
+            let additional_data_size = u32::from_le_bytes(v.get(size..size + 4)?.try_into().ok()?);
+            size += 4 + additional_data_size as usize;
+        }
+        let is_valid = v.len() == size && v[1] <= 1 && (bit_flags >> 2) & 0x3 != 0x3;
+        is_valid.then(|| Self::from_bytes(v))
+    }
+
     pub fn from_bytes(v: &[u8]) -> TokenAccount {
         let header: [u8; 78] = v[0..78].try_into().unwrap();
         let mut others = &v[78..];
diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 495024e..91aa809 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -24,7 +24,7 @@ use crate::{
     account_types::{MintAccount, MintIndex, MultiSig, Program, TokenAccount, TokenAccountIndex},
     token_account_storage_interface::TokenAccountStorageInterface,
     token_program_utils::{
-        get_spl_token_owner_mint_filter, get_token_program_account_type,
+        get_or_create_mint_index, get_spl_token_owner_mint_filter, get_token_program_account_type,
         token_account_to_solana_account, token_mint_to_solana_account,
         token_multisig_to_solana_account, token_program_account_to_solana_account,
         TokenProgramAccountType,
@@ -866,7 +866,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         lz4::block::compress(
             &binary,
             Some(lz4::block::CompressionMode::HIGHCOMPRESSION(8)),
-            false,
+            true,
         )
         .map_err(|_| AccountLoadingError::CompressionIssues)
     }
@@ -887,6 +887,14 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             token_accounts,
         } = snapshot;
 
+        // check all the accounts before updating anything
+        let token_accounts = token_accounts
+            .iter()
+            .map(|bytes| TokenAccount::try_from_bytes(bytes))
+            .collect::<Option<Vec<_>>>()
+            .ok_or(AccountLoadingError::DeserializationIssues)?;
+
+        let _finalization_lock = self.finalization_lock.lock().unwrap();
         for multisig in multisigs {
             self.multisigs.insert(multisig.pubkey, multisig);
         }
@@ -894,45 +902,20 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         let mut mint_mapping = HashMap::<MintIndex, MintIndex>::new();
         // remap all the mints
         for (index, mint_account) in mints {
-            match self.mints_index_by_pubkey.get_mut(&mint_account.pubkey) {
-                Some(value) => {
-                    mint_mapping.insert(index, *value);
-                    self.mints_by_index.insert(index, mint_account);
-                }
-                None => {
-                    let mint_index = self.mint_counter.fetch_add(1, Ordering::Relaxed);
-                    mint_mapping.insert(index, mint_index);
-                    self.mints_by_index.insert(mint_index, mint_account);
-                }
-            }
+            let mint_index = get_or_create_mint_index(
+                mint_account.pubkey,
+                &self.mints_index_by_pubkey,
+                &self.mint_counter,
+            );
+            mint_mapping.insert(index, mint_index);
+            self.add_account_finalized(TokenProgramAccountType::Mint(mint_account));
         }
 
-        for token_account_bytes in token_accounts {
-            // use the new mint index
-            let mut token_account = TokenAccount::from_bytes(&token_account_bytes);
-            let new_mint_index = *mint_mapping.get(&token_account.mint).unwrap();
-            token_account.mint = new_mint_index;
-            let owner = token_account.owner;
-            let (index, is_added) = self.token_accounts_storage.save_or_update(token_account);
-            if is_added {
-                match self.account_by_owner_pubkey.get_mut(&owner.into()) {
-                    Some(mut accs) => accs.push(index),
-                    None => {
-                        self.account_by_owner_pubkey
-                            .insert(owner.into(), vec![index]);
-                    }
-                }
-
-                match self.accounts_index_by_mint.get_mut(&new_mint_index) {
-                    Some(mut accs) => {
-                        accs.push_back(index);
-                    }
-                    None => {
-                        let mut q = VecDeque::new();
-                        q.push_back(index);
-                        self.accounts_index_by_mint.insert(new_mint_index, q);
-                    }
-                }
+        for mut token_account in token_accounts {
+            // use the new mint index, token accounts without a mint cannot be used
+            if let Some(new_mint_index) = mint_mapping.get(&token_account.mint) {
+                token_account.mint = *new_mint_index;
+                self.add_account_finalized(TokenProgramAccountType::TokenAccount(token_account));
             }
         }
 
-- 
2.43.0


From 6b11223f2dad55a2809ec5d797c6ea0aa8ebee74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:01 +0000
Subject: [PATCH 28/48] fix: report the write version of unfinalized token
 accounts

---
 token_account_storage/src/inmemory_token_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 91aa809..226c965 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -721,7 +721,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                     Some((processed_account, slot)) => Ok(token_program_account_to_solana_account(
                         &processed_account.processed_account,
                         *slot,
-                        0,
+                        processed_account.write_version,
                         &self.mints_by_index,
                     )),
                     None => Ok(self.get_account_finalized(account_pk)),
-- 
2.43.0


From d8178a398fc4d4ed5136144058b0a75e994bb28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 29/48] fix: remove unreachable pattern in token filters

---
 token_account_storage/src/token_program_utils.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/token_account_storage/src/token_program_utils.rs b/token_account_storage/src/token_program_utils.rs
index 898147c..902c8d9 100644
--- a/token_account_storage/src/token_program_utils.rs
+++ b/token_account_storage/src/token_program_utils.rs
@@ -515,7 +515,6 @@ pub fn get_spl_token_owner_mint_filter(
                     }
                 }
             }
-            _ => {}
         }
     }
     if data_size_filter == Some(account_packed_len)
-- 
2.43.0


From 1723efea380949db20e499356e7bd6873899124c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:20 +0000
Subject: [PATCH 30/48] fix: accounts on demand should report failed loadings
 and retry them, detect timeouts, and not answer before accounts are loaded

---
 accounts_on_demand/src/accounts_on_demand.rs | 191 ++++++++++++++-----
 1 file changed, 141 insertions(+), 50 deletions(-)

diff --git a/accounts_on_demand/src/accounts_on_demand.rs b/accounts_on_demand/src/accounts_on_demand.rs
index e288591..eb3e766 100644
--- a/accounts_on_demand/src/accounts_on_demand.rs
+++ b/accounts_on_demand/src/accounts_on_demand.rs
@@ -6,13 +6,14 @@ use lite_account_manager_common::{
     accounts_source_interface::AccountsSourceInterface,
     commitment::Commitment,
     mutable_filter_store::MutableFilterStore,
+    simple_filter_store::SimpleFilterStore,
     slot_info::SlotInfo,
 };
 use prometheus::{opts, register_int_gauge, IntGauge};
 use solana_sdk::pubkey::Pubkey;
 use std::sync::Condvar;
 use std::{
-    collections::{BTreeMap, HashMap, HashSet},
+    collections::{BTreeMap, BTreeSet, HashMap, HashSet},
     sync::{Arc, Mutex},
     time::Duration,
 };
@@ -33,6 +34,9 @@ pub struct AccountsOnDemand {
     accounts_storage: Arc<dyn AccountStorageInterface>,
     accounts_in_loading: Arc<Mutex<HashMap<Pubkey, Arc<Condvar>>>>,
     gpa_in_loading: Arc<Mutex<BTreeMap<GpaAccountKey, Arc<Condvar>>>>,
+    // filters which are registered but not loaded, because the last loading has failed
+    failed_accounts: Arc<Mutex<HashSet<Pubkey>>>,
+    failed_gpa: Arc<Mutex<BTreeSet<GpaAccountKey>>>,
 }
 
 impl AccountsOnDemand {
@@ -47,8 +51,58 @@ impl AccountsOnDemand {
             accounts_storage: accounts_storage.clone(),
             accounts_in_loading: Arc::new(Mutex::new(HashMap::new())),
             gpa_in_loading: Arc::new(Mutex::new(BTreeMap::new())),
+            failed_accounts: Arc::new(Mutex::new(HashSet::new())),
+            failed_gpa: Arc::new(Mutex::new(BTreeSet::new())),
         }
     }
+
+    fn load_account(&self, account_pk: Pubkey) -> Result<(), AccountLoadingError> {
+        log::debug!("subscribing to accounts update : {}", account_pk);
+        let mut hash_set = HashSet::new();
+        hash_set.insert(account_pk);
+        self.accounts_source
+            .subscribe_accounts(hash_set)
+            .map_err(|_| AccountLoadingError::ErrorSubscribingAccount)?;
+
+        // save snapshot
+        let account_filter = vec![AccountFilter {
+            accounts: vec![account_pk],
+            program_id: None,
+            filters: None,
+        }];
+        // storage may use the filters to accept the account
+        self.mutable_filters.add_account_filters(&account_filter);
+        self.accounts_source
+            .save_snapshot(self.accounts_storage.clone(), account_filter)
+            .map_err(|_| AccountLoadingError::ErrorCreatingSnapshot)
+    }
+
+    fn load_program_accounts(
+        &self,
+        account_filter: AccountFilter,
+        program_id: Pubkey,
+    ) -> Result<(), AccountLoadingError> {
+        self.accounts_source
+            .subscribe_program_accounts(program_id, account_filter.filters.clone())
+            .map_err(|_| AccountLoadingError::ErrorSubscribingAccount)?;
+        self.mutable_filters
+            .add_account_filters(&vec![account_filter.clone()]);
+
+        self.accounts_source
+            .save_snapshot(self.accounts_storage.clone(), vec![account_filter])
+            .map_err(|_| AccountLoadingError::ErrorCreatingSnapshot)
+    }
+}
+
+// all the accounts of the query are also accounts of the key
+fn is_covered_by(query: &AccountFilter, (program_id, filters): &GpaAccountKey) -> bool {
+    let mut filter_store = SimpleFilterStore::default();
+    filter_store.add_account_filter(&AccountFilter {
+        accounts: vec![],
+        program_id: Some(*program_id),
+        filters: (!filters.is_empty()).then(|| filters.clone()),
+    });
+    filter_store.contains_filter(query)
 }
 
 impl AccountStorageInterface for AccountsOnDemand {
@@ -76,46 +130,55 @@ impl AccountStorageInterface for AccountsOnDemand {
                 let mut lk = self.accounts_in_loading.lock().unwrap();
                 match lk.get(&account_pk).cloned() {
                     Some(loading_account) => {
-                        match loading_account.wait_timeout(lk, Duration::from_secs(10)) {
-                            Ok(_) => self.accounts_storage.get_account(account_pk, commitment),
-                            Err(_timeout) => Err(AccountLoadingError::OperationTimeOut),
+                        // wait until this loading is over, condvar can be woken up spuriously
+                        let (lk, timeout) = loading_account
+                            .wait_timeout_while(lk, Duration::from_secs(10), |loading| {
+                                loading
+                                    .get(&account_pk)
+                                    .is_some_and(|x| Arc::ptr_eq(x, &loading_account))
+                            })
+                            .unwrap();
+                        if timeout.timed_out() {
+                            return Err(AccountLoadingError::OperationTimeOut);
+                        }
+                        if self.failed_accounts.lock().unwrap().contains(&account_pk) {
+                            return Err(AccountLoadingError::ErrorCreatingSnapshot);
                         }
+                        drop(lk);
+                        self.accounts_storage.get_account(account_pk, commitment)
                     }
                     None => {
                         // account is not loading
-                        if self.mutable_filters.contains_account(account_pk) {
-                            // account was already tried to be loaded but does not exists
-                            Ok(None)
+                        if self.mutable_filters.contains_account(account_pk)
+                            && !self.failed_accounts.lock().unwrap().contains(&account_pk)
+                        {
+                            // account was already tried to be loaded, it does not exists unless it
+                            // was loaded after we have looked for it
+                            self.accounts_storage.get_account(account_pk, commitment)
                         } else {
                             // update account loading map
                             // create a notify for accounts under loading
                             lk.insert(account_pk, Arc::new(Condvar::new()));
-                            log::debug!("subscribing to accounts update : {}", account_pk);
-                            let mut hash_set = HashSet::new();
-                            hash_set.insert(account_pk);
-                            self.accounts_source
-                                .subscribe_accounts(hash_set)
-                                .map_err(|_| AccountLoadingError::ErrorSubscribingAccount)?;
                             drop(lk);
 
-                            // save snapshot
-                            let account_filter = vec![AccountFilter {
-                                accounts: vec![account_pk],
-                                program_id: None,
-                                filters: None,
-                            }];
-                            self.accounts_source
-                                .save_snapshot(self.accounts_storage.clone(), account_filter)
-                                .map_err(|_| AccountLoadingError::ErrorCreatingSnapshot)?;
+                            let result = self.load_account(account_pk);
                             // update loading lock
                             {
                                 let mut write_lock = self.accounts_in_loading.lock().unwrap();
+                                let mut failed_accounts = self.failed_accounts.lock().unwrap();
+                                if result.is_ok() {
+                                    failed_accounts.remove(&account_pk);
+                                } else {
+                                    failed_accounts.insert(account_pk);
+                                }
+                                drop(failed_accounts);
                                 let notify = write_lock.remove(&account_pk);
                                 drop(write_lock);
                                 if let Some(notify) = notify {
                                     notify.notify_all();
                                 }
                             }
+                            result?;
                             self.accounts_storage.get_account(account_pk, commitment)
                         }
                     }
@@ -137,29 +200,48 @@ impl AccountStorageInterface for AccountsOnDemand {
         };
         // accounts on demand will fetch gPA if they do not exist
         // it will first compare with existing filters and do the necessary if needed
-        if self.mutable_filters.contains_filter(&account_filter) {
+        // filters are registered before the accounts are loaded, so check for loading first
+        let mut lk = self.gpa_in_loading.lock().unwrap();
+        let loading = lk
+            .iter()
+            .find(|(key, _)| is_covered_by(&account_filter, key))
+            .map(|(key, loading)| (key.clone(), loading.clone()));
+        let failed = self
+            .failed_gpa
+            .lock()
+            .unwrap()
+            .iter()
+            .any(|key| is_covered_by(&account_filter, key));
+        if loading.is_none() && !failed && self.mutable_filters.contains_filter(&account_filter) {
+            drop(lk);
             self.accounts_storage
                 .get_program_accounts(program_id, filters.clone(), commitment)
         } else {
             // subsribing to new gpa accounts
-            let mut lk = self.gpa_in_loading.lock().unwrap();
-            match lk
-                .get(&(program_id, filters.clone().unwrap_or_default()))
-                .cloned()
-            {
-                Some(loading_account) => {
-                    match loading_account.wait_timeout(lk, Duration::from_secs(10)) {
-                        Ok(_) => self.accounts_storage.get_program_accounts(
-                            program_id,
-                            filters.clone(),
-                            commitment,
-                        ),
-                        Err(_timeout) => {
-                            // todo replace with error
-                            log::error!("gPA on program : {}", program_id.to_string());
-                            Err(AccountLoadingError::OperationTimeOut)
-                        }
+            match loading {
+                Some((key, loading_account)) => {
+                    // wait until this loading is over, condvar can be woken up spuriously
+                    let (lk, timeout) = loading_account
+                        .wait_timeout_while(lk, Duration::from_secs(10), |loading| {
+                            loading
+                                .get(&key)
+                                .is_some_and(|x| Arc::ptr_eq(x, &loading_account))
+                        })
+                        .unwrap();
+                    if timeout.timed_out() {
+                        // todo replace with error
+                        log::error!("gPA on program : {}", program_id.to_string());
+                        return Err(AccountLoadingError::OperationTimeOut);
                     }
+                    if self.failed_gpa.lock().unwrap().contains(&key) {
+                        return Err(AccountLoadingError::ErrorCreatingSnapshot);
+                    }
+                    drop(lk);
+                    self.accounts_storage.get_program_accounts(
+                        program_id,
+                        filters.clone(),
+                        commitment,
+                    )
                 }
                 None => {
                     // update account loading map
@@ -168,26 +250,35 @@ impl AccountStorageInterface for AccountsOnDemand {
                         (program_id, filters.clone().unwrap_or_default()),
                         Arc::new(Condvar::new()),
                     );
-                    self.accounts_source
-                        .subscribe_program_accounts(program_id, filters.clone())
-                        .map_err(|_| AccountLoadingError::ErrorSubscribingAccount)?;
                     drop(lk);
-                    self.mutable_filters
-                        .add_account_filters(&vec![account_filter.clone()]);
 
-                    self.accounts_source
-                        .save_snapshot(self.accounts_storage.clone(), vec![account_filter])
-                        .map_err(|_| AccountLoadingError::ErrorCreatingSnapshot)?;
+                    let result = self.load_program_accounts(account_filter.clone(), program_id);
                     // update loading lock
                     {
                         let mut write_lock = self.gpa_in_loading.lock().unwrap();
-                        let notify =
-                            write_lock.remove(&(program_id, filters.clone().unwrap_or_default()));
+                        let key = (program_id, filters.clone().unwrap_or_default());
+                        let notify = write_lock.remove(&key);
+                        let mut failed_gpa = self.failed_gpa.lock().unwrap();
+                        if result.is_ok() {
+                            // everything which is covered by this filter is now loaded
+                            failed_gpa.retain(|(program_id, filters)| {
+                                let failed_filter = AccountFilter {
+                                    accounts: vec![],
+                                    program_id: Some(*program_id),
+                                    filters: (!filters.is_empty()).then(|| filters.clone()),
+                                };
+                                !is_covered_by(&failed_filter, &key)
+                            });
+                        } else {
+                            failed_gpa.insert(key);
+                        }
+                        drop(failed_gpa);
                         drop(write_lock);
                         if let Some(notify) = notify {
                             notify.notify_all();
                         }
                     }
+                    result?;
                     self.accounts_storage
                         .get_program_accounts(program_id, filters, commitment)
                 }
-- 
2.43.0


From a6cdfca8ca40f32055b731ea29f046b0dba6f635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:47 +0000
Subject: [PATCH 31/48] fix: filters which cannot be decoded do not match
 anything instead of panicking

---
 common/src/account_filter.rs      | 5 ++++-
 common/src/simple_filter_store.rs | 8 +++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/common/src/account_filter.rs b/common/src/account_filter.rs
index b63edd6..48e5e9d 100644
--- a/common/src/account_filter.rs
+++ b/common/src/account_filter.rs
@@ -49,7 +49,10 @@ impl MemcmpFilter {
             }
             data[offset..offset + bytes.len()] == bytes[..]
         } else {
-            let bytes = self.bytes();
+            let Ok(bytes) = self.try_bytes() else {
+                // filter which cannot be decoded does not match anything
+                return false;
+            };
             let offset = self.offset as usize;
             if offset > data.len() {
                 return false;
diff --git a/common/src/simple_filter_store.rs b/common/src/simple_filter_store.rs
index 05007d1..8f6f98d 100644
--- a/common/src/simple_filter_store.rs
+++ b/common/src/simple_filter_store.rs
@@ -28,9 +28,11 @@ fn filters_in_bytes(filters: &[AccountFilterType]) -> BTreeSet<AccountFilterType
             AccountFilterType::Memcmp(memcmp) => match memcmp.data {
                 MemcmpFilterData::Bytes(_) => x.clone(),
                 MemcmpFilterData::Base58(_) | MemcmpFilterData::Base64(_) => {
-                    AccountFilterType::Memcmp(MemcmpFilter {
-                        offset: memcmp.offset,
-                        data: MemcmpFilterData::Bytes(memcmp.bytes()),
+                    memcmp.try_bytes().map_or(x.clone(), |bytes| {
+                        AccountFilterType::Memcmp(MemcmpFilter {
+                            offset: memcmp.offset,
+                            data: MemcmpFilterData::Bytes(bytes),
+                        })
                     })
                 }
             },
-- 
2.43.0


From 96fc3e2e5ea0b4cd1f55d9a5c2736f4e9cd63e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 32/48] fix: except filter store should not claim to contain
 queries which are partially excepted

---
 common/src/except_filter_store.rs | 13 +++++--------
 common/src/simple_filter_store.rs | 23 +++++++++++++++++++++++
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/common/src/except_filter_store.rs b/common/src/except_filter_store.rs
index e5dc48a..0ed54cc 100644
--- a/common/src/except_filter_store.rs
+++ b/common/src/except_filter_store.rs
@@ -29,14 +29,11 @@ impl AccountFiltersStoreInterface for ExceptFilterStore {
             .accounts
             .iter()
             .any(|pk| self.simple_filter_store.contains_account(*pk));
-        let is_excepted_program = filter.program_id.is_some()
-            && self
-                .simple_filter_store
-                .contains_filter_internal(&AccountFilter {
-                    accounts: vec![],
-                    program_id: filter.program_id,
-                    filters: filter.filters.clone(),
-                });
+        // some of the accounts of the query may be excepted
+        let is_excepted_program = filter.program_id.is_some_and(|program_id| {
+            self.simple_filter_store
+                .may_match_program(&program_id, &filter.filters)
+        });
         !has_excepted_account && !is_excepted_program
     }
 }
diff --git a/common/src/simple_filter_store.rs b/common/src/simple_filter_store.rs
index 8f6f98d..2466757 100644
--- a/common/src/simple_filter_store.rs
+++ b/common/src/simple_filter_store.rs
@@ -127,6 +127,29 @@ impl SimpleFilterStore {
         accounts_match && program_filter_match
     }
 
+    // returns false only if no account of the program can match both registered and queried filters
+    pub fn may_match_program(
+        &self,
+        program_id: &Pubkey,
+        filters: &Option<Vec<AccountFilterType>>,
+    ) -> bool {
+        match self.program_id_filters.get(program_id) {
+            Some(ProgramIdFilters::AllowAll) => true,
+            Some(ProgramIdFilters::ByFilterType(filter_list)) => {
+                filter_list.iter().any(|registered_filters| {
+                    // an account has only one size
+                    let sizes = registered_filters
+                        .iter()
+                        .chain(filters.iter().flatten())
+                        .filter(|x| matches!(x, AccountFilterType::Datasize(_)))
+                        .collect::<BTreeSet<_>>();
+                    sizes.len() <= 1
+                })
+            }
+            None => false,
+        }
+    }
+
     pub fn satisfies_filter(&self, account: &AccountData) -> bool {
         if self.accounts.contains(&account.pubkey) {
             return true;
-- 
2.43.0


From 58b3cb14a7660d4df0386c12cc10a7e389b06267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:12 +0000
Subject: [PATCH 33/48] fix: default storage can have a newer state of an
 account than the dispatched ones

---
 account_storage/src/storage_by_program_id.rs | 26 ++++++++++++--------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/account_storage/src/storage_by_program_id.rs b/account_storage/src/storage_by_program_id.rs
index ecc9058..65fb128 100644
--- a/account_storage/src/storage_by_program_id.rs
+++ b/account_storage/src/storage_by_program_id.rs
@@ -65,18 +65,24 @@ impl AccountStorageInterface for StorageByProgramId {
             .iter()
             .filter_map(|(program_id, interface)| {
                 let account = interface.get_account(account_pk, commitment).ok()??;
-                Some((program_id, account))
+                let is_owner = account.account.owner == *program_id;
+                Some((account, is_owner))
             })
-            .max_by_key(|(program_id, account)| {
-                (
-                    account.updated_slot,
-                    account.write_version,
-                    account.account.owner == **program_id,
-                )
+            .max_by_key(|(account, is_owner)| {
+                (account.updated_slot, account.write_version, *is_owner)
             });
-        match last_state {
-            Some((_, account)) => Ok(Some(account)),
-            None => self.default.get_account(account_pk, commitment),
+        let Some((account, _)) = last_state else {
+            return self.default.get_account(account_pk, commitment);
+        };
+        // an older state may have arrived after the account has left the program
+        match self.default.get_account(account_pk, commitment) {
+            Ok(Some(default_account))
+                if (default_account.updated_slot, default_account.write_version)
+                    > (account.updated_slot, account.write_version) =>
+            {
+                Ok(Some(default_account))
+            }
+            _ => Ok(Some(account)),
         }
     }
 
-- 
2.43.0


From bc5115361b509bb0e2f88fbad228b3d79ef3ab87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:59 +0000
Subject: [PATCH 34/48] fix: forget accounts whose first finalized state is a
 deletion or is not tracked

---
 account_storage/src/inmemory_account_store.rs | 61 ++++++++++---------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 507eee8..3e36471 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -79,26 +79,28 @@ impl InmemoryAccountStore {
     // returns true if entry needs to be deleted
     fn update_owner_delete_if_necessary(
         &self,
-        prev_account_data: &AccountData,
+        prev_account_data: Option<&AccountData>,
         new_account_data: &AccountData,
         account_index: AccountIndex,
         account_by_commitment: &AccountDataByCommitment,
         commitment: Commitment,
     ) -> bool {
-        assert_eq!(prev_account_data.pubkey, new_account_data.pubkey);
-        if prev_account_data.account.owner != new_account_data.account.owner
-            && commitment == Commitment::Finalized
+        let prev_owner = prev_account_data.map(|prev_account_data| {
+            assert_eq!(prev_account_data.pubkey, new_account_data.pubkey);
+            prev_account_data.account.owner
+        });
+        // the first finalized state can also be a deletion or a state which is not tracked
+        if prev_owner != Some(new_account_data.account.owner) && commitment == Commitment::Finalized
         {
-            if !account_by_commitment.is_owned_by(&prev_account_data.account.owner) {
-                match self
-                    .accounts_by_owner
-                    .entry(prev_account_data.account.owner)
-                {
-                    dashmap::mapref::entry::Entry::Occupied(mut occ) => {
-                        occ.get_mut().write().unwrap().remove(&account_index);
-                    }
-                    dashmap::mapref::entry::Entry::Vacant(_) => {
-                        // do nothing
+            if let Some(prev_owner) = prev_owner {
+                if !account_by_commitment.is_owned_by(&prev_owner) {
+                    match self.accounts_by_owner.entry(prev_owner) {
+                        dashmap::mapref::entry::Entry::Occupied(mut occ) => {
+                            occ.get_mut().write().unwrap().remove(&account_index);
+                        }
+                        dashmap::mapref::entry::Entry::Vacant(_) => {
+                            // do nothing
+                        }
                     }
                 }
             }
@@ -243,9 +245,8 @@ impl AccountStorageInterface for InmemoryAccountStore {
                 // if account has been updated
                 if acc_by_commitment.update(account_data.clone(), commitment) {
                     // owner has to be added even if there was no previous state for the commitment
-                    let prev_account = prev_account.unwrap_or_else(|| account_data.clone());
                     if self.update_owner_delete_if_necessary(
-                        &prev_account,
+                        prev_account.as_ref(),
                         &account_data,
                         index,
                         &acc_by_commitment,
@@ -456,20 +457,20 @@ impl AccountStorageInterface for InmemoryAccountStore {
             if let Some((account_data, prev_account_data)) =
                 writable_lk.promote_slot_commitment(update_slot, commitment)
             {
-                if let Some(prev_account_data) = prev_account_data {
-                    // check if owner has changed
-                    if (prev_account_data.account.owner != account_data.account.owner
-                        || account_data.account.lamports == 0)
-                        && self.update_owner_delete_if_necessary(
-                            &prev_account_data,
-                            &account_data,
-                            writable_account_index,
-                            &writable_lk,
-                            commitment,
-                        )
-                    {
-                        accounts_to_remove.push((account_data.pubkey, writable_account_index));
-                    }
+                // check if owner has changed
+                let owner_changed = prev_account_data.as_ref().map_or(true, |prev| {
+                    prev.account.owner != account_data.account.owner
+                });
+                if (owner_changed || account_data.account.lamports == 0)
+                    && self.update_owner_delete_if_necessary(
+                        prev_account_data.as_ref(),
+                        &account_data,
+                        writable_account_index,
+                        &writable_lk,
+                        commitment,
+                    )
+                {
+                    accounts_to_remove.push((account_data.pubkey, writable_account_index));
                 }
                 // account has been confirmed first time
                 updated_accounts.push(account_data);
-- 
2.43.0


From a78253421536ef339c01bb2f909810547ed03661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:23 +0000
Subject: [PATCH 35/48] fix: account recreated with another type should not be
 hidden by its previous type

---
 .../src/inmemory_token_storage.rs             | 40 ++++++++++++-------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 226c965..f428f42 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -381,10 +381,23 @@ impl TokenProgramAccountsStorage {
         }
     }
 
+    fn remove_mint(&self, mint_pk: &Pubkey) {
+        // keep the index of the mint, token accounts which are still referring to it should
+        // be found again if the mint is recreated
+        let mint_index = self.mints_index_by_pubkey.get(mint_pk).map(|x| *x);
+        if mint_index
+            .and_then(|index| self.mints_by_index.remove(&index))
+            .is_some()
+        {
+            TOKEN_MINTS_IN_MEMORY.dec();
+        }
+    }
+
     // treat account for finalized commitment
     pub fn add_account_finalized(&self, account: TokenProgramAccountType) -> bool {
         match account {
             TokenProgramAccountType::TokenAccount(token_account) => {
+                let token_account_pk = token_account.pubkey;
                 let token_account_owner = token_account.owner;
                 let mint_index = token_account.mint;
                 let previous = self
@@ -427,8 +440,12 @@ impl TokenProgramAccountsStorage {
                         }
                     }
                 }
+                // account could have been closed and recreated with another type
+                self.remove_mint(&token_account_pk);
+                self.multisigs.remove(&token_account_pk);
             }
             TokenProgramAccountType::Mint(mint_data) => {
+                let mint_pk = mint_data.pubkey;
                 match self.mints_index_by_pubkey.entry(mint_data.pubkey) {
                     dashmap::mapref::entry::Entry::Occupied(occ) => {
                         if self.mints_by_index.insert(*occ.get(), mint_data).is_none() {
@@ -444,24 +461,18 @@ impl TokenProgramAccountsStorage {
                         v.insert(index);
                     }
                 }
+                self.multisigs.remove(&mint_pk);
+                self.token_accounts_storage.delete(&mint_pk);
             }
             TokenProgramAccountType::MultiSig(multisig_data, pubkey) => {
                 self.multisigs.insert(pubkey, multisig_data);
+                self.remove_mint(&pubkey);
+                self.token_accounts_storage.delete(&pubkey);
             }
             TokenProgramAccountType::Deleted(account_pk) => {
-                // keep the index of the mint, token accounts which are still referring to it should
-                // be found again if the mint is recreated
-                let mint_index = self.mints_index_by_pubkey.get(&account_pk).map(|x| *x);
-                if mint_index
-                    .and_then(|index| self.mints_by_index.remove(&index))
-                    .is_some()
-                {
-                    TOKEN_MINTS_IN_MEMORY.dec();
-                } else if self.multisigs.remove(&account_pk).is_some() {
-                    // do nothing multisig account is removed
-                } else {
-                    self.token_accounts_storage.delete(&account_pk);
-                }
+                self.remove_mint(&account_pk);
+                self.multisigs.remove(&account_pk);
+                self.token_accounts_storage.delete(&account_pk);
             }
         }
         true
@@ -896,7 +907,8 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
 
         let _finalization_lock = self.finalization_lock.lock().unwrap();
         for multisig in multisigs {
-            self.multisigs.insert(multisig.pubkey, multisig);
+            let multisig_pk = multisig.pubkey;
+            self.add_account_finalized(TokenProgramAccountType::MultiSig(multisig, multisig_pk));
         }
 
         let mut mint_mapping = HashMap::<MintIndex, MintIndex>::new();
-- 
2.43.0


From 940af92f3436074451c93b336332a07df005c8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:44 +0000
Subject: [PATCH 36/48] fix: finalized token update should not remove newer
 writes of the same slot

---
 .../src/inmemory_token_storage.rs             | 26 ++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index f428f42..c1cda02 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -135,9 +135,17 @@ impl ProcessedAccountStore {
             .any(|slot| slot.processed_accounts.contains_key(account_pk))
     }
 
-    pub fn remove_account_until(&self, account_pk: &Pubkey, slot: Slot) {
+    pub fn remove_account_until(&self, account_pk: &Pubkey, slot: Slot, write_version: u64) {
         let mut lk = self.processed_slot_accounts.write().unwrap();
-        for (_, processed_account_by_slot) in lk.range_mut(..=slot) {
+        for (current_slot, processed_account_by_slot) in lk.range_mut(..=slot) {
+            let is_newer = *current_slot == slot
+                && processed_account_by_slot
+                    .processed_accounts
+                    .get(account_pk)
+                    .is_some_and(|acc| acc.write_version > write_version);
+            if is_newer {
+                continue;
+            }
             if processed_account_by_slot
                 .processed_accounts
                 .remove(account_pk)
@@ -676,8 +684,11 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             let _finalization_lock = self.finalization_lock.lock().unwrap();
             let is_updated = self.add_account_finalized(token_program_account);
             // unfinalized updates which are older are outdated
-            self.processed_storage
-                .remove_account_until(&account_data.pubkey, account_data.updated_slot);
+            self.processed_storage.remove_account_until(
+                &account_data.pubkey,
+                account_data.updated_slot,
+                account_data.write_version,
+            );
             is_updated
         }
     }
@@ -707,8 +718,11 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         let _finalization_lock = self.finalization_lock.lock().unwrap();
         self.add_account_finalized(token_program_account);
         // unfinalized updates which are older are outdated
-        self.processed_storage
-            .remove_account_until(&account_data.pubkey, account_data.updated_slot);
+        self.processed_storage.remove_account_until(
+            &account_data.pubkey,
+            account_data.updated_slot,
+            account_data.write_version,
+        );
     }
 
     fn get_account(
-- 
2.43.0


From 2367f7584c5e1a98d8265b31a1cbe85ac84cb6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:30 +0000
Subject: [PATCH 37/48] fix: refuse snapshots of accounts whose data cannot be
 decompressed

---
 account_storage/src/inmemory_account_store.rs |  4 ++++
 common/src/account_data.rs                    | 12 ++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 3e36471..bfb947e 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -495,6 +495,10 @@ impl AccountStorageInterface for InmemoryAccountStore {
     ) -> Result<(), AccountLoadingError> {
         let accounts = bincode::deserialize::<Vec<AccountData>>(&snapshot)
             .map_err(|_| AccountLoadingError::DeserializationIssues)?;
+        // check all the accounts before updating anything
+        if accounts.iter().any(|x| !x.account.data.is_valid()) {
+            return Err(AccountLoadingError::DeserializationIssues);
+        }
         for account_data in accounts {
             self.initilize_or_update_account(account_data);
         }
diff --git a/common/src/account_data.rs b/common/src/account_data.rs
index 86f48dd..db777b3 100644
--- a/common/src/account_data.rs
+++ b/common/src/account_data.rs
@@ -78,6 +78,18 @@ impl Data {
             Data::Zstd { binary, .. } => zstd::bulk::decompress(binary, MAX_ACCOUNT_SIZE).unwrap(),
         }
     }
+
+    // data which was deserialized could be damaged
+    pub fn is_valid(&self) -> bool {
+        let size = match self {
+            Data::Uncompressed(d) => Ok(d.len()),
+            Data::Lz4 { binary, .. } => lz4::block::decompress(binary, None).map(|x| x.len()),
+            Data::Zstd { binary, .. } => {
+                zstd::bulk::decompress(binary, MAX_ACCOUNT_SIZE).map(|x| x.len())
+            }
+        };
+        size.map_or(false, |size| size == self.len())
+    }
 }
 
 #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
-- 
2.43.0


From 052db9a89b909b3a2e320b9330c5e0e065690893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:30 +0000
Subject: [PATCH 38/48] fix: refuse token snapshots with a multisig of too many
 signers

---
 token_account_storage/src/inmemory_token_storage.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index c1cda02..4d16bfa 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -19,6 +19,7 @@ use lite_account_manager_common::{
 use prometheus::{opts, register_int_gauge, IntGauge};
 use serde::{Deserialize, Serialize};
 use solana_sdk::{clock::Slot, pubkey::Pubkey};
+use spl_token::instruction::MAX_SIGNERS;
 
 use crate::{
     account_types::{MintAccount, MintIndex, MultiSig, Program, TokenAccount, TokenAccountIndex},
@@ -918,6 +919,9 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             .map(|bytes| TokenAccount::try_from_bytes(bytes))
             .collect::<Option<Vec<_>>>()
             .ok_or(AccountLoadingError::DeserializationIssues)?;
+        if multisigs.iter().any(|x| x.signers.len() > MAX_SIGNERS) {
+            return Err(AccountLoadingError::DeserializationIssues);
+        }
 
         let _finalization_lock = self.finalization_lock.lock().unwrap();
         for multisig in multisigs {
-- 
2.43.0


From f48e3beff0ccd58ae329c80111fedd1c567fac6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:30 +0000
Subject: [PATCH 39/48] fix: token snapshot should not be taken while a slot is
 being finalized

---
 token_account_storage/src/inmemory_token_storage.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 4d16bfa..987f751 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -862,6 +862,8 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             return Err(AccountLoadingError::WrongIndex);
         };
 
+        // mints, multisigs and token accounts should be of the same finalized slot
+        let _finalization_lock = self.finalization_lock.lock().unwrap();
         let mints = self
             .mints_by_index
             .iter()
-- 
2.43.0


From 67e34299ec824068f8f40409a4065e4e01ef7402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:55 +0000
Subject: [PATCH 40/48] fix: loaded program accounts should stay available when
 loading broader ones fails

---
 accounts_on_demand/src/accounts_on_demand.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/accounts_on_demand/src/accounts_on_demand.rs b/accounts_on_demand/src/accounts_on_demand.rs
index eb3e766..7fabdb5 100644
--- a/accounts_on_demand/src/accounts_on_demand.rs
+++ b/accounts_on_demand/src/accounts_on_demand.rs
@@ -37,6 +37,8 @@ pub struct AccountsOnDemand {
     // filters which are registered but not loaded, because the last loading has failed
     failed_accounts: Arc<Mutex<HashSet<Pubkey>>>,
     failed_gpa: Arc<Mutex<BTreeSet<GpaAccountKey>>>,
+    // filters which were loaded, they stay loaded when loading of a broader filter fails
+    loaded_gpa: Arc<Mutex<BTreeSet<GpaAccountKey>>>,
 }
 
 impl AccountsOnDemand {
@@ -53,6 +55,7 @@ impl AccountsOnDemand {
             gpa_in_loading: Arc::new(Mutex::new(BTreeMap::new())),
             failed_accounts: Arc::new(Mutex::new(HashSet::new())),
             failed_gpa: Arc::new(Mutex::new(BTreeSet::new())),
+            loaded_gpa: Arc::new(Mutex::new(BTreeSet::new())),
         }
     }
 
@@ -212,7 +215,17 @@ impl AccountStorageInterface for AccountsOnDemand {
             .unwrap()
             .iter()
             .any(|key| is_covered_by(&account_filter, key));
-        if loading.is_none() && !failed && self.mutable_filters.contains_filter(&account_filter) {
+        let loaded = self
+            .loaded_gpa
+            .lock()
+            .unwrap()
+            .iter()
+            .any(|key| is_covered_by(&account_filter, key));
+        if loaded
+            || (loading.is_none()
+                && !failed
+                && self.mutable_filters.contains_filter(&account_filter))
+        {
             drop(lk);
             self.accounts_storage
                 .get_program_accounts(program_id, filters.clone(), commitment)
@@ -269,6 +282,7 @@ impl AccountStorageInterface for AccountsOnDemand {
                                 };
                                 !is_covered_by(&failed_filter, &key)
                             });
+                            self.loaded_gpa.lock().unwrap().insert(key);
                         } else {
                             failed_gpa.insert(key);
                         }
-- 
2.43.0


From f7ddc41e348ac6127d175b44b92f31627f2727bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:26 +0000
Subject: [PATCH 41/48] fix: account which changes its program should always be
 found in one of them

---
 account_storage/src/inmemory_account_store.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index bfb947e..1cd7b79 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -89,6 +89,11 @@ impl InmemoryAccountStore {
             assert_eq!(prev_account_data.pubkey, new_account_data.pubkey);
             prev_account_data.account.owner
         });
+        if !Self::is_deleted(new_account_data) && self.satisfies_filters(new_account_data) {
+            // update owner if account was not deleted and the filter criterias are satisfied
+            // before it is removed from the previous owner, queries should always find it in one of them
+            self.add_account_owner(account_index, new_account_data.account.owner);
+        }
         // the first finalized state can also be a deletion or a state which is not tracked
         if prev_owner != Some(new_account_data.account.owner) && commitment == Commitment::Finalized
         {
@@ -109,10 +114,6 @@ impl InmemoryAccountStore {
                 return true;
             }
         }
-        if !Self::is_deleted(new_account_data) && self.satisfies_filters(new_account_data) {
-            // update owner if account was not deleted and the filter criterias are satisfied
-            self.add_account_owner(account_index, new_account_data.account.owner);
-        }
         false
     }
 
-- 
2.43.0


From 20971aea7d44d9316892fd385842128b48965fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:51 +0000
Subject: [PATCH 42/48] fix: token accounts should be found as soon as they can
 be read

---
 token_account_storage/src/inmemory_token_storage.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 987f751..27f660c 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -412,6 +412,12 @@ impl TokenProgramAccountsStorage {
                 let previous = self
                     .token_accounts_storage
                     .get_by_pubkey(&token_account.pubkey);
+                // lock the indexes before the account is saved, so that queries will find the account as
+                // soon as it can be read, and an account which changes its owner is always found
+                let mint_indexes = self.accounts_index_by_mint.entry(mint_index);
+                let owner_indexes = self
+                    .account_by_owner_pubkey
+                    .entry(token_account_owner.into());
                 let (token_index, is_added) =
                     self.token_accounts_storage.save_or_update(token_account);
                 // owner (and mint if recreated) of a token account can change
@@ -421,7 +427,7 @@ impl TokenProgramAccountsStorage {
                 if is_added || is_moved {
                     // add account to the indexes
                     // add account index in accounts_index_by_mint map
-                    match self.accounts_index_by_mint.entry(mint_index) {
+                    match mint_indexes {
                         dashmap::mapref::entry::Entry::Occupied(mut occ) => {
                             if is_added || !occ.get().contains(&token_index) {
                                 occ.get_mut().push_back(token_index);
@@ -435,10 +441,7 @@ impl TokenProgramAccountsStorage {
                     }
 
                     // add account index in account_by_owner_pubkey map
-                    match self
-                        .account_by_owner_pubkey
-                        .entry(token_account_owner.into())
-                    {
+                    match owner_indexes {
                         dashmap::mapref::entry::Entry::Occupied(mut occ) => {
                             if is_added || !occ.get().contains(&token_index) {
                                 occ.get_mut().push(token_index);
-- 
2.43.0


From 1a4388d03de505b0ac8ef1cd13db078e7c7bf5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:56 +0000
Subject: [PATCH 43/48] fix: outdated token account should not be read after
 finalized state

---
 .../src/inmemory_token_storage.rs             | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 27f660c..163087c 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -136,8 +136,17 @@ impl ProcessedAccountStore {
             .any(|slot| slot.processed_accounts.contains_key(account_pk))
     }
 
-    pub fn remove_account_until(&self, account_pk: &Pubkey, slot: Slot, write_version: u64) {
+    // adds a finalized state and removes unfinalized updates which are outdated by it,
+    // keeps the lock so that nobody can read them after the finalized state
+    pub fn remove_account_until(
+        &self,
+        account_pk: &Pubkey,
+        slot: Slot,
+        write_version: u64,
+        add_finalized: impl FnOnce() -> bool,
+    ) -> bool {
         let mut lk = self.processed_slot_accounts.write().unwrap();
+        let is_updated = add_finalized();
         for (current_slot, processed_account_by_slot) in lk.range_mut(..=slot) {
             let is_newer = *current_slot == slot
                 && processed_account_by_slot
@@ -155,6 +164,7 @@ impl ProcessedAccountStore {
                 TOKEN_PROGRAM_TOTAL_PROCESSED_ACCOUNTS.dec();
             }
         }
+        is_updated
     }
 
     pub fn update_slot_info(&self, slot_info: SlotInfo) {
@@ -686,14 +696,13 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             )
         } else {
             let _finalization_lock = self.finalization_lock.lock().unwrap();
-            let is_updated = self.add_account_finalized(token_program_account);
             // unfinalized updates which are older are outdated
             self.processed_storage.remove_account_until(
                 &account_data.pubkey,
                 account_data.updated_slot,
                 account_data.write_version,
-            );
-            is_updated
+                || self.add_account_finalized(token_program_account),
+            )
         }
     }
 
@@ -720,12 +729,12 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             }
         };
         let _finalization_lock = self.finalization_lock.lock().unwrap();
-        self.add_account_finalized(token_program_account);
         // unfinalized updates which are older are outdated
         self.processed_storage.remove_account_until(
             &account_data.pubkey,
             account_data.updated_slot,
             account_data.write_version,
+            || self.add_account_finalized(token_program_account),
         );
     }
 
-- 
2.43.0


From c6e1dd62ff86556c535240e07de5d49556437e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:01 +0000
Subject: [PATCH 44/48] fix: token accounts of unfinalized slots should be read
 at one point of time

---
 .../src/inmemory_token_storage.rs             | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 163087c..2900093 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -267,16 +267,15 @@ impl ProcessedAccountStore {
         }
     }
 
-    pub fn get_confirmed_accounts(
-        &self,
+    fn get_confirmed_accounts(
+        processed_slot_accounts: &BTreeMap<u64, ProcessedAccountBySlot>,
         account_pks: Vec<Pubkey>,
         return_list: &mut [Option<(ProcessedAccount, u64)>],
         confirmed_slot: Slot,
     ) {
         let mut process_slot = Some(confirmed_slot);
-        let lk = self.processed_slot_accounts.read().unwrap();
         while let Some(current_slot) = process_slot {
-            match lk.get(&current_slot) {
+            match processed_slot_accounts.get(&current_slot) {
                 Some(processed_accounts) => {
                     for (index, account_pk) in account_pks.iter().enumerate() {
                         if return_list.get(index).unwrap().is_some() {
@@ -309,9 +308,10 @@ impl ProcessedAccountStore {
         confirmed_slot: Slot,
     ) -> Vec<Option<(ProcessedAccount, u64)>> {
         let mut return_list = vec![None; account_pks.len()];
+        // read all the slots under the same lock, to get accounts as they are at one point of time
+        let lk = self.processed_slot_accounts.read().unwrap();
         match commitment {
             Commitment::Processed => {
-                let lk = self.processed_slot_accounts.read().unwrap();
                 // iterate backwards on all the processed slots until we reach confirmed slot
                 for (slot, processed_account_slots) in lk.iter().rev() {
                     log::debug!("getting processed account at slot : {}", slot);
@@ -332,14 +332,18 @@ impl ProcessedAccountStore {
                             break;
                         }
                     } else {
-                        drop(lk);
-                        self.get_confirmed_accounts(account_pks, &mut return_list, confirmed_slot);
+                        Self::get_confirmed_accounts(
+                            &lk,
+                            account_pks,
+                            &mut return_list,
+                            confirmed_slot,
+                        );
                         return return_list;
                     }
                 }
             }
             Commitment::Confirmed => {
-                self.get_confirmed_accounts(account_pks, &mut return_list, confirmed_slot)
+                Self::get_confirmed_accounts(&lk, account_pks, &mut return_list, confirmed_slot)
             }
             Commitment::Finalized => unreachable!(),
         };
-- 
2.43.0


From e4273f396497ac0f93f63b71e9a66e5f40365c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:43 +0000
Subject: [PATCH 45/48] fix: append vec which ends early in a snapshot archive
 should be an error

---
 simulate_from_snapshot/src/snapshot_utils/append_vec.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/simulate_from_snapshot/src/snapshot_utils/append_vec.rs b/simulate_from_snapshot/src/snapshot_utils/append_vec.rs
index 53585e6..4d13661 100644
--- a/simulate_from_snapshot/src/snapshot_utils/append_vec.rs
+++ b/simulate_from_snapshot/src/snapshot_utils/append_vec.rs
@@ -161,7 +161,13 @@ impl AppendVec {
         slot: u64,
     ) -> io::Result<Self> {
         let mut map = MmapMut::map_anon(current_len)?;
-        io::copy(&mut reader.take(current_len as u64), &mut map.as_mut())?;
+        let copied = io::copy(&mut reader.take(current_len as u64), &mut map.as_mut())?;
+        if copied != current_len as u64 {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::UnexpectedEof,
+                format!("current_len is larger than data read ({})", copied),
+            ));
+        }
         Ok(AppendVec {
             map: map.make_read_only()?,
             current_len,
-- 
2.43.0


From 70513222e7422fbd7b27965167fa0f7d1d3b4863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:43 +0000
Subject: [PATCH 46/48] fix: append vec which cannot be opened in an unpacked
 snapshot should be an error

---
 simulate_from_snapshot/src/snapshot_utils/unpacked.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulate_from_snapshot/src/snapshot_utils/unpacked.rs b/simulate_from_snapshot/src/snapshot_utils/unpacked.rs
index 780e9b9..063bc75 100644
--- a/simulate_from_snapshot/src/snapshot_utils/unpacked.rs
+++ b/simulate_from_snapshot/src/snapshot_utils/unpacked.rs
@@ -86,7 +86,7 @@ impl UnpackedSnapshotExtractor {
     pub fn unboxed_iter(&self) -> impl Iterator<Item = SnapshotResult<AppendVec>> + '_ {
         std::iter::once(self.iter_streams())
             .flatten_ok()
-            .flatten_ok()
+            .map(|append_vec| append_vec.and_then(|x| x))
     }
 
     fn iter_streams(&self) -> SnapshotResult<impl Iterator<Item = SnapshotResult<AppendVec>> + '_> {
-- 
2.43.0


From d0a65433e42f5aa50ddab04ccfec062a8516e255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:15 +0000
Subject: [PATCH 47/48] fix: filter which is not supported should be refused by
 the rpc server

---
 simulate_from_snapshot/src/rpc_server.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/simulate_from_snapshot/src/rpc_server.rs b/simulate_from_snapshot/src/rpc_server.rs
index 45cbc69..c7f2fd4 100644
--- a/simulate_from_snapshot/src/rpc_server.rs
+++ b/simulate_from_snapshot/src/rpc_server.rs
@@ -13,6 +13,7 @@ use solana_account_decoder::UiAccount;
 use solana_rpc_client_api::client_error::reqwest::Method;
 use solana_rpc_client_api::{
     config::{RpcAccountInfoConfig, RpcProgramAccountsConfig},
+    filter::RpcFilterType,
     response::{OptionalContext, Response as RpcResponse, RpcKeyedAccount, RpcResponseContext},
 };
 use solana_sdk::{commitment_config::CommitmentConfig, pubkey::Pubkey};
@@ -102,6 +103,14 @@ impl TestRpcServer for RpcServerImpl {
             .and_then(|x| x.account_config.commitment)
             .unwrap_or_default();
 
+        let is_filter_unsupported = config
+            .iter()
+            .flat_map(|x| x.filters.iter().flatten())
+            .any(|filter| matches!(filter, RpcFilterType::TokenAccountState));
+        if is_filter_unsupported {
+            return Err(jsonrpsee::types::error::ErrorCode::InvalidParams.into());
+        }
+
         let account_filters = config
             .as_ref()
             .map(|x| {
-- 
2.43.0


From 660274075654ed5f429eb1e12d32b7739c32609f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:33 +0000
Subject: [PATCH 48/48] fix: an account which moves to another storage is not
 missed by concurrent reads

---
 account_storage/src/storage_by_program_id.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/account_storage/src/storage_by_program_id.rs b/account_storage/src/storage_by_program_id.rs
index 65fb128..aad7856 100644
--- a/account_storage/src/storage_by_program_id.rs
+++ b/account_storage/src/storage_by_program_id.rs
@@ -6,11 +6,16 @@ use lite_account_manager_common::{
     slot_info::SlotInfo,
 };
 use solana_sdk::pubkey::Pubkey;
-use std::{collections::HashMap, sync::Arc};
+use std::{
+    collections::HashMap,
+    sync::{Arc, RwLock},
+};
 
 pub struct StorageByProgramId {
     program_id_dispatch_map: HashMap<Pubkey, Arc<dyn AccountStorageInterface>>,
     default: Arc<dyn AccountStorageInterface>,
+    // an account can move from a storage to another one, nobody should see it in neither of them
+    move_lock: RwLock<()>,
 }
 
 impl StorageByProgramId {
@@ -21,12 +26,14 @@ impl StorageByProgramId {
         Self {
             program_id_dispatch_map,
             default,
+            move_lock: RwLock::new(()),
         }
     }
 }
 
 impl AccountStorageInterface for StorageByProgramId {
     fn update_account(&self, account_data: AccountData, commitment: Commitment) -> bool {
+        let _moving = self.move_lock.write().unwrap();
         // owner of the account may have changed, so that storage of the new owner and the storage
         // which has the previous state should both be updated
         let mut updated = false;
@@ -37,6 +44,7 @@ impl AccountStorageInterface for StorageByProgramId {
     }
 
     fn initilize_or_update_account(&self, account_data: AccountData) {
+        let _moving = self.move_lock.write().unwrap();
         let owner = account_data.account.owner;
         // storages which have a state from a previous owner should also be updated
         for (program_id, interface) in self.program_id_dispatch_map.iter() {
@@ -59,6 +67,7 @@ impl AccountStorageInterface for StorageByProgramId {
         account_pk: Pubkey,
         commitment: Commitment,
     ) -> Result<Option<AccountData>, AccountLoadingError> {
+        let _not_moving = self.move_lock.read().unwrap();
         // while owner of an account is changing more than one storage can know the account
         let last_state = self
             .program_id_dispatch_map
@@ -101,6 +110,7 @@ impl AccountStorageInterface for StorageByProgramId {
     }
 
     fn process_slot_data(&self, slot_info: SlotInfo, commitment: Commitment) -> Vec<AccountData> {
+        let _moving = self.move_lock.write().unwrap();
         let mut return_vec = vec![];
         for (_, interface) in self.program_id_dispatch_map.iter() {
             let mut t = interface.process_slot_data(slot_info, commitment);
-- 
2.43.0

