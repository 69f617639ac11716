From 0f6dc6fb873065e354c249457a141701307681e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:09 +0000
Subject: [PATCH 1/8] fix: inspect the storage of the account itself, not of
 its EIP-7702 delegate

JournalInspectTr::inspect_storage looked the slot up in (and cached the account's own slot
value into) the journal entry of the account's EIP-7702 delegate. SSTORE by a delegated account
was then priced from the delegate's slot, and a later SLOAD of the delegate's own storage in the
same transaction returned the delegated account's value.
---
 crates/mega-evm/src/evm/instructions.rs | 59 ++++++++++++++-----------
 1 file changed, 34 insertions(+), 25 deletions(-)

diff --git a/crates/mega-evm/src/evm/instructions.rs b/crates/mega-evm/src/evm/instructions.rs
index 805c1a5..97c1275 100644
--- a/crates/mega-evm/src/evm/instructions.rs
+++ b/crates/mega-evm/src/evm/instructions.rs
@@ -1268,6 +1268,36 @@ pub trait JournalInspectTr {
     ) -> Result<&EvmStorageSlot, Self::DBError>;
 }
 
+/// Inspect the account at the given address itself, without marking it as warm and without following
+/// its EIP-7702 delegation, if any.
+fn inspect_account<DB: revm::Database>(
+    journal: &mut Journal<DB>,
+    address: Address,
+) -> Result<&mut Account, DB::Error> {
+    let transaction_id = journal.transaction_id;
+    match journal.inner.state.entry(address) {
+        Entry::Occupied(entry) => {
+            let account = entry.into_mut();
+            if account.info.code_hash != KECCAK_EMPTY && account.info.code.is_none() {
+                // Load code if not loaded before
+                account.info.code = Some(journal.database.code_by_hash(account.info.code_hash)?);
+            }
+            Ok(account)
+        }
+        Entry::Vacant(entry) => {
+            let mut account = journal
+                .database
+                .basic(address)?
+                .map(|info| info.into())
+                .unwrap_or_else(|| Account::new_not_existing(transaction_id));
+            // delibrately mark the account as cold since we are only inpecting it, not warming
+            // it.
+            account.mark_cold();
+            Ok(entry.insert(account))
+        }
+    }
+}
+
 impl<DB: revm::Database> JournalInspectTr for Journal<DB> {
     type DBError = <DB as revm::Database>::Error;
 
@@ -1275,28 +1305,7 @@ impl<DB: revm::Database> JournalInspectTr for Journal<DB> {
         &mut self,
         address: Address,
     ) -> Result<&mut Account, Self::DBError> {
-        let transaction_id = self.transaction_id;
-        let account = match self.inner.state.entry(address) {
-            Entry::Occupied(entry) => {
-                let account = entry.into_mut();
-                if account.info.code_hash != KECCAK_EMPTY && account.info.code.is_none() {
-                    // Load code if not loaded before
-                    account.info.code = Some(self.database.code_by_hash(account.info.code_hash)?);
-                }
-                account
-            }
-            Entry::Vacant(entry) => {
-                let mut account = self
-                    .database
-                    .basic(address)?
-                    .map(|info| info.into())
-                    .unwrap_or_else(|| Account::new_not_existing(transaction_id));
-                // delibrately mark the account as cold since we are only inpecting it, not warming
-                // it.
-                account.mark_cold();
-                entry.insert(account)
-            }
-        };
+        let account = inspect_account(self, address)?;
 
         // If the account is a delegated account, inspect the delegated account.
         if let Some(Bytecode::Eip7702(code)) = &account.info.code {
@@ -1315,11 +1324,11 @@ impl<DB: revm::Database> JournalInspectTr for Journal<DB> {
         key: StorageKey,
     ) -> Result<&EvmStorageSlot, Self::DBError> {
         let transaction_id = self.transaction_id;
-        let account = self.inspect_account_delegated(address)?;
+        let account = inspect_account(self, address)?;
         if account.storage.contains_key(&key) {
             // Slot already exists, return reference to it
             // Need to reload account to satisfy borrow checker
-            let account = self.inspect_account_delegated(address)?;
+            let account = inspect_account(self, address)?;
             return Ok(account.storage.get(&key).unwrap());
         }
         // Slot doesn't exist, load from DB and insert
@@ -1328,7 +1337,7 @@ impl<DB: revm::Database> JournalInspectTr for Journal<DB> {
         // delibrately mark the slot as cold since we are only inpecting it, not warming it
         slot.mark_cold();
         // Load account again to bypass the borrow checker and insert the slot
-        let account = self.inspect_account_delegated(address)?;
+        let account = inspect_account(self, address)?;
         account.storage.insert(key, slot);
         // Return reference to the newly inserted slot
         Ok(account.storage.get(&key).expect("slot should exist"))
-- 
2.43.0


From 14322971129588d36c6821423f20facca9ba8309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:09 +0000
Subject: [PATCH 2/8] fix: follow at most one EIP-7702 delegation when
 inspecting an account

JournalInspectTr::inspect_account_delegated followed delegations recursively, so a call to an
account that delegates to itself (or to a loop of delegated accounts) overflowed the stack and
aborted the process.
---
 crates/mega-evm/src/evm/instructions.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/mega-evm/src/evm/instructions.rs b/crates/mega-evm/src/evm/instructions.rs
index 97c1275..b1e6557 100644
--- a/crates/mega-evm/src/evm/instructions.rs
+++ b/crates/mega-evm/src/evm/instructions.rs
@@ -1268,8 +1268,8 @@ pub trait JournalInspectTr {
     ) -> Result<&EvmStorageSlot, Self::DBError>;
 }
 
-/// Inspect the account at the given address itself, without marking it as warm and without following
-/// its EIP-7702 delegation, if any.
+/// Inspect the account at the given address itself, without marking it as warm and without
+/// following its EIP-7702 delegation, if any.
 fn inspect_account<DB: revm::Database>(
     journal: &mut Journal<DB>,
     address: Address,
@@ -1307,10 +1307,11 @@ impl<DB: revm::Database> JournalInspectTr for Journal<DB> {
     ) -> Result<&mut Account, Self::DBError> {
         let account = inspect_account(self, address)?;
 
-        // If the account is a delegated account, inspect the delegated account.
+        // If the account is a delegated account, inspect the delegated account. As required by
+        // EIP-7702, only one delegation is followed: delegations can form chains and loops.
         if let Some(Bytecode::Eip7702(code)) = &account.info.code {
             let address = code.address();
-            return self.inspect_account_delegated(address);
+            return inspect_account(self, address);
         }
 
         // Load account again to bypass the borrow checker.
-- 
2.43.0


From 47bb75f734db5b7b1327c7b27eff362fc39ab86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:23 +0000
Subject: [PATCH 3/8] fix: reject transactions whose gas limit or size
 overflows the block totals

BlockLimiter::pre_execution_check added the transaction's gas limit and sizes to the block totals
with plain additions. With a gas limit close to u64::MAX the sum wraps in release builds, so the
transaction passes the block gas check (and panics in debug builds).
---
 crates/mega-evm/src/block/limit.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/mega-evm/src/block/limit.rs b/crates/mega-evm/src/block/limit.rs
index 4a5ef65..b4f7f84 100644
--- a/crates/mega-evm/src/block/limit.rs
+++ b/crates/mega-evm/src/block/limit.rs
@@ -794,7 +794,7 @@ impl BlockLimiter {
         }
 
         // Check block gas limit
-        if self.block_gas_used + gas_limit > self.limits.block_gas_limit {
+        if self.block_gas_used.saturating_add(gas_limit) > self.limits.block_gas_limit {
             return Err(BlockExecutionError::Validation(
                 BlockValidationError::TransactionGasLimitMoreThanAvailableBlockGas {
                     transaction_gas_limit: gas_limit,
@@ -815,7 +815,8 @@ impl BlockLimiter {
         }
 
         // Check block transaction size limit
-        if tx_size + self.block_tx_size_used > self.limits.block_txs_encode_size_limit {
+        if tx_size.saturating_add(self.block_tx_size_used) > self.limits.block_txs_encode_size_limit
+        {
             return Err(BlockExecutionError::Validation(BlockValidationError::InvalidTx {
                 hash: tx_hash,
                 error: Box::new(MegaBlockLimitExceededError::TransactionEncodeSizeLimit {
@@ -840,7 +841,7 @@ impl BlockLimiter {
             }
 
             // Check block data availability size limit
-            if da_size + self.block_da_size_used > self.limits.block_da_size_limit {
+            if da_size.saturating_add(self.block_da_size_used) > self.limits.block_da_size_limit {
                 return Err(BlockExecutionError::Validation(BlockValidationError::InvalidTx {
                     hash: tx_hash,
                     error: Box::new(MegaBlockLimitExceededError::DataAvailabilitySizeLimit {
-- 
2.43.0


From b13a02dbf6b9fd642f9899abb92abab0140f4d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:38 +0000
Subject: [PATCH 4/8] fix: keep sandbox changes to accounts the transaction has
 loaded but not touched

merge_evm_state_optional_status(.., false) copied the account info of the sandbox into an account
already in the parent journal but left it untouched, so the change was dropped on commit. With an
EIP-7702 authorization of the deploy signer that is skipped (e.g. for its nonce), keylessDeploy
deployed the contract and paid the beneficiary while the signer was never charged.
---
 crates/mega-evm/src/evm/state.rs         | 6 ++++++
 crates/mega-evm/src/sandbox/execution.rs | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/mega-evm/src/evm/state.rs b/crates/mega-evm/src/evm/state.rs
index 8a6d271..33796c8 100644
--- a/crates/mega-evm/src/evm/state.rs
+++ b/crates/mega-evm/src/evm/state.rs
@@ -61,6 +61,8 @@ pub fn merge_evm_state(this: &mut EvmState, other: &EvmState) {
 /// - The `Cold` flag in the `this` `EvmState` is preserved.
 /// - For other flags, they are merged from `other` into `this`.
 ///
+/// The `Touched` flag is always merged, since it decides whether the account's changes persist.
+///
 /// We merge the state even if the account is not marked as `Touched`. This is because we may need
 /// to know which account is read but not written to obtain `ReadSet` for witness generation.
 pub fn merge_evm_state_optional_status(this: &mut EvmState, other: &EvmState, merge_status: bool) {
@@ -135,6 +137,10 @@ fn merge_account_state(this: &mut Account, other: &Account, merge_status: bool)
     merge_evm_storage(&mut this.storage, &other.storage);
     if merge_status {
         merge_account_status(&mut this.status, other.status);
+    } else if other.is_touched() {
+        // Whether an account is touched decides whether its changes are persisted, so it must
+        // survive the merge even if the rest of the status does not.
+        this.mark_touch();
     }
 }
 
diff --git a/crates/mega-evm/src/sandbox/execution.rs b/crates/mega-evm/src/sandbox/execution.rs
index d9bf1dd..c76a68b 100644
--- a/crates/mega-evm/src/sandbox/execution.rs
+++ b/crates/mega-evm/src/sandbox/execution.rs
@@ -413,8 +413,8 @@ pub enum SandboxOutcome {
 /// touched or created. This is because we need to know which accounts are read but
 /// not written to obtain `ReadSet` to facilitate stateless witness generation.
 ///
-/// We do not merge any account status into the parent journal and the coldness of accounts and
-/// storage slots are preserved. This is because the changes in the sandbox are treated as a silent
+/// We do not merge any account status except `Touched` into the parent journal and the coldness of
+/// accounts and storage slots are preserved. This is because the changes in the sandbox are treated as a silent
 /// change in the database and should not affect the behavior of the current transaction (e.g., gas
 /// cost due to coldness) execept that the state itself are different.
 ///
-- 
2.43.0


From 98017806c22e526fb1614f95b694f10f70733d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:31 +0000
Subject: [PATCH 5/8] fix: expand the memory before reading the initcode of
 CREATE2

Pricing CREATE2 read the initcode from memory that the original
instruction had not expanded yet, which panics (undefined behaviour in
release builds) when the initcode lies beyond the current memory, and
rejected empty initcode at large offsets.
---
 crates/mega-evm/src/evm/instructions.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/crates/mega-evm/src/evm/instructions.rs b/crates/mega-evm/src/evm/instructions.rs
index b1e6557..2671c2f 100644
--- a/crates/mega-evm/src/evm/instructions.rs
+++ b/crates/mega-evm/src/evm/instructions.rs
@@ -14,8 +14,8 @@ use revm::{
         instructions::{self, control, utility::IntoAddress},
         interpreter::EthInterpreter,
         interpreter_types::{InputsTr, LoopControl, MemoryTr, RuntimeFlag},
-        FrameInput, Instruction, InstructionContext, InstructionResult, InstructionTable,
-        InterpreterAction, InterpreterTypes, SStoreResult, Stack,
+        resize_memory, FrameInput, Instruction, InstructionContext, InstructionResult,
+        InstructionTable, InterpreterAction, InterpreterTypes, SStoreResult, Stack,
     },
     primitives::{hash_map::Entry, StorageKey, KECCAK_EMPTY},
     state::{Account, Bytecode, EvmStorageSlot},
@@ -870,11 +870,23 @@ pub mod storage_gas_ext {
                 context.interpreter.halt(InstructionResult::StackUnderflow);
                 return;
             };
-            let initcode_offset = as_usize_or_fail!(context.interpreter, initcode_offset);
             let initcode_len = as_usize_or_fail!(context.interpreter, initcode_len);
-            let code = Bytes::copy_from_slice(
-                context.interpreter.memory.slice_len(initcode_offset, initcode_len).as_ref(),
-            );
+            let mut code = Bytes::new();
+            if initcode_len != 0 {
+                let initcode_offset = as_usize_or_fail!(context.interpreter, initcode_offset);
+                // The initcode may lie beyond the current memory, so the memory must be expanded
+                // before reading it, as the original instruction does. The cost is counted as
+                // compute gas here since the original instruction will not see it any more.
+                let gas_before = context.interpreter.gas.remaining();
+                resize_memory!(context.interpreter, initcode_offset, initcode_len);
+                let gas_used = gas_before.saturating_sub(context.interpreter.gas.remaining());
+                let mut additional_limit = context.host.additional_limit().borrow_mut();
+                additional_limit.compute_gas_tracker.record_gas_used(gas_used);
+                drop(additional_limit);
+                code = Bytes::copy_from_slice(
+                    context.interpreter.memory.slice_len(initcode_offset, initcode_len).as_ref(),
+                );
+            }
             let initcode_hash = keccak256(&code);
 
             let Some(salt) = context.interpreter.stack.inspect::<3>() else {
-- 
2.43.0


From c58454950afc8a5fdc3957fee5d5538c6f5b45a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:50 +0000
Subject: [PATCH 6/8] fix: drop the cached bucket multipliers when the block is
 set

---
 crates/mega-evm/src/evm/context.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/mega-evm/src/evm/context.rs b/crates/mega-evm/src/evm/context.rs
index 6df9ccb..3aba185 100644
--- a/crates/mega-evm/src/evm/context.rs
+++ b/crates/mega-evm/src/evm/context.rs
@@ -556,9 +556,14 @@ impl<DB: Database, ExtEnvs: ExternalEnvTypes> ContextTr for MegaContext<DB, ExtE
 /// This implementation provides methods to update the context state, with
 /// special handling for transaction updates to reset internal state.
 impl<DB: Database, ExtEnvs: ExternalEnvTypes> ContextSetters for MegaContext<DB, ExtEnvs> {
+    fn set_block(&mut self, block: Self::Block) {
+        self.inner.set_block(block);
+        // Reset internal state for new block
+        self.on_new_block();
+    }
+
     delegate! {
         to self.inner {
-            fn set_block(&mut self, block: Self::Block);
             fn set_tx(&mut self, tx: Self::Tx);
         }
     }
-- 
2.43.0


From d443b59ece1d9c9391cebcf06be18d058f58131f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:03 +0000
Subject: [PATCH 7/8] fix: report a database error when counting state growth
 of a call instead of panicking

---
 crates/mega-evm/src/evm/execution.rs      | 2 +-
 crates/mega-evm/src/limit/mod.rs          | 8 ++++----
 crates/mega-evm/src/limit/state_growth.rs | 9 +++++----
 3 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/crates/mega-evm/src/evm/execution.rs b/crates/mega-evm/src/evm/execution.rs
index 846f339..ea0e82f 100644
--- a/crates/mega-evm/src/evm/execution.rs
+++ b/crates/mega-evm/src/evm/execution.rs
@@ -667,7 +667,7 @@ where
         if is_mini_rex_enabled &&
             additional_limit
                 .borrow_mut()
-                .before_frame_init(&frame_init, self.ctx().journal_mut())
+                .before_frame_init(&frame_init, self.ctx().journal_mut())?
                 .exceeded_limit()
         {
             // if the limit is exceeded, create an error frame result and return it directly
diff --git a/crates/mega-evm/src/limit/mod.rs b/crates/mega-evm/src/limit/mod.rs
index 763e42a..9001f52 100644
--- a/crates/mega-evm/src/limit/mod.rs
+++ b/crates/mega-evm/src/limit/mod.rs
@@ -415,11 +415,11 @@ impl AdditionalLimit {
     }
 
     /// Hook called before a new execution frame is initialized.
-    pub(crate) fn before_frame_init<JOURNAL: JournalInspectTr<DBError: core::fmt::Debug>>(
+    pub(crate) fn before_frame_init<JOURNAL: JournalInspectTr>(
         &mut self,
         frame_init: &FrameInit,
         journal: &mut JOURNAL,
-    ) -> AdditionalLimitResult {
+    ) -> Result<AdditionalLimitResult, JOURNAL::DBError> {
         match &frame_init.frame_input {
             FrameInput::Empty => unreachable!(),
             FrameInput::Call(call_inputs) => {
@@ -433,7 +433,7 @@ impl AdditionalLimit {
                     journal,
                     call_inputs.target_address,
                     has_transfer,
-                );
+                )?;
             }
             FrameInput::Create(_) => {
                 // new frame in data size tracker
@@ -445,7 +445,7 @@ impl AdditionalLimit {
             }
         }
 
-        self.check_limit()
+        Ok(self.check_limit())
     }
 
     /// Hook called when a new execution frame is successfully initialized in `frame_init` and needs
diff --git a/crates/mega-evm/src/limit/state_growth.rs b/crates/mega-evm/src/limit/state_growth.rs
index e3f2967..3df937c 100644
--- a/crates/mega-evm/src/limit/state_growth.rs
+++ b/crates/mega-evm/src/limit/state_growth.rs
@@ -225,22 +225,23 @@ impl StateGrowthTracker {
     ///
     /// This implements EIP-161's account clearing rules. Calls without value transfer
     /// to empty accounts do not create an account and thus don't count toward state growth.
-    pub(crate) fn record_call<JOURNAL: JournalInspectTr<DBError: core::fmt::Debug>>(
+    pub(crate) fn record_call<JOURNAL: JournalInspectTr>(
         &mut self,
         journal: &mut JOURNAL,
         address: Address,
         has_transfer: bool,
-    ) {
+    ) -> Result<(), JOURNAL::DBError> {
         self.new_frame();
 
-        let to_account =
-            journal.inspect_account_delegated(address).expect("failed to inspect account");
+        let to_account = journal.inspect_account_delegated(address)?;
         let is_empty = to_account.state_clear_aware_is_empty(SpecId::PRAGUE);
 
         if is_empty && has_transfer {
             self.total_growth += 1;
             self.update_current_frame_discardable_size(1);
         }
+
+        Ok(())
     }
 
     /// Records the new account creation.
-- 
2.43.0


From 380007b35fcfba927471f8448a61720c87a3d292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:53 +0000
Subject: [PATCH 8/8] fix: return an error when the database or the external
 environment fails inside an instruction

An instruction of this crate that could not read an account or a bucket capacity
halted with FatalExternalError without leaving a cause in the context, which made
revm panic on the unexpected internal flag; SSTORE priced a slot it could not read
as if it were zero.
---
 crates/mega-evm/src/evm/execution.rs    | 14 +++++++++++++-
 crates/mega-evm/src/evm/instructions.rs | 22 ++++++++++++++++------
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/crates/mega-evm/src/evm/execution.rs b/crates/mega-evm/src/evm/execution.rs
index ea0e82f..2a1393d 100644
--- a/crates/mega-evm/src/evm/execution.rs
+++ b/crates/mega-evm/src/evm/execution.rs
@@ -13,7 +13,7 @@ use op_revm::{
 use revm::{
     context::{
         result::{ExecutionResult, FromStringError, InvalidTransaction},
-        ContextTr, FrameStack, Transaction,
+        ContextError, ContextTr, FrameStack, Transaction,
     },
     handler::{
         evm::{ContextDbError, FrameInitResult},
@@ -176,6 +176,18 @@ impl<DB: Database, INSP, ExtEnvs: ExternalEnvTypes> MegaEvm<DB, INSP, ExtEnvs> {
         }
 
         if let InterpreterAction::Return(interpreter_result) = action {
+            // An instruction that halts because the database or the external environment failed
+            // must abort the transaction with an error; it is not a result of the execution. The
+            // instructions inherited from `revm` leave the cause in the context, where it is picked
+            // up later.
+            if interpreter_result.result == InstructionResult::FatalExternalError &&
+                ctx.inner.error.is_ok()
+            {
+                return Err(ContextError::Custom(
+                    "the database or the external environment failed".to_string(),
+                ));
+            }
+
             // Charge storage gas cost for the number of bytes
             if frame.data.is_create() && interpreter_result.is_ok() {
                 let code_deposit_storage_gas = constants::mini_rex::CODEDEPOSIT_STORAGE_GAS *
diff --git a/crates/mega-evm/src/evm/instructions.rs b/crates/mega-evm/src/evm/instructions.rs
index 2671c2f..f46e03b 100644
--- a/crates/mega-evm/src/evm/instructions.rs
+++ b/crates/mega-evm/src/evm/instructions.rs
@@ -693,10 +693,15 @@ pub mod additional_limit_ext {
             context.interpreter.halt(InstructionResult::StackUnderflow);
             return;
         };
-        let storage_slot = context.host.journal_mut().inspect_storage(target_address, index);
-        let (original_value, present_value) = storage_slot
+        let Ok((original_value, present_value)) = context
+            .host
+            .journal_mut()
+            .inspect_storage(target_address, index)
             .map(|slot| (slot.original_value(), slot.present_value()))
-            .unwrap_or_default();
+        else {
+            context.interpreter.halt(InstructionResult::FatalExternalError);
+            return;
+        };
         let Some(new_value) = context.interpreter.stack.inspect::<1>() else {
             context.interpreter.halt(InstructionResult::StackUnderflow);
             return;
@@ -1006,10 +1011,15 @@ pub mod storage_gas_ext {
             return;
         };
         // The storage slot values
-        let storage_slot = context.host.journal_mut().inspect_storage(target_address, index);
-        let (original_value, present_value) = storage_slot
+        let Ok((original_value, present_value)) = context
+            .host
+            .journal_mut()
+            .inspect_storage(target_address, index)
             .map(|slot| (slot.original_value(), slot.present_value()))
-            .unwrap_or_default();
+        else {
+            context.interpreter.halt(InstructionResult::FatalExternalError);
+            return;
+        };
         let Some(new_value) = context.interpreter.stack.inspect::<1>() else {
             context.interpreter.halt(InstructionResult::StackUnderflow);
             return;
-- 
2.43.0

