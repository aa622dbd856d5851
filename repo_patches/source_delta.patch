From 1eca54bc576c407d10c201a002532fbf21a1cda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:32 +0000
Subject: [PATCH 01/23] fix: inspect an EIP-7702 account's own storage before
 SSTORE

inspect_storage followed the delegation and read the slot from the delegating
account's database storage but inserted it into the delegate's journaled
storage, so SSTORE in a delegated account overwrote the delegate's slot.
---
 crates/mega-evm/src/evm/instructions.rs | 26 +++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/crates/mega-evm/src/evm/instructions.rs b/crates/mega-evm/src/evm/instructions.rs
index 805c1a5..f417b63 100644
--- a/crates/mega-evm/src/evm/instructions.rs
+++ b/crates/mega-evm/src/evm/instructions.rs
@@ -1253,6 +1253,10 @@ pub trait JournalInspectTr {
     /// The database error type.
     type DBError;
 
+    /// Inspect the account at the given address without marking it as warm. EIP-7702 delegations
+    /// are not followed.
+    fn inspect_account(&mut self, address: Address) -> Result<&mut Account, Self::DBError>;
+
     /// Inspect the account at the given address without marking it as warm. If the account is
     /// EIP-7702 type, it should inspect the delegated account.
     fn inspect_account_delegated(
@@ -1260,7 +1264,8 @@ pub trait JournalInspectTr {
         address: Address,
     ) -> Result<&mut Account, Self::DBError>;
 
-    /// Inspect the storage at the given address and key without marking it as warm.
+    /// Inspect the storage at the given address and key without marking it as warm. The storage is
+    /// always the one of `address` itself, even if the account is EIP-7702 type.
     fn inspect_storage(
         &mut self,
         address: Address,
@@ -1271,10 +1276,7 @@ pub trait JournalInspectTr {
 impl<DB: revm::Database> JournalInspectTr for Journal<DB> {
     type DBError = <DB as revm::Database>::Error;
 
-    fn inspect_account_delegated(
-        &mut self,
-        address: Address,
-    ) -> Result<&mut Account, Self::DBError> {
+    fn inspect_account(&mut self, address: Address) -> Result<&mut Account, Self::DBError> {
         let transaction_id = self.transaction_id;
         let account = match self.inner.state.entry(address) {
             Entry::Occupied(entry) => {
@@ -1297,6 +1299,14 @@ impl<DB: revm::Database> JournalInspectTr for Journal<DB> {
                 entry.insert(account)
             }
         };
+        Ok(account)
+    }
+
+    fn inspect_account_delegated(
+        &mut self,
+        address: Address,
+    ) -> Result<&mut Account, Self::DBError> {
+        let account = self.inspect_account(address)?;
 
         // If the account is a delegated account, inspect the delegated account.
         if let Some(Bytecode::Eip7702(code)) = &account.info.code {
@@ -1315,11 +1325,11 @@ impl<DB: revm::Database> JournalInspectTr for Journal<DB> {
         key: StorageKey,
     ) -> Result<&EvmStorageSlot, Self::DBError> {
         let transaction_id = self.transaction_id;
-        let account = self.inspect_account_delegated(address)?;
+        let account = self.inspect_account(address)?;
         if account.storage.contains_key(&key) {
             // Slot already exists, return reference to it
             // Need to reload account to satisfy borrow checker
-            let account = self.inspect_account_delegated(address)?;
+            let account = self.inspect_account(address)?;
             return Ok(account.storage.get(&key).unwrap());
         }
         // Slot doesn't exist, load from DB and insert
@@ -1328,7 +1338,7 @@ impl<DB: revm::Database> JournalInspectTr for Journal<DB> {
         // delibrately mark the slot as cold since we are only inpecting it, not warming it
         slot.mark_cold();
         // Load account again to bypass the borrow checker and insert the slot
-        let account = self.inspect_account_delegated(address)?;
+        let account = self.inspect_account(address)?;
         account.storage.insert(key, slot);
         // Return reference to the newly inserted slot
         Ok(account.storage.get(&key).expect("slot should exist"))
-- 
2.43.0


From 961242027f510b401055acb179d5769b54f91919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:39 +0000
Subject: [PATCH 02/23] fix: do not follow EIP-7702 delegations when inspecting
 call targets

Following them recursed without bound, so a call to an account that delegates
to itself (or to a cycle) overflowed the stack and aborted the process; a value
call to an account delegating to an empty account was charged as a new account.
---
 crates/mega-evm/src/evm/instructions.rs   | 28 ++---------------------
 crates/mega-evm/src/limit/state_growth.rs |  3 +--
 2 files changed, 3 insertions(+), 28 deletions(-)

diff --git a/crates/mega-evm/src/evm/instructions.rs b/crates/mega-evm/src/evm/instructions.rs
index f417b63..4658885 100644
--- a/crates/mega-evm/src/evm/instructions.rs
+++ b/crates/mega-evm/src/evm/instructions.rs
@@ -18,7 +18,7 @@ use revm::{
         InterpreterAction, InterpreterTypes, SStoreResult, Stack,
     },
     primitives::{hash_map::Entry, StorageKey, KECCAK_EMPTY},
-    state::{Account, Bytecode, EvmStorageSlot},
+    state::{Account, EvmStorageSlot},
     Journal,
 };
 
@@ -790,7 +790,7 @@ pub mod storage_gas_ext {
                     return;
                 };
                 let to = to.into_address();
-                let Ok(to_account) = context.host.journal_mut().inspect_account_delegated(to) else {
+                let Ok(to_account) = context.host.journal_mut().inspect_account(to) else {
                     context.interpreter.halt(InstructionResult::FatalExternalError);
                     return;
                 };
@@ -1257,13 +1257,6 @@ pub trait JournalInspectTr {
     /// are not followed.
     fn inspect_account(&mut self, address: Address) -> Result<&mut Account, Self::DBError>;
 
-    /// Inspect the account at the given address without marking it as warm. If the account is
-    /// EIP-7702 type, it should inspect the delegated account.
-    fn inspect_account_delegated(
-        &mut self,
-        address: Address,
-    ) -> Result<&mut Account, Self::DBError>;
-
     /// Inspect the storage at the given address and key without marking it as warm. The storage is
     /// always the one of `address` itself, even if the account is EIP-7702 type.
     fn inspect_storage(
@@ -1302,23 +1295,6 @@ impl<DB: revm::Database> JournalInspectTr for Journal<DB> {
         Ok(account)
     }
 
-    fn inspect_account_delegated(
-        &mut self,
-        address: Address,
-    ) -> Result<&mut Account, Self::DBError> {
-        let account = self.inspect_account(address)?;
-
-        // If the account is a delegated account, inspect the delegated account.
-        if let Some(Bytecode::Eip7702(code)) = &account.info.code {
-            let address = code.address();
-            return self.inspect_account_delegated(address);
-        }
-
-        // Load account again to bypass the borrow checker.
-        let account = self.inner.state.get_mut(&address).unwrap();
-        Ok(account)
-    }
-
     fn inspect_storage(
         &mut self,
         address: Address,
diff --git a/crates/mega-evm/src/limit/state_growth.rs b/crates/mega-evm/src/limit/state_growth.rs
index e3f2967..6f48c6b 100644
--- a/crates/mega-evm/src/limit/state_growth.rs
+++ b/crates/mega-evm/src/limit/state_growth.rs
@@ -233,8 +233,7 @@ impl StateGrowthTracker {
     ) {
         self.new_frame();
 
-        let to_account =
-            journal.inspect_account_delegated(address).expect("failed to inspect account");
+        let to_account = journal.inspect_account(address).expect("failed to inspect account");
         let is_empty = to_account.state_clear_aware_is_empty(SpecId::PRAGUE);
 
         if is_empty && has_transfer {
-- 
2.43.0


From f684b863f751838b4fca482e05d0768fa274ffe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:50 +0000
Subject: [PATCH 03/23] fix: count access list data size by its keys, not by
 allocated capacity

AccessListItem::size() is a heuristic over Vec::capacity(), so the same
transaction could consume different data size depending on how it was decoded.
---
 crates/mega-evm/src/limit/data_size.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/mega-evm/src/limit/data_size.rs b/crates/mega-evm/src/limit/data_size.rs
index 3cd96dc..327bf39 100644
--- a/crates/mega-evm/src/limit/data_size.rs
+++ b/crates/mega-evm/src/limit/data_size.rs
@@ -166,10 +166,18 @@ impl DataSizeTracker {
         let mut size = BASE_TX_SIZE;
         // bytes for the calldata of a transaction
         size += tx.input().len() as u64;
-        // bytes for the access list of a transaction
+        // bytes for the access list of a transaction. `AccessListItem::size` must not be used here
+        // since it is based on the allocated capacity rather than the number of storage keys.
         size += tx
             .access_list()
-            .map(|item| item.map(|access| access.size() as u64).sum::<u64>())
+            .map(|item| {
+                item.map(|access| {
+                    (core::mem::size_of_val(&access.address) +
+                        core::mem::size_of_val(access.storage_keys.as_slice()))
+                        as u64
+                })
+                .sum::<u64>()
+            })
             .unwrap_or_default();
         // bytes for the EIP-7702 authorization list of a transaction (101 bytes per authorization)
         size += tx.authorization_list_len() as u64 * AUTHORIZATION_SIZE;
-- 
2.43.0


From 25a4759d5c74a502acea523c04ec62cbbc5ad739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:32 +0000
Subject: [PATCH 04/23] fix: bump the sender nonce of a create transaction that
 halts before its first frame

A create transaction that ran out of gas on storage gas, or exceeded a limit
before its first frame, was charged but left the sender's nonce unchanged, so
the same transaction could be executed again.
---
 crates/mega-evm/src/evm/context.rs   | 18 ++++++++++++++++++
 crates/mega-evm/src/evm/execution.rs |  6 ++++++
 2 files changed, 24 insertions(+)

diff --git a/crates/mega-evm/src/evm/context.rs b/crates/mega-evm/src/evm/context.rs
index 6df9ccb..8729619 100644
--- a/crates/mega-evm/src/evm/context.rs
+++ b/crates/mega-evm/src/evm/context.rs
@@ -513,6 +513,24 @@ impl<DB: Database, ExtEnvs: ExternalEnvTypes> MegaContext<DB, ExtEnvs> {
             self.additional_limit.borrow_mut().before_tx_start(&self.inner.tx);
         }
     }
+
+    /// Bumps the nonce of the sender of a contract creation transaction that halts before its
+    /// first frame is created.
+    ///
+    /// The nonce of a create transaction is bumped when its first frame is created, so a
+    /// transaction that is charged but never gets there must bump it explicitly. Otherwise the
+    /// same transaction could be executed again.
+    pub(crate) fn bump_create_tx_nonce(&mut self) {
+        let tx = &self.inner.tx.base;
+        if tx.kind.is_create() {
+            let caller = tx.caller;
+            let journal = &mut self.inner.journaled_state.inner;
+            if let Some(account) = journal.state.get_mut(&caller) {
+                account.info.nonce = account.info.nonce.saturating_add(1);
+                journal.nonce_bump_journal_entry(caller);
+            }
+        }
+    }
 }
 
 /// Implementation of the `ContextTr` trait for `Context`.
diff --git a/crates/mega-evm/src/evm/execution.rs b/crates/mega-evm/src/evm/execution.rs
index 846f339..61b20b2 100644
--- a/crates/mega-evm/src/evm/execution.rs
+++ b/crates/mega-evm/src/evm/execution.rs
@@ -122,6 +122,7 @@ where
         if tx.gas_limit() < init_and_floor_gas.initial_gas {
             // If not sufficient gas, we halt with out of gas
             let oog_frame_result = gen_oog_frame_result(tx.kind(), tx.gas_limit());
+            evm.ctx_mut().bump_create_tx_nonce();
             return Ok(Some(oog_frame_result));
         }
         Ok(None)
@@ -670,6 +671,11 @@ where
                 .before_frame_init(&frame_init, self.ctx().journal_mut())
                 .exceeded_limit()
         {
+            // the nonce of a create transaction is consumed even if its frame is never created
+            if frame_init.depth == 0 {
+                self.ctx().bump_create_tx_nonce();
+            }
+
             // if the limit is exceeded, create an error frame result and return it directly
             let (gas_limit, return_memory_offset) = match &frame_init.frame_input {
                 FrameInput::Create(inputs) => (inputs.gas_limit, None),
-- 
2.43.0


From 7072fa47da082fa9c313d0154ecffee5b2d7e98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:07 +0000
Subject: [PATCH 05/23] fix: clear the journal when an inspected transaction is
 rejected

---
 crates/mega-evm/src/evm/interfaces.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/mega-evm/src/evm/interfaces.rs b/crates/mega-evm/src/evm/interfaces.rs
index 411fb3e..ab07575 100644
--- a/crates/mega-evm/src/evm/interfaces.rs
+++ b/crates/mega-evm/src/evm/interfaces.rs
@@ -171,6 +171,18 @@ where
         let mut h = MegaHandler::<_, _, EthFrame<EthInterpreter>>::new();
         revm::inspector::InspectorHandler::inspect_run(&mut h, self)
     }
+
+    // Unlike the default implementation, the journal is cleared when the transaction is rejected
+    // as well, as `transact` does. Otherwise, what the rejected transaction loaded or changed would
+    // leak into the next transaction.
+    fn inspect_tx(
+        &mut self,
+        tx: Self::Tx,
+    ) -> Result<ExecResultAndState<Self::ExecutionResult, Self::State>, Self::Error> {
+        let output_or_error = self.inspect_one_tx(tx);
+        let state = revm::ExecuteEvm::finalize(self);
+        Ok(ExecResultAndState::new(output_or_error?, state))
+    }
 }
 
 impl<DB, INSP, ExtEnvs: ExternalEnvTypes> revm::InspectCommitEvm for MegaEvm<DB, INSP, ExtEnvs>
-- 
2.43.0


From e921d493e60858865189564b82fd426fff68f0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:33 +0000
Subject: [PATCH 06/23] fix: CREATE2 whose init code lies beyond the expanded
 memory must not panic

The storage gas wrapper of CREATE2 sliced the memory before it was expanded, so a
CREATE2 whose init code range is not covered by the current memory crashed the
node; with a length of zero, any offset is legal.
---
 crates/mega-evm/src/evm/instructions.rs | 39 ++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/crates/mega-evm/src/evm/instructions.rs b/crates/mega-evm/src/evm/instructions.rs
index 4658885..f29fbfa 100644
--- a/crates/mega-evm/src/evm/instructions.rs
+++ b/crates/mega-evm/src/evm/instructions.rs
@@ -870,11 +870,42 @@ pub mod storage_gas_ext {
                 context.interpreter.halt(InstructionResult::StackUnderflow);
                 return;
             };
-            let initcode_offset = as_usize_or_fail!(context.interpreter, initcode_offset);
             let initcode_len = as_usize_or_fail!(context.interpreter, initcode_len);
-            let code = Bytes::copy_from_slice(
-                context.interpreter.memory.slice_len(initcode_offset, initcode_len).as_ref(),
-            );
+            // The offset is irrelevant if there is no init code.
+            let initcode_offset = if initcode_len == 0 {
+                0
+            } else {
+                as_usize_or_fail!(context.interpreter, initcode_offset)
+            };
+            // The memory is not yet expanded to cover the init code, which is done (and charged) by
+            // the original instruction. The part beyond the current memory reads as zeros.
+            let memory_size = context.interpreter.memory.size();
+            let initcode_end = initcode_offset.saturating_add(initcode_len);
+            let code = if initcode_len == 0 || initcode_end <= memory_size {
+                Bytes::copy_from_slice(
+                    context.interpreter.memory.slice_len(initcode_offset, initcode_len).as_ref(),
+                )
+            } else {
+                // If the init code is too large or hashing it cannot be paid for, the original
+                // instruction fails, so there is nothing more to charge.
+                let hash_cost = gas::initcode_cost(initcode_len).saturating_add(
+                    gas::cost_per_word(initcode_len, gas::KECCAK256WORD).unwrap_or(u64::MAX),
+                );
+                if initcode_len > context.host.max_initcode_size() ||
+                    context.interpreter.gas.remaining() < hash_cost
+                {
+                    run_inner_instruction_or_abort!(compute_gas_ext::create2, context);
+                    return;
+                }
+                let mut code = vec![0; initcode_len];
+                if initcode_offset < memory_size {
+                    let available = memory_size - initcode_offset;
+                    code[..available].copy_from_slice(
+                        context.interpreter.memory.slice_len(initcode_offset, available).as_ref(),
+                    );
+                }
+                code.into()
+            };
             let initcode_hash = keccak256(&code);
 
             let Some(salt) = context.interpreter.stack.inspect::<3>() else {
-- 
2.43.0


From 5bfc46115629abbbb86413fa9c432577a6772974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:56 +0000
Subject: [PATCH 07/23] fix: forget bucket multipliers when the block
 environment is replaced

MegaContext::set_block (ExecuteEvm::set_block) replaced the block without
resetting the dynamic gas cost calculator, so that storage gas of the new block
was priced with the bucket sizes of the old one.
---
 crates/mega-evm/src/evm/context.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/mega-evm/src/evm/context.rs b/crates/mega-evm/src/evm/context.rs
index 8729619..06ab061 100644
--- a/crates/mega-evm/src/evm/context.rs
+++ b/crates/mega-evm/src/evm/context.rs
@@ -574,9 +574,14 @@ impl<DB: Database, ExtEnvs: ExternalEnvTypes> ContextTr for MegaContext<DB, ExtE
 /// This implementation provides methods to update the context state, with
 /// special handling for transaction updates to reset internal state.
 impl<DB: Database, ExtEnvs: ExternalEnvTypes> ContextSetters for MegaContext<DB, ExtEnvs> {
+    fn set_block(&mut self, block: Self::Block) {
+        self.inner.set_block(block);
+        // Reset internal state for new block
+        self.on_new_block();
+    }
+
     delegate! {
         to self.inner {
-            fn set_block(&mut self, block: Self::Block);
             fn set_tx(&mut self, tx: Self::Tx);
         }
     }
-- 
2.43.0


From 36635d3d898188fb78caf6e3c9b1909948c25131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:56 +0000
Subject: [PATCH 08/23] fix: block gas check must not overflow

block_gas_used + gas_limit wrapped (or panicked in debug builds) for a
transaction with a gas limit close to u64::MAX, admitting it into any block.
---
 crates/mega-evm/src/block/limit.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/mega-evm/src/block/limit.rs b/crates/mega-evm/src/block/limit.rs
index 4a5ef65..287960d 100644
--- a/crates/mega-evm/src/block/limit.rs
+++ b/crates/mega-evm/src/block/limit.rs
@@ -794,11 +794,12 @@ impl BlockLimiter {
         }
 
         // Check block gas limit
-        if self.block_gas_used + gas_limit > self.limits.block_gas_limit {
+        let block_available_gas = self.limits.block_gas_limit.saturating_sub(self.block_gas_used);
+        if gas_limit > block_available_gas {
             return Err(BlockExecutionError::Validation(
                 BlockValidationError::TransactionGasLimitMoreThanAvailableBlockGas {
                     transaction_gas_limit: gas_limit,
-                    block_available_gas: self.limits.block_gas_limit - self.block_gas_used,
+                    block_available_gas,
                 },
             ));
         }
-- 
2.43.0


From eb58e70acf24bdbc465ab29848610247ca50651e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:16 +0000
Subject: [PATCH 09/23] fix: report database and environment failures during
 opcode execution as errors

Failures of the database or the SALT environment inside the wrapped
SSTORE, CALL-like and CREATE opcodes either panicked (no error stored in the
context although the interpreter halted with FatalExternalError) or were
silently taken for an empty slot; the state growth tracker panicked when the
callee could not be loaded. They are now returned as an error of the
transaction.
---
 crates/mega-evm/src/evm/execution.rs      |  2 +-
 crates/mega-evm/src/evm/instructions.rs   | 77 ++++++++++++++---------
 crates/mega-evm/src/limit/mod.rs          |  9 +--
 crates/mega-evm/src/limit/state_growth.rs |  9 +--
 4 files changed, 58 insertions(+), 39 deletions(-)

diff --git a/crates/mega-evm/src/evm/execution.rs b/crates/mega-evm/src/evm/execution.rs
index 61b20b2..c9a2e4a 100644
--- a/crates/mega-evm/src/evm/execution.rs
+++ b/crates/mega-evm/src/evm/execution.rs
@@ -668,7 +668,7 @@ where
         if is_mini_rex_enabled &&
             additional_limit
                 .borrow_mut()
-                .before_frame_init(&frame_init, self.ctx().journal_mut())
+                .before_frame_init(&frame_init, self.ctx().journal_mut())?
                 .exceeded_limit()
         {
             // the nonce of a create transaction is consumed even if its frame is never created
diff --git a/crates/mega-evm/src/evm/instructions.rs b/crates/mega-evm/src/evm/instructions.rs
index f29fbfa..239993a 100644
--- a/crates/mega-evm/src/evm/instructions.rs
+++ b/crates/mega-evm/src/evm/instructions.rs
@@ -1,5 +1,9 @@
 use core::cmp::min;
 
+#[cfg(not(feature = "std"))]
+use alloc as std;
+use std::string::ToString;
+
 use crate::{
     constants::{self},
     AdditionalLimit, ExternalEnvTypes, HostExt, MegaContext, MegaSpecId,
@@ -8,6 +12,7 @@ use alloy_evm::Database;
 use alloy_primitives::{keccak256, Address, Bytes, U256};
 use revm::{
     context::{ContextTr, JournalTr},
+    context_interface::context::ContextError,
     handler::instructions::{EthInstructions, InstructionProvider},
     interpreter::{
         as_usize_or_fail, gas, gas_or_fail,
@@ -221,6 +226,22 @@ macro_rules! compute_gas {
     };
 }
 
+/// Macro to abort the transaction on a failure of the database or the external environment: the
+/// error is stored in the context, where it is picked up when the frame returns, and the current
+/// interpreter is halted.
+macro_rules! fatal_external_error {
+    ($context:expr, $error:expr) => {{
+        *$context.host.error() = Err($error);
+        $context.interpreter.halt(InstructionResult::FatalExternalError);
+        return;
+    }};
+}
+
+/// The error of a transaction whose storage gas cannot be obtained from the external environment.
+fn storage_gas_error<DBError>() -> ContextError<DBError> {
+    ContextError::Custom("Failed to get storage gas from the external environment".to_string())
+}
+
 /// Macro to run the inner instruction and abort if the instruction result is an error.
 macro_rules! run_inner_instruction_or_abort {
     ($inner_fn:path, $context:expr) => {
@@ -694,9 +715,10 @@ pub mod additional_limit_ext {
             return;
         };
         let storage_slot = context.host.journal_mut().inspect_storage(target_address, index);
-        let (original_value, present_value) = storage_slot
-            .map(|slot| (slot.original_value(), slot.present_value()))
-            .unwrap_or_default();
+        let (original_value, present_value) = match storage_slot {
+            Ok(slot) => (slot.original_value(), slot.present_value()),
+            Err(e) => fatal_external_error!(context, ContextError::Db(e)),
+        };
         let Some(new_value) = context.interpreter.stack.inspect::<1>() else {
             context.interpreter.halt(InstructionResult::StackUnderflow);
             return;
@@ -790,11 +812,10 @@ pub mod storage_gas_ext {
                     return;
                 };
                 let to = to.into_address();
-                let Ok(to_account) = context.host.journal_mut().inspect_account(to) else {
-                    context.interpreter.halt(InstructionResult::FatalExternalError);
-                    return;
+                let is_empty = match context.host.journal_mut().inspect_account(to) {
+                    Ok(to_account) => to_account.state_clear_aware_is_empty(spec),
+                    Err(e) => fatal_external_error!(context, ContextError::Db(e)),
                 };
-                let is_empty = to_account.state_clear_aware_is_empty(spec);
                 let has_transfer = if $has_transfer_logic {
                     let Some(value) =context.interpreter.stack.inspect::<2>() else {
                         context.interpreter.halt(InstructionResult::StackUnderflow);
@@ -807,8 +828,7 @@ pub mod storage_gas_ext {
                 // Charge additional storage gas cost for creating a new account
                 if is_empty && has_transfer {
                     let Ok(new_account_storage_gas) = context.host.new_account_storage_gas(to) else {
-                        context.interpreter.halt(InstructionResult::FatalExternalError);
-                        return;
+                        fatal_external_error!(context, storage_gas_error());
                     };
                     gas!(context.interpreter, new_account_storage_gas);
                 }
@@ -855,9 +875,9 @@ pub mod storage_gas_ext {
         let creator_address = context.interpreter.input.target_address();
         // Load the creator account from the journal, this must not be cold loaded since the creator
         // must have been warmed when the current frame begins.
-        let Ok(creator) = context.host.journal_mut().load_account(creator_address) else {
-            context.interpreter.halt(InstructionResult::FatalExternalError);
-            return;
+        let creator_nonce = match context.host.journal_mut().load_account(creator_address) {
+            Ok(creator) => creator.data.info.nonce,
+            Err(e) => fatal_external_error!(context, ContextError::Db(e)),
         };
 
         // Calculate the created address
@@ -915,7 +935,7 @@ pub mod storage_gas_ext {
 
             creator_address.create2(salt.to_be_bytes(), initcode_hash)
         } else {
-            creator_address.create(creator.data.info.nonce)
+            creator_address.create(creator_nonce)
         };
 
         // Charge storage gas cost for creating a new contract
@@ -927,8 +947,7 @@ pub mod storage_gas_ext {
             context.host.new_account_storage_gas(created_address)
         };
         let Ok(create_contract_storage_gas) = create_contract_storage_gas else {
-            context.interpreter.halt(InstructionResult::FatalExternalError);
-            return;
+            fatal_external_error!(context, storage_gas_error());
         };
         gas!(context.interpreter, create_contract_storage_gas);
 
@@ -1026,9 +1045,10 @@ pub mod storage_gas_ext {
         };
         // The storage slot values
         let storage_slot = context.host.journal_mut().inspect_storage(target_address, index);
-        let (original_value, present_value) = storage_slot
-            .map(|slot| (slot.original_value(), slot.present_value()))
-            .unwrap_or_default();
+        let (original_value, present_value) = match storage_slot {
+            Ok(slot) => (slot.original_value(), slot.present_value()),
+            Err(e) => fatal_external_error!(context, ContextError::Db(e)),
+        };
         let Some(new_value) = context.interpreter.stack.inspect::<1>() else {
             context.interpreter.halt(InstructionResult::StackUnderflow);
             return;
@@ -1039,8 +1059,7 @@ pub mod storage_gas_ext {
             let Ok(sstore_set_storage_gas) =
                 context.host.sstore_set_storage_gas(target_address, index)
             else {
-                context.interpreter.halt(InstructionResult::FatalExternalError);
-                return;
+                fatal_external_error!(context, storage_gas_error());
             };
             gas!(context.interpreter, sstore_set_storage_gas);
         }
@@ -1280,13 +1299,13 @@ impl StackInspectTr for Stack {
 /// loaded from the database and cached in the journal. However, since we explicitly mark the
 /// account or storage slot as cold, this pre-loading before executing the original instruction will
 /// make no difference on gas cost.
-pub trait JournalInspectTr {
-    /// The database error type.
-    type DBError;
-
+pub trait JournalInspectTr: JournalTr {
     /// Inspect the account at the given address without marking it as warm. EIP-7702 delegations
     /// are not followed.
-    fn inspect_account(&mut self, address: Address) -> Result<&mut Account, Self::DBError>;
+    fn inspect_account(
+        &mut self,
+        address: Address,
+    ) -> Result<&mut Account, <Self::Database as revm::Database>::Error>;
 
     /// Inspect the storage at the given address and key without marking it as warm. The storage is
     /// always the one of `address` itself, even if the account is EIP-7702 type.
@@ -1294,13 +1313,11 @@ pub trait JournalInspectTr {
         &mut self,
         address: Address,
         key: StorageKey,
-    ) -> Result<&EvmStorageSlot, Self::DBError>;
+    ) -> Result<&EvmStorageSlot, <Self::Database as revm::Database>::Error>;
 }
 
 impl<DB: revm::Database> JournalInspectTr for Journal<DB> {
-    type DBError = <DB as revm::Database>::Error;
-
-    fn inspect_account(&mut self, address: Address) -> Result<&mut Account, Self::DBError> {
+    fn inspect_account(&mut self, address: Address) -> Result<&mut Account, DB::Error> {
         let transaction_id = self.transaction_id;
         let account = match self.inner.state.entry(address) {
             Entry::Occupied(entry) => {
@@ -1330,7 +1347,7 @@ impl<DB: revm::Database> JournalInspectTr for Journal<DB> {
         &mut self,
         address: Address,
         key: StorageKey,
-    ) -> Result<&EvmStorageSlot, Self::DBError> {
+    ) -> Result<&EvmStorageSlot, DB::Error> {
         let transaction_id = self.transaction_id;
         let account = self.inspect_account(address)?;
         if account.storage.contains_key(&key) {
diff --git a/crates/mega-evm/src/limit/mod.rs b/crates/mega-evm/src/limit/mod.rs
index 763e42a..f443af1 100644
--- a/crates/mega-evm/src/limit/mod.rs
+++ b/crates/mega-evm/src/limit/mod.rs
@@ -9,6 +9,7 @@ use revm::{
         interpreter::EthInterpreter, interpreter_action::FrameInit, CallOutcome, CreateOutcome,
         FrameInput, Gas, InstructionResult, InterpreterResult, SStoreResult,
     },
+    Database,
 };
 
 use crate::{EvmTxRuntimeLimits, JournalInspectTr, MegaHaltReason, MegaSpecId, MegaTransaction};
@@ -415,11 +416,11 @@ impl AdditionalLimit {
     }
 
     /// Hook called before a new execution frame is initialized.
-    pub(crate) fn before_frame_init<JOURNAL: JournalInspectTr<DBError: core::fmt::Debug>>(
+    pub(crate) fn before_frame_init<JOURNAL: JournalInspectTr>(
         &mut self,
         frame_init: &FrameInit,
         journal: &mut JOURNAL,
-    ) -> AdditionalLimitResult {
+    ) -> Result<AdditionalLimitResult, <JOURNAL::Database as Database>::Error> {
         match &frame_init.frame_input {
             FrameInput::Empty => unreachable!(),
             FrameInput::Call(call_inputs) => {
@@ -433,7 +434,7 @@ impl AdditionalLimit {
                     journal,
                     call_inputs.target_address,
                     has_transfer,
-                );
+                )?;
             }
             FrameInput::Create(_) => {
                 // new frame in data size tracker
@@ -445,7 +446,7 @@ impl AdditionalLimit {
             }
         }
 
-        self.check_limit()
+        Ok(self.check_limit())
     }
 
     /// Hook called when a new execution frame is successfully initialized in `frame_init` and needs
diff --git a/crates/mega-evm/src/limit/state_growth.rs b/crates/mega-evm/src/limit/state_growth.rs
index 6f48c6b..c98d8ac 100644
--- a/crates/mega-evm/src/limit/state_growth.rs
+++ b/crates/mega-evm/src/limit/state_growth.rs
@@ -77,7 +77,7 @@ use alloc as std;
 use std::vec::Vec;
 
 use alloy_primitives::{Address, U256};
-use revm::{interpreter::InstructionResult, primitives::hardfork::SpecId};
+use revm::{interpreter::InstructionResult, primitives::hardfork::SpecId, Database};
 
 use crate::JournalInspectTr;
 
@@ -225,21 +225,22 @@ impl StateGrowthTracker {
     ///
     /// This implements EIP-161's account clearing rules. Calls without value transfer
     /// to empty accounts do not create an account and thus don't count toward state growth.
-    pub(crate) fn record_call<JOURNAL: JournalInspectTr<DBError: core::fmt::Debug>>(
+    pub(crate) fn record_call<JOURNAL: JournalInspectTr>(
         &mut self,
         journal: &mut JOURNAL,
         address: Address,
         has_transfer: bool,
-    ) {
+    ) -> Result<(), <JOURNAL::Database as Database>::Error> {
         self.new_frame();
 
-        let to_account = journal.inspect_account(address).expect("failed to inspect account");
+        let to_account = journal.inspect_account(address)?;
         let is_empty = to_account.state_clear_aware_is_empty(SpecId::PRAGUE);
 
         if is_empty && has_transfer {
             self.total_growth += 1;
             self.update_current_frame_discardable_size(1);
         }
+        Ok(())
     }
 
     /// Records the new account creation.
-- 
2.43.0


From 45abf34d6770cba012f8708b56d6de05f69ace77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:08 +0000
Subject: [PATCH 10/23] fix: do not report a failed transaction's error in the
 next transaction

An error stored in the context during execution stayed there if settlement
failed as well, and the next transaction was then rejected with it.
---
 crates/mega-evm/src/evm/execution.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/mega-evm/src/evm/execution.rs b/crates/mega-evm/src/evm/execution.rs
index c9a2e4a..15dcf81 100644
--- a/crates/mega-evm/src/evm/execution.rs
+++ b/crates/mega-evm/src/evm/execution.rs
@@ -490,6 +490,10 @@ where
         evm: &mut Self::Evm,
         error: Self::Error,
     ) -> Result<ExecutionResult<Self::HaltReason>, Self::Error> {
+        // A failure during execution may still be stored in the context if a later step failed
+        // before it was picked up. It must not be reported by the next transaction.
+        *evm.ctx().error() = Ok(());
+
         let result = self.op.catch_error(evm, error)?;
         Ok(result.map_haltreason(MegaHaltReason::Base))
     }
-- 
2.43.0


From 1a4f8d0027164cbd5395c83040db669772ddbab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:23 +0000
Subject: [PATCH 11/23] fix: state written by a keyless deployment persists for
 accounts already in the journal

When the sandbox state is merged without status into accounts that are
already loaded in the parent journal (e.g. through the access list), the
touched mark was dropped, so the charge to the signer and the deployed
contract were never written back.
---
 crates/mega-evm/src/evm/state.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/mega-evm/src/evm/state.rs b/crates/mega-evm/src/evm/state.rs
index 8a6d271..8dd75cd 100644
--- a/crates/mega-evm/src/evm/state.rs
+++ b/crates/mega-evm/src/evm/state.rs
@@ -135,6 +135,9 @@ fn merge_account_state(this: &mut Account, other: &Account, merge_status: bool)
     merge_evm_storage(&mut this.storage, &other.storage);
     if merge_status {
         merge_account_status(&mut this.status, other.status);
+    } else {
+        // a change of a touched account must still be written back when `this` is committed
+        this.status |= other.status & AccountStatus::Touched;
     }
 }
 
-- 
2.43.0


From 025a110886c8d219f2912c5a085c0073513db39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:37 +0000
Subject: [PATCH 12/23] fix: a transaction over its limits is not run as a
 keyless deployment

The interception of keylessDeploy returned before the limits of the
transaction were checked, so a transaction whose intrinsic usage already
exceeded a limit succeeded.
---
 crates/mega-evm/src/evm/execution.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/mega-evm/src/evm/execution.rs b/crates/mega-evm/src/evm/execution.rs
index 15dcf81..c001b8c 100644
--- a/crates/mega-evm/src/evm/execution.rs
+++ b/crates/mega-evm/src/evm/execution.rs
@@ -649,7 +649,12 @@ where
             // Only intercept if:
             // 1. Sandbox is not disabled (prevents infinite recursion)
             // 2. This is a top-level call (depth == 0)
-            if !self.ctx().is_sandbox_disabled() && frame_init.depth == 0 {
+            // 3. The transaction has not exceeded any limit before its execution; if it has, the
+            //    limit check below fails it
+            if !self.ctx().is_sandbox_disabled() &&
+                frame_init.depth == 0 &&
+                !additional_limit.borrow_mut().check_limit().exceeded_limit()
+            {
                 if let FrameInput::Call(call_inputs) = &frame_init.frame_input {
                     if call_inputs.target_address == KEYLESS_DEPLOY_ADDRESS {
                         let input_bytes = call_inputs.input.bytes(self.ctx());
-- 
2.43.0


From 4d8d83b4508d8275a54451009f70f7aa151023cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:53 +0000
Subject: [PATCH 13/23] fix: gas is returned when the keyless deploy overhead
 exceeds the compute limit

---
 crates/mega-evm/src/sandbox/execution.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/mega-evm/src/sandbox/execution.rs b/crates/mega-evm/src/sandbox/execution.rs
index d9bf1dd..2fa1719 100644
--- a/crates/mega-evm/src/sandbox/execution.rs
+++ b/crates/mega-evm/src/sandbox/execution.rs
@@ -159,6 +159,8 @@ pub fn execute_keyless_deploy_call<DB: alloy_evm::Database, ExtEnvs: ExternalEnv
     if ctx.spec.is_enabled(MegaSpecId::REX3) {
         let mut limit = ctx.additional_limit.borrow_mut();
         if limit.record_compute_gas(cost).exceeded_limit() {
+            // exceeding a limit consumes only the gas spent so far, the rest is returned
+            limit.rescue_gas(&gas);
             let mut result = make_halt!();
             mark_frame_result_as_exceeding_limit(&mut result);
             return result;
-- 
2.43.0


From 1535f083e710b0c4adb692fbae5446918b7ef5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:08 +0000
Subject: [PATCH 14/23] fix: a keyless deployment runs with the configuration
 of its chain

The sandbox was created with the default configuration, so CHAINID read 1
in the init code on every chain.
---
 crates/mega-evm/src/sandbox/execution.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/mega-evm/src/sandbox/execution.rs b/crates/mega-evm/src/sandbox/execution.rs
index 2fa1719..9666714 100644
--- a/crates/mega-evm/src/sandbox/execution.rs
+++ b/crates/mega-evm/src/sandbox/execution.rs
@@ -42,7 +42,7 @@ use revm::{
 
 use crate::{
     constants, mark_frame_result_as_exceeding_limit, merge_evm_state_optional_status,
-    ExternalEnvTypes, MegaContext, MegaEvm, MegaSpecId, MegaTransaction,
+    ExternalEnvTypes, IntoMegaethCfgEnv, MegaContext, MegaEvm, MegaSpecId, MegaTransaction,
 };
 
 use super::tx::{calculate_keyless_deploy_address, decode_keyless_tx, recover_signer};
@@ -222,6 +222,8 @@ pub fn execute_keyless_deploy_call<DB: alloy_evm::Database, ExtEnvs: ExternalEnv
             gas_limit: gas_limit_override_u64,
             gas_price: keyless_tx.effective_gas_price(None),
             nonce: 0,
+            // a pre-EIP-155 transaction is not bound to a chain
+            chain_id: None,
             ..Default::default()
         };
         let mut mega_tx = MegaTransaction::new(tx);
@@ -310,6 +312,7 @@ pub fn execute_keyless_deploy_sandbox<DB: alloy_evm::Database, ExtEnvs: External
 
     // Extract values we need BEFORE borrowing the journal
     let mega_spec = ctx.mega_spec();
+    let cfg = ctx.cfg().clone().into_megaeth_cfg(mega_spec);
     let block = ctx.block().clone();
     let chain = ctx.chain().clone();
     let journal = ctx.journal_mut();
@@ -340,6 +343,7 @@ pub fn execute_keyless_deploy_sandbox<DB: alloy_evm::Database, ExtEnvs: External
         // SandboxDb is a concrete type, so MegaContext<SandboxDb, ...> doesn't recurse.
         // Disable sandbox interception to prevent recursive sandbox creation.
         let sandbox_ctx = MegaContext::new(sandbox_db, mega_spec)
+            .with_cfg(cfg)
             .with_block(block)
             .with_chain(chain)
             .with_sandbox_disabled(true);
-- 
2.43.0


From 8247277e254c816ae9aff823ebef0cae821b88da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:24 +0000
Subject: [PATCH 15/23] fix: merging a state into one with a destroyed account

The account was still destroyed when the merged state was committed, so
ether sent to it later was lost, and a contract created at its address
later kept the storage of the destroyed one.
---
 crates/mega-evm/src/evm/state.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/mega-evm/src/evm/state.rs b/crates/mega-evm/src/evm/state.rs
index 8dd75cd..1e3d044 100644
--- a/crates/mega-evm/src/evm/state.rs
+++ b/crates/mega-evm/src/evm/state.rs
@@ -118,6 +118,15 @@ pub fn merge_evm_state_optional_status(this: &mut EvmState, other: &EvmState, me
             }
             Entry::Occupied(mut v) => {
                 let this_account = v.get_mut();
+                if merge_status && this_account.is_selfdestructed() {
+                    // `other` found the account already destroyed: nothing of `this` but its
+                    // coldness and its deletion may survive, in particular none of its storage.
+                    let is_cold = this_account.status.contains(AccountStatus::Cold);
+                    *this_account = Account::default().with_touched_mark();
+                    if is_cold {
+                        this_account.mark_cold();
+                    }
+                }
                 merge_account_state(this_account, account, merge_status);
             }
         }
-- 
2.43.0


From 7b27b2ea329f8ef37c6fe06a3bec1690df20d9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:10 +0000
Subject: [PATCH 16/23] fix: charge the keyless deploy signer the L1 fee of its
 own transaction

---
 crates/mega-evm/src/sandbox/execution.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/mega-evm/src/sandbox/execution.rs b/crates/mega-evm/src/sandbox/execution.rs
index 9666714..3b8d6e8 100644
--- a/crates/mega-evm/src/sandbox/execution.rs
+++ b/crates/mega-evm/src/sandbox/execution.rs
@@ -314,7 +314,9 @@ pub fn execute_keyless_deploy_sandbox<DB: alloy_evm::Database, ExtEnvs: External
     let mega_spec = ctx.mega_spec();
     let cfg = ctx.cfg().clone().into_megaeth_cfg(mega_spec);
     let block = ctx.block().clone();
-    let chain = ctx.chain().clone();
+    let mut chain = ctx.chain().clone();
+    // The cached L1 cost is that of the outer transaction; the sandbox transaction has its own.
+    chain.clear_tx_l1_cost();
     let journal = ctx.journal_mut();
 
     // Create type-erased sandbox database with split borrows:
-- 
2.43.0


From 3ff318b509cb59d8b5ba9de10041aa3630d05190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:51 +0000
Subject: [PATCH 17/23] fix: merging states keeps the code of an account read
 without it later

---
 crates/mega-evm/src/evm/state.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/mega-evm/src/evm/state.rs b/crates/mega-evm/src/evm/state.rs
index 1e3d044..07bdac6 100644
--- a/crates/mega-evm/src/evm/state.rs
+++ b/crates/mega-evm/src/evm/state.rs
@@ -140,7 +140,11 @@ pub fn merge_evm_state_optional_status(this: &mut EvmState, other: &EvmState, me
 /// The other account to merge is not flagged as `SelfDestructed`. See more details in
 /// the [`merge_evm_state`] function.
 fn merge_account_state(this: &mut Account, other: &Account, merge_status: bool) {
-    this.info = other.info.clone();
+    let before = core::mem::replace(&mut this.info, other.info.clone());
+    if this.info.code.is_none() && this.info.code_hash == before.code_hash {
+        // `other` read the account without its code, `this` may be the only one to know it.
+        this.info.code = before.code;
+    }
     merge_evm_storage(&mut this.storage, &other.storage);
     if merge_status {
         merge_account_status(&mut this.status, other.status);
-- 
2.43.0


From f9cd93be8962e42229bb58c9c0a66492507d9681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:24 +0000
Subject: [PATCH 18/23] fix: do not underflow when a context for block 0 is
 made from an existing OP context

`MegaContext::new_with_context` subtracted one from the number of the context's block, which
panics (or wraps) for block 0, the number in a default block environment. Saturate, as
`with_external_envs` does.
---
 crates/mega-evm/src/evm/context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mega-evm/src/evm/context.rs b/crates/mega-evm/src/evm/context.rs
index 06ab061..164e519 100644
--- a/crates/mega-evm/src/evm/context.rs
+++ b/crates/mega-evm/src/evm/context.rs
@@ -168,7 +168,7 @@ impl<DB: Database, ExtEnvTypes: ExternalEnvTypes> MegaContext<DB, ExtEnvTypes> {
             dynamic_storage_gas_cost: Rc::new(RefCell::new(DynamicGasCost::new(
                 spec,
                 external_envs.salt_env,
-                inner.block.number.to::<u64>() - 1,
+                inner.block.number.to::<u64>().saturating_sub(1),
             ))),
             oracle_env: Rc::new(RefCell::new(external_envs.oracle_env)),
             volatile_data_tracker: Rc::new(RefCell::new(VolatileDataAccessTracker::new(
-- 
2.43.0


From 8f1385cbf3c6fd400e7eaa4ed7fa7799c0b3f3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:04 +0000
Subject: [PATCH 19/23] fix: clear the journal when a replayed transaction is
 rejected

`replay` only finalized the journal when the transaction was executed. What a rejected one had
changed, such as the nonce of its sender, stayed in the journal and leaked into the next
transaction, which was then accepted with a nonce too high or charged differently.
---
 crates/mega-evm/src/evm/interfaces.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/mega-evm/src/evm/interfaces.rs b/crates/mega-evm/src/evm/interfaces.rs
index ab07575..046d779 100644
--- a/crates/mega-evm/src/evm/interfaces.rs
+++ b/crates/mega-evm/src/evm/interfaces.rs
@@ -139,10 +139,10 @@ where
         &mut self,
     ) -> Result<ExecResultAndState<Self::ExecutionResult, Self::State>, Self::Error> {
         let mut h = MegaHandler::<_, _, EthFrame<EthInterpreter>>::new();
-        revm::handler::Handler::run(&mut h, self).map(|result| {
-            let state = self.finalize();
-            ExecResultAndState::new(result, state)
-        })
+        let output_or_error: Result<_, Self::Error> = revm::handler::Handler::run(&mut h, self);
+        // The journal is cleared when the transaction is rejected as well, as `transact` does.
+        let state = self.finalize();
+        Ok(ExecResultAndState::new(output_or_error?, state))
     }
 }
 
-- 
2.43.0


From 5525f60c2a8b013a069573631c58a8aa8b862a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:00 +0000
Subject: [PATCH 20/23] fix: clear the journal when a transaction to be
 committed or inspected is rejected

The default implementations of `transact_commit`, `inspect`, `inspect_tx_commit` and
`inspect_commit` leave what a rejected transaction had changed, such as the nonce of its sender,
in the journal, from where it leaked into the next transaction.
---
 crates/mega-evm/src/evm/interfaces.rs | 33 +++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/crates/mega-evm/src/evm/interfaces.rs b/crates/mega-evm/src/evm/interfaces.rs
index 046d779..7e4a10d 100644
--- a/crates/mega-evm/src/evm/interfaces.rs
+++ b/crates/mega-evm/src/evm/interfaces.rs
@@ -153,6 +153,14 @@ where
     fn commit(&mut self, state: Self::State) {
         self.ctx().db_mut().commit(state);
     }
+
+    // As `transact`, and unlike the default implementation, this clears the journal when the
+    // transaction is rejected.
+    fn transact_commit(&mut self, tx: Self::Tx) -> Result<Self::ExecutionResult, Self::Error> {
+        let ExecResultAndState { result, state } = revm::ExecuteEvm::transact(self, tx)?;
+        self.commit(state);
+        Ok(result)
+    }
 }
 
 impl<DB, INSP, ExtEnvs: ExternalEnvTypes> revm::InspectEvm for MegaEvm<DB, INSP, ExtEnvs>
@@ -183,6 +191,15 @@ where
         let state = revm::ExecuteEvm::finalize(self);
         Ok(ExecResultAndState::new(output_or_error?, state))
     }
+
+    fn inspect(
+        &mut self,
+        tx: Self::Tx,
+        inspector: Self::Inspector,
+    ) -> Result<ExecResultAndState<Self::ExecutionResult, Self::State>, Self::Error> {
+        self.set_inspector(inspector);
+        self.inspect_tx(tx)
+    }
 }
 
 impl<DB, INSP, ExtEnvs: ExternalEnvTypes> revm::InspectCommitEvm for MegaEvm<DB, INSP, ExtEnvs>
@@ -190,6 +207,22 @@ where
     DB: Database + DatabaseCommit,
     INSP: Inspector<MegaContext<DB, ExtEnvs>>,
 {
+    // As `inspect_tx`, and unlike the default implementations, these clear the journal when the
+    // transaction is rejected.
+    fn inspect_tx_commit(&mut self, tx: Self::Tx) -> Result<Self::ExecutionResult, Self::Error> {
+        let ExecResultAndState { result, state } = self.inspect_tx(tx)?;
+        revm::ExecuteCommitEvm::commit(self, state);
+        Ok(result)
+    }
+
+    fn inspect_commit(
+        &mut self,
+        tx: Self::Tx,
+        inspector: Self::Inspector,
+    ) -> Result<Self::ExecutionResult, Self::Error> {
+        self.set_inspector(inspector);
+        self.inspect_tx_commit(tx)
+    }
 }
 
 impl<DB, INSP, ExtEnvs: ExternalEnvTypes> revm::SystemCallEvm for MegaEvm<DB, INSP, ExtEnvs>
-- 
2.43.0


From 11d4f83f029bad912d98b82941b29c27a4641fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:25 +0000
Subject: [PATCH 21/23] fix: apply the per-transaction limits of the block
 context in BlockExecutorFactory::create_executor

The executor created through alloy's trait kept the runtime limits of the
EVM it was given, so the per-transaction data, KV update, compute gas and
state growth limits of the block context were not enforced, unlike those
of MegaBlockExecutorFactory::create_executor.
---
 crates/mega-evm/src/block/factory.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/mega-evm/src/block/factory.rs b/crates/mega-evm/src/block/factory.rs
index f23f350..2803321 100644
--- a/crates/mega-evm/src/block/factory.rs
+++ b/crates/mega-evm/src/block/factory.rs
@@ -166,6 +166,7 @@ where
         DB: Database + 'a,
         I: Inspector<<Self::EvmFactory as alloy_evm::EvmFactory>::Context<&'a mut State<DB>>> + 'a,
     {
+        let evm = evm.with_tx_runtime_limits(ctx.block_limits.to_evm_tx_runtime_limits());
         MegaBlockExecutor::new(evm, ctx, &self.hardforks, &self.receipt_builder)
     }
 }
-- 
2.43.0


From 5e0675447bfef4e6d46e5139f7214540b44a2b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:12 +0000
Subject: [PATCH 22/23] fix: clear the journal when a system call fails

transact_system_call_with_caller_finalize, in its default implementation, returned early when the call failed (e.g. the database failed), so what the call had loaded and touched stayed in the journal and leaked into the next transaction.
---
 crates/mega-evm/src/evm/interfaces.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/mega-evm/src/evm/interfaces.rs b/crates/mega-evm/src/evm/interfaces.rs
index 7e4a10d..27c8692 100644
--- a/crates/mega-evm/src/evm/interfaces.rs
+++ b/crates/mega-evm/src/evm/interfaces.rs
@@ -241,4 +241,18 @@ where
         let mut h = MegaHandler::<_, _, EthFrame<EthInterpreter>>::new();
         revm::handler::Handler::run_system_call(&mut h, self)
     }
+
+    // Unlike the default implementation, the journal is cleared when the system call fails as well,
+    // as `transact` does. Otherwise, what the failed call loaded or changed would leak into the next
+    // transaction.
+    fn transact_system_call_with_caller_finalize(
+        &mut self,
+        caller: Address,
+        contract: Address,
+        data: Bytes,
+    ) -> Result<ExecResultAndState<Self::ExecutionResult, Self::State>, Self::Error> {
+        let output_or_error = self.transact_system_call_with_caller(caller, contract, data);
+        let state = revm::ExecuteEvm::finalize(self);
+        Ok(ExecResultAndState::new(output_or_error?, state))
+    }
 }
-- 
2.43.0


From 6b558a374d0e781bdc328493d822fd10c71108e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:34 +0000
Subject: [PATCH 23/23] fix: report database failures during keyless deployment
 as errors of the transaction

A failing database made the keyless deployment revert with InternalError, so the outcome of the transaction depended on a transient failure of the node executing it.
---
 crates/mega-evm/src/sandbox/error.rs     |  6 +++++-
 crates/mega-evm/src/sandbox/execution.rs | 25 +++++++++++++++---------
 docs/KEYLESS_DEPLOYMENT.md               |  4 ++--
 3 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/crates/mega-evm/src/sandbox/error.rs b/crates/mega-evm/src/sandbox/error.rs
index 9fddd82..1601421 100644
--- a/crates/mega-evm/src/sandbox/error.rs
+++ b/crates/mega-evm/src/sandbox/error.rs
@@ -71,6 +71,9 @@ pub enum KeylessDeployError {
     },
     /// Internal error during sandbox execution
     InternalError(String),
+    /// The database failed. This says nothing about the deployment, so it is never reported to the
+    /// caller but as an error of the whole transaction.
+    DatabaseError(String),
     /// The keylessDeploy call was not intercepted (only returned by Solidity contract for inner
     /// calls)
     NotIntercepted,
@@ -129,7 +132,8 @@ pub fn encode_error_result(error: KeylessDeployError) -> Bytes {
             .abi_encode()
             .into()
         }
-        KeylessDeployError::InternalError(message) => {
+        KeylessDeployError::InternalError(message) |
+        KeylessDeployError::DatabaseError(message) => {
             IKeylessDeploy::InternalError { message }.abi_encode().into()
         }
         KeylessDeployError::NotIntercepted => IKeylessDeploy::NotIntercepted {}.abi_encode().into(),
diff --git a/crates/mega-evm/src/sandbox/execution.rs b/crates/mega-evm/src/sandbox/execution.rs
index 3b8d6e8..54c7606 100644
--- a/crates/mega-evm/src/sandbox/execution.rs
+++ b/crates/mega-evm/src/sandbox/execution.rs
@@ -29,10 +29,10 @@ use alloy_sol_types::SolCall;
 use mega_system_contracts::keyless_deploy::IKeylessDeploy;
 use revm::{
     context::{
-        result::{ExecutionResult, ResultAndState},
+        result::{EVMError, ExecutionResult, ResultAndState},
         ContextTr, TxEnv,
     },
-    context_interface::Transaction,
+    context_interface::{context::ContextError, Transaction},
     handler::FrameResult,
     interpreter::{CallOutcome, Gas, Host, InstructionResult, InterpreterResult},
     primitives::KECCAK_EMPTY,
@@ -83,12 +83,16 @@ pub fn execute_keyless_deploy_call<DB: alloy_evm::Database, ExtEnvs: ExternalEnv
 
     // Macros to construct frame results, avoiding closure borrow issues
     macro_rules! make_error {
-        ($error:expr) => {
+        ($error:expr) => {{
+            let error = $error;
+            if let KeylessDeployError::DatabaseError(message) = &error {
+                *ctx.error() = Err(ContextError::Custom(message.clone()));
+            }
             FrameResult::Call(CallOutcome::new(
-                InterpreterResult::new(InstructionResult::Revert, encode_error_result($error), gas),
+                InterpreterResult::new(InstructionResult::Revert, encode_error_result(error), gas),
                 return_memory_offset,
             ))
-        };
+        }};
     }
 
     macro_rules! make_halt {
@@ -237,7 +241,7 @@ pub fn execute_keyless_deploy_call<DB: alloy_evm::Database, ExtEnvs: ExternalEnv
             .journal_mut()
             .database
             .basic(deploy_address)
-            .map_err(|e| KeylessDeployError::InternalError(e.to_string()));
+            .map_err(|e| KeylessDeployError::DatabaseError(e.to_string()));
         match deploy_account {
             Ok(Some(info)) if info.code_hash != KECCAK_EMPTY => {
                 return make_error!(KeylessDeployError::ContractAlreadyExists);
@@ -329,7 +333,7 @@ pub fn execute_keyless_deploy_sandbox<DB: alloy_evm::Database, ExtEnvs: External
     // Check signer balance
     let signer_account = sandbox_db
         .basic(deploy_signer)
-        .map_err(|e| KeylessDeployError::InternalError(e.to_string()))?
+        .map_err(|e| KeylessDeployError::DatabaseError(e.to_string()))?
         .unwrap_or_default();
 
     // Ensure signer has enough balance to cover gas cost and value
@@ -389,7 +393,10 @@ pub fn execute_keyless_deploy_sandbox<DB: alloy_evm::Database, ExtEnvs: External
                     error: KeylessDeployError::ExecutionHalted { gas_used, reason },
                 }),
             },
-            Err(e) => Err(KeylessDeployError::InternalError(e.to_string())),
+            Err(e @ EVMError::Transaction(_)) => {
+                Err(KeylessDeployError::InternalError(e.to_string()))
+            }
+            Err(e) => Err(KeylessDeployError::DatabaseError(e.to_string())),
         }
     };
 
@@ -453,7 +460,7 @@ fn get_account_nonce<DB: alloy_evm::Database, ExtEnvs: ExternalEnvTypes>(
     Ok(journal
         .database
         .basic(address)
-        .map_err(|e| KeylessDeployError::InternalError(e.to_string()))?
+        .map_err(|e| KeylessDeployError::DatabaseError(e.to_string()))?
         .map(|info| info.nonce)
         .unwrap_or(0))
 }
diff --git a/docs/KEYLESS_DEPLOYMENT.md b/docs/KEYLESS_DEPLOYMENT.md
index 399f322..57ec4e7 100644
--- a/docs/KEYLESS_DEPLOYMENT.md
+++ b/docs/KEYLESS_DEPLOYMENT.md
@@ -133,7 +133,7 @@ This distinction ensures the signer can be charged for gas even when deployment
 | `NotIntercepted()`                             | Called from contract (not top-level)                                   |
 | `NoContractCreated()`                          | Defensive: EVM bug (see [Implementation Notes](#implementation-notes)) |
 | `AddressMismatch()`                            | Defensive: EVM bug (see [Implementation Notes](#implementation-notes)) |
-| `InternalError(message)`                       | Defensive: database/storage failure                                    |
+| `InternalError(message)`                       | The transaction cannot be executed in the current block                |
 
 **Execution errors (returned in `errorData`):**
 
@@ -661,7 +661,7 @@ The implementation includes defensive checks that should never trigger under nor
 | --------------------- | --------------------------------------------------- | --------------------------------------------------------- |
 | `NoContractCreated()` | CREATE returns an address on success                | EVM returned success without an address—indicates EVM bug |
 | `AddressMismatch()`   | CREATE address = `keccak256(rlp([signer, 0]))[12:]` | EVM computed wrong address—indicates EVM bug              |
-| `InternalError(msg)`  | Database operations succeed                         | Storage/database failure during execution                 |
+| `InternalError(msg)`  | Sandbox accepts the transaction                     | Invalid in the current block                              |
 
 **If you encounter any of these errors, please report to the MegaETH team**—they indicate a bug in the EVM implementation, not a problem with your transaction.
 
-- 
2.43.0

