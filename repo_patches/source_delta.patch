From 3861dec9698e62aa7e1f41c8654dbe3628ae042e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:15 +0000
Subject: [PATCH 1/5] fix: refuse to delegate an account without lamports

An account with zero lamports is purged when the transaction ends, so delegating it
left a delegation record and metadata behind for an account that the delegation
program does not hold: it can neither be delegated again nor undelegated.
---
 src/processor/delegate.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/processor/delegate.rs b/src/processor/delegate.rs
index 444f632..0c10037 100644
--- a/src/processor/delegate.rs
+++ b/src/processor/delegate.rs
@@ -63,6 +63,12 @@ pub fn process_delegate(
     load_owned_pda(delegated_account, &crate::id(), "delegated account")?;
     load_program(system_program, system_program::id(), "system program")?;
 
+    // An account without lamports is purged at the end of the transaction, which would leave the
+    // delegation record behind for an account no longer held by the delegation program
+    if delegated_account.lamports() == 0 {
+        return Err(ProgramError::InsufficientFunds);
+    }
+
     msg!("Delegating: {}", delegated_account.key);
 
     // Validate seeds if the delegate account is not on curve, i.e. is a PDA
-- 
2.43.0


From afb8604d6f1f866cc85d00479f0135db0e110df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:35 +0000
Subject: [PATCH 2/5] fix: accept a writable account where read-only suffices

load_pda demanded that an account be passed read-only when writability is not needed.
Writability is merged over all the instructions of a transaction, so bundling a commit
with a whitelist update of the same program always failed.
---
 src/processor/utils/loaders.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/processor/utils/loaders.rs b/src/processor/utils/loaders.rs
index 980d393..0644e85 100644
--- a/src/processor/utils/loaders.rs
+++ b/src/processor/utils/loaders.rs
@@ -50,7 +50,7 @@ pub fn load_pda(
         return Err(ProgramError::InvalidSeeds);
     }
 
-    if !info.is_writable.eq(&is_writable) {
+    if is_writable && !info.is_writable {
         msg!("Account {} ({}) needs to be writable", label, info.key);
         return Err(ProgramError::InvalidAccountData);
     }
-- 
2.43.0


From d85ea9dc82885ec950f671fe6c79233ba52ee712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:40 +0000
Subject: [PATCH 3/5] fix: reject an owner change of the validator account
 during the undelegation CPI

---
 src/processor/undelegate.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/processor/undelegate.rs b/src/processor/undelegate.rs
index e4072c7..660f938 100644
--- a/src/processor/undelegate.rs
+++ b/src/processor/undelegate.rs
@@ -230,6 +230,7 @@ fn process_undelegation_with_cpi<'a, 'info>(
 
     // Invoke the owner program's post-undelegation IX, to give the state back to the original program
     let validator_lamports_before_cpi = validator.lamports();
+    let validator_owner_before_cpi = *validator.owner;
     cpi_external_undelegate(
         validator,
         delegated_account,
@@ -241,6 +242,12 @@ fn process_undelegation_with_cpi<'a, 'info>(
     )?;
     let validator_lamports_after_cpi = validator.lamports();
 
+    // Check that the owner program didn't use the validator's signature to take over its account
+    if validator_owner_before_cpi.ne(validator.owner) {
+        msg!("Validator {} changed owner during the CPI", validator.key);
+        return Err(ProgramError::InvalidAccountOwner);
+    }
+
     // Check that the validator lamports are exactly as expected
     let delegated_account_min_rent = Rent::default().minimum_balance(delegated_account.data_len());
     if validator_lamports_before_cpi
-- 
2.43.0


From 0012e7b3b5af2e23726c394754303167d2d23b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:40 +0000
Subject: [PATCH 4/5] fix: mark the validator writable in the commit and
 finalize instruction builders The program takes the commit rent and deposit
 from the validator and returns them to it on finalize, so these instructions
 failed for any fee payer other than the validator itself.

---
 src/instruction_builder/commit_state.rs             | 2 +-
 src/instruction_builder/commit_state_from_buffer.rs | 2 +-
 src/instruction_builder/finalize.rs                 | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/instruction_builder/commit_state.rs b/src/instruction_builder/commit_state.rs
index b6f5ce0..8e044ea 100644
--- a/src/instruction_builder/commit_state.rs
+++ b/src/instruction_builder/commit_state.rs
@@ -30,7 +30,7 @@ pub fn commit_state(
     Instruction {
         program_id: crate::id(),
         accounts: vec![
-            AccountMeta::new_readonly(validator, true),
+            AccountMeta::new(validator, true),
             AccountMeta::new_readonly(delegated_account, false),
             AccountMeta::new(commit_state_pda, false),
             AccountMeta::new(commit_record_pda, false),
diff --git a/src/instruction_builder/commit_state_from_buffer.rs b/src/instruction_builder/commit_state_from_buffer.rs
index dc93230..56c913f 100644
--- a/src/instruction_builder/commit_state_from_buffer.rs
+++ b/src/instruction_builder/commit_state_from_buffer.rs
@@ -31,7 +31,7 @@ pub fn commit_state_from_buffer(
     Instruction {
         program_id: crate::id(),
         accounts: vec![
-            AccountMeta::new_readonly(validator, true),
+            AccountMeta::new(validator, true),
             AccountMeta::new_readonly(delegated_account, false),
             AccountMeta::new(commit_state_pda, false),
             AccountMeta::new(commit_record_pda, false),
diff --git a/src/instruction_builder/finalize.rs b/src/instruction_builder/finalize.rs
index 38226dd..23cbe2a 100644
--- a/src/instruction_builder/finalize.rs
+++ b/src/instruction_builder/finalize.rs
@@ -21,7 +21,7 @@ pub fn finalize(validator: Pubkey, delegated_account: Pubkey) -> Instruction {
     Instruction {
         program_id: crate::id(),
         accounts: vec![
-            AccountMeta::new_readonly(validator, true),
+            AccountMeta::new(validator, true),
             AccountMeta::new(delegated_account, false),
             AccountMeta::new(commit_state_pda, false),
             AccountMeta::new(commit_record_pda, false),
-- 
2.43.0


From 6226a4dcb8ac5602e8eb3a0747ecaec300940f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:25 +0000
Subject: [PATCH 5/5] fix: require the reclaimed rent to be in the re-opened
 account after undelegation An owner program could move the re-opening rent
 into the undelegation buffer, which pays the validator on close and left an
 account without surplus empty.

---
 src/processor/undelegate.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/processor/undelegate.rs b/src/processor/undelegate.rs
index 660f938..f4994a2 100644
--- a/src/processor/undelegate.rs
+++ b/src/processor/undelegate.rs
@@ -258,6 +258,11 @@ fn process_undelegation_with_cpi<'a, 'info>(
         return Err(DlpError::InvalidValidatorBalanceAfterCPI.into());
     }
 
+    // Check that the rent paid by the validator is in the re-opened account
+    if delegated_account.lamports() != delegated_account_min_rent {
+        return Err(DlpError::InvalidDelegatedState.into());
+    }
+
     // Check that the owner program properly moved the state back into the original account during CPI
     if delegated_account.try_borrow_data()?.as_ref()
         != undelegate_buffer_account.try_borrow_data()?.as_ref()
-- 
2.43.0

