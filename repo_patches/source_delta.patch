From 27e5380d53bc3fdd7ed3e08244ecdcb2b029c08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:09 +0000
Subject: [PATCH] fix: refuse to delegate an account without lamports

Delegating an account (for instance an unfunded escrow) that has no lamports
creates a delegation record and metadata for an account that ceases to exist
when the transaction ends. Nobody can undelegate it afterwards, and the payer's
rent is lost.
---
 src/processor/delegate.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/processor/delegate.rs b/src/processor/delegate.rs
index 444f632..161f703 100644
--- a/src/processor/delegate.rs
+++ b/src/processor/delegate.rs
@@ -119,6 +119,13 @@ pub fn process_delegate(
     load_signer(payer, "payer")?;
     load_signer(delegated_account, "delegated account")?;
 
+    // An account without lamports ceases to exist at the end of the transaction, which would
+    // leave its delegation record and metadata behind without an account to ever undelegate
+    if delegated_account.lamports() == 0 {
+        msg!("Delegated account {} has no lamports", delegated_account.key);
+        return Err(ProgramError::UninitializedAccount);
+    }
+
     // Initialize the delegation record PDA
     create_pda(
         delegation_record_account,
-- 
2.43.0

