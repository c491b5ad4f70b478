From b5a7841ab5666521858407e1a393d7ede8b5e5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:51 +0000
Subject: [PATCH 1/7] fix: reject multiproof nodes whose gindex does not fit in
 a u64

In release builds the doubling wrapped, so a subtree grafted more than 64
levels deep could report its nodes at an unrelated small gindex.
---
 ssz-multiproofs/src/multiproof.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ssz-multiproofs/src/multiproof.rs b/ssz-multiproofs/src/multiproof.rs
index c4dbac6..c6dae4e 100644
--- a/ssz-multiproofs/src/multiproof.rs
+++ b/ssz-multiproofs/src/multiproof.rs
@@ -163,7 +163,11 @@ impl Iterator for GIndexIterator<'_> {
             self.descriptor_index += 1;
             if !bit {
                 self.stack.push(self.current_gindex);
-                self.current_gindex *= 2;
+                // nodes deeper than a u64 gindex can represent must never alias another position
+                self.current_gindex = self
+                    .current_gindex
+                    .checked_mul(2)
+                    .expect("gindex overflow");
             } else {
                 let result = self.current_gindex;
                 self.current_gindex = self.stack.pop()? * 2 + 1;
-- 
2.43.0


From 72c72aea1e68c50c2c3694dd722a1b3ba617f251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:39 +0000
Subject: [PATCH 2/7] fix: abi_decode of an inconsistent state returns an error
 instead of panicking

---
 core/src/abi.rs             |  6 ++----
 core/src/consensus_state.rs | 14 ++++++++++++--
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/core/src/abi.rs b/core/src/abi.rs
index 2c86824..4aed8f0 100644
--- a/core/src/abi.rs
+++ b/core/src/abi.rs
@@ -14,7 +14,7 @@
 
 use alloy_sol_types::SolValue;
 
-use crate::{ConsensusError, ConsensusState, ensure};
+use crate::{ConsensusError, ConsensusState};
 
 // Defines the Solidity struct layouts for public types
 alloy_sol_types::sol! {
@@ -68,9 +68,7 @@ impl TryFrom<State> for crate::ConsensusState {
     type Error = ConsensusError;
 
     fn try_from(state: State) -> Result<Self, Self::Error> {
-        let state = ConsensusState::new(state.current_justified.into(), state.finalized.into());
-        ensure!(state.is_valid(), ConsensusError::InvalidState);
-        Ok(state)
+        ConsensusState::try_new(state.current_justified.into(), state.finalized.into())
     }
 }
 
diff --git a/core/src/consensus_state.rs b/core/src/consensus_state.rs
index 057eb41..b05c97d 100644
--- a/core/src/consensus_state.rs
+++ b/core/src/consensus_state.rs
@@ -56,12 +56,22 @@ impl ConsensusState {
     #[inline]
     #[must_use]
     pub fn new(current_justified_checkpoint: Checkpoint, finalized_checkpoint: Checkpoint) -> Self {
+        Self::try_new(current_justified_checkpoint, finalized_checkpoint)
+            .expect("invalid consensus state")
+    }
+
+    /// Constructs a new `ConsensusState`, or fails if the checkpoints form an invalid state.
+    #[inline]
+    pub(crate) fn try_new(
+        current_justified_checkpoint: Checkpoint,
+        finalized_checkpoint: Checkpoint,
+    ) -> Result<Self, ConsensusError> {
         let state = Self {
             current_justified_checkpoint,
             finalized_checkpoint,
         };
-        assert!(state.is_valid());
-        state
+        ensure!(state.is_valid(), ConsensusError::InvalidState);
+        Ok(state)
     }
 
     /// Returns the finalized checkpoint of the consensus state.
-- 
2.43.0


From 799fee2833d89e16b9459094db06ce338a49a5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:18 +0000
Subject: [PATCH 3/7] fix: compare a state patch of epoch 0 with the proven
 registry

Epoch subtraction saturates, so the patch of epoch 0 was its own predecessor:
every exit in it counted as unchanged and escaped the churn checks.
---
 core/src/input_reader/guest_input_reader.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/src/input_reader/guest_input_reader.rs b/core/src/input_reader/guest_input_reader.rs
index c018b3b..db04e78 100644
--- a/core/src/input_reader/guest_input_reader.rs
+++ b/core/src/input_reader/guest_input_reader.rs
@@ -285,9 +285,12 @@ impl<E: EthSpec> GuestInput<'_, E> {
                 let validator = validators
                     .get(idx)
                     .expect("patched exit_epoch for missing validator");
-                let &prev_exit_epoch = self
-                    .patches
-                    .get(&(patch_epoch - 1))
+                // epoch 0 has no previous epoch: subtraction on epochs saturates, which would
+                // compare the patch with itself
+                let &prev_exit_epoch = patch_epoch
+                    .as_u64()
+                    .checked_sub(1)
+                    .and_then(|prev_epoch| self.patches.get(&Epoch::new(prev_epoch)))
                     .and_then(|p| p.validator_exits.get(idx))
                     .unwrap_or(&validator.exit_epoch);
 
-- 
2.43.0


From e942945f0052ce36bafe1badad38300f3eeec15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:26 +0000
Subject: [PATCH 4/7] fix: save cached beacon states atomically

---
 host/src/state_provider/file_provider.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/host/src/state_provider/file_provider.rs b/host/src/state_provider/file_provider.rs
index aa96b27..800d3b3 100644
--- a/host/src/state_provider/file_provider.rs
+++ b/host/src/state_provider/file_provider.rs
@@ -48,7 +48,10 @@ impl<E: EthSpec> FileProvider<E> {
             file.display()
         );
         debug!("Saving beacon state at slot {slot} in epoch: {epoch}");
-        fs::write(&file, ssz_rs::serialize(state)?)?;
+        // never expose a partially written file under the final name
+        let tmp = file.with_extension("ssz.tmp");
+        fs::write(&tmp, ssz_rs::serialize(state)?)?;
+        fs::rename(&tmp, &file)?;
         Ok(())
     }
 
-- 
2.43.0


From 12d78c27a4e609777610c1ff3b307b5cb333288b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:26 +0000
Subject: [PATCH 5/7] fix: clear only cached state files, not every file with a
 numeric prefix

---
 host/src/state_provider/file_provider.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/host/src/state_provider/file_provider.rs b/host/src/state_provider/file_provider.rs
index 800d3b3..fc114ec 100644
--- a/host/src/state_provider/file_provider.rs
+++ b/host/src/state_provider/file_provider.rs
@@ -66,8 +66,7 @@ impl<E: EthSpec> FileProvider<E> {
             let entry = entry?;
             if let Some(file_slot) = entry.file_name().to_str() {
                 if let Some(file_slot) = file_slot
-                    .split('_')
-                    .next()
+                    .strip_suffix("_beacon_state.ssz")
                     .and_then(|s| s.parse::<Slot>().ok())
                 {
                     if file_slot < slot {
-- 
2.43.0


From ca5148e7540fba6832fea286ff98fd97342fb4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:26 +0000
Subject: [PATCH 6/7] fix: refuse an API state that is not of the requested
 slot

---
 host/src/state_provider/persistant_api_provider.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/host/src/state_provider/persistant_api_provider.rs b/host/src/state_provider/persistant_api_provider.rs
index 1dfcaae..85df1c4 100644
--- a/host/src/state_provider/persistant_api_provider.rs
+++ b/host/src/state_provider/persistant_api_provider.rs
@@ -13,7 +13,7 @@
 // limitations under the License.
 
 use crate::state_provider::{StateProvider, StateProviderError, StateRef};
-use anyhow::Context;
+use anyhow::{Context, anyhow};
 use beacon_types::EthSpec;
 use std::path::PathBuf;
 use tokio::runtime::Handle;
@@ -58,6 +58,9 @@ impl<E: EthSpec> StateProvider for PersistentApiStateProvider<E> {
             Handle::current().block_on(self.client.get_beacon_state(slot))
         })
         .context("failed to get state from API")?;
+        if Slot::from(state.slot()) != slot {
+            return Err(anyhow!("API returned state of slot {}, not {slot}", state.slot()).into());
+        }
 
         // Save the state to the file provider for future use
         self.file_provider.save_state(&state)?;
-- 
2.43.0


From cf4eb665b291446cf61354425d773c8c7c44d862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:36 +0000
Subject: [PATCH 7/7] fix: refuse inputs whose length does not fit the frame
 header

---
 host/src/bin/zkasper_cli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/host/src/bin/zkasper_cli.rs b/host/src/bin/zkasper_cli.rs
index 7a025c2..efbcf04 100644
--- a/host/src/bin/zkasper_cli.rs
+++ b/host/src/bin/zkasper_cli.rs
@@ -464,7 +464,7 @@ fn encode_input_stdin(input_bytes: impl AsRef<[u8]>) -> anyhow::Result<Vec<u8>>
     fn write_frame(buffer: &mut Vec<u8>, state_bytes: impl AsRef<[u8]>) -> anyhow::Result<()> {
         use std::io::Write;
         let data = state_bytes.as_ref();
-        let len = data.len() as u32;
+        let len = u32::try_from(data.len()).context("input too large for a frame")?;
         buffer.write_all(&len.to_le_bytes())?;
         buffer.write_all(data.as_ref())?;
         Ok(())
-- 
2.43.0

