From a85756ff73597a0786d5f9c493fc6ec172992138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:13 +0000
Subject: [PATCH 1/5] fix: do not delete existing entries when compacted
 entries are rejected

The tokens of the new entries were deleted from the Entry Table upon failure
of their insertion. As no entry is inserted in this case, the entries deleted
were the ones (e.g. of another index) which caused the rejection.
---
 src/findex_mm/compact.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/findex_mm/compact.rs b/src/findex_mm/compact.rs
index 32d5d42..bb0ee15 100644
--- a/src/findex_mm/compact.rs
+++ b/src/findex_mm/compact.rs
@@ -205,7 +205,6 @@ impl<
             }
         }
         let new_links_tokens = new_links.keys().copied().collect();
-        let new_entry_tokens = new_entries.keys().copied().collect();
 
         debug!(
             "Step 3: tries applying modifications, reverts modifications upon failure or removes \
@@ -231,8 +230,10 @@ impl<
             self.chain_table.delete(old_links).await?;
             self.entry_table.delete(old_entries).await?;
         } else {
+            // No entry was inserted, thus there is none to revert. In particular,
+            // the tokens used may be those of other entries, which caused the
+            // insertion to be rejected: they should not be deleted.
             self.chain_table.delete(new_links_tokens).await?;
-            self.entry_table.delete(new_entry_tokens).await?;
         }
 
         res
-- 
2.43.0


From 5281c4361b5bb9daf398c75241fa5d7d07e68ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:13 +0000
Subject: [PATCH 2/5] fix: read back indexed values which hold an empty byte
 string

An empty data or pointer can be indexed, but the keyword it was indexed under
could neither be searched nor compacted afterwards.
---
 src/findex_graph/structs.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/findex_graph/structs.rs b/src/findex_graph/structs.rs
index 00481d3..1ca3a47 100644
--- a/src/findex_graph/structs.rs
+++ b/src/findex_graph/structs.rs
@@ -64,11 +64,10 @@ impl<Tag: From<Vec<u8>>, Data: From<Vec<u8>>> TryFrom<&[u8]> for IndexedValue<Ta
     type Error = CoreError;
 
     fn try_from(value: &[u8]) -> Result<Self, Self::Error> {
-        if value.len() < 2 {
-            return Err(Self::Error::Conversion(format!(
-                "indexed values should be at least two bytes long, {} given",
-                value.len()
-            )));
+        if value.is_empty() {
+            return Err(Self::Error::Conversion(
+                "indexed values should be at least one byte long".to_string(),
+            ));
         }
         // TODO: change the leading value in v.7
         match value[0] {
-- 
2.43.0


From a3834cff83ffb2ae8b23b3c31467ef6744223033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:33 +0000
Subject: [PATCH 3/5] fix: write the size of the values read back by InMemoryDb

The size of each value was read from the serialized table, but it was not
written: a serialized table could not be read back. The announced length takes
into account the number of lines too.
---
 src/edx/mod.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/edx/mod.rs b/src/edx/mod.rs
index 0f64cae..10bf432 100644
--- a/src/edx/mod.rs
+++ b/src/edx/mod.rs
@@ -166,7 +166,10 @@ pub mod in_memory {
     use async_trait::async_trait;
     use cosmian_crypto_core::CryptoCoreError;
     #[cfg(feature = "in_memory")]
-    use cosmian_crypto_core::{bytes_ser_de::Serializable, Nonce};
+    use cosmian_crypto_core::{
+        bytes_ser_de::{to_leb128_len, Serializable},
+        Nonce,
+    };
 
     use super::{
         DbInterface, Token, TokenToEncryptedValueMap, TokenWithEncryptedValueList, Tokens,
@@ -242,8 +245,9 @@ pub mod in_memory {
         type Error = InMemoryDbError;
 
         fn length(&self) -> usize {
-            (self.lock().expect("could not lock mutex").deref()).len()
-                * (Token::LENGTH + NONCE_LENGTH + MAC_LENGTH + VALUE_LENGTH)
+            let n = self.len();
+            let value_length = EncryptedValue::<VALUE_LENGTH>::LENGTH;
+            to_leb128_len(n) + n * (Token::LENGTH + to_leb128_len(value_length) + value_length)
         }
 
         fn write(
@@ -254,6 +258,7 @@ pub mod in_memory {
             let mut n = ser.write_leb128_u64(table.len() as u64)?;
             for (k, v) in table.iter() {
                 n += ser.write_array(k)?;
+                n += ser.write_leb128_u64(EncryptedValue::<VALUE_LENGTH>::LENGTH as u64)?;
                 n += ser.write_array(&v.nonce.0)?;
                 n += ser.write_array(&v.ciphertext)?;
                 n += ser.write_array(&v.tag)?;
@@ -268,8 +273,8 @@ pub mod in_memory {
             let mut table = HashMap::with_capacity(n);
             for _ in 0..n {
                 let k = de.read_array::<{ Token::LENGTH }>()?;
-                // previous version used to write the size of the value.
-                let _ = de.read_leb128_u64();
+                // The size of the value is a constant.
+                de.read_leb128_u64()?;
                 let nonce = Nonce::from(de.read_array::<NONCE_LENGTH>()?);
                 let ciphertext = de.read_array::<VALUE_LENGTH>()?;
                 let tag = de.read_array::<MAC_LENGTH>()?;
-- 
2.43.0


From 48b0591543ade277cb3e40e2f258d32d9d26b63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:33 +0000
Subject: [PATCH 4/5] fix: do not allocate according to a number of lines which
 is not checked

Reading a few bytes announcing a huge number of lines panicked or aborted.
---
 src/edx/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/edx/mod.rs b/src/edx/mod.rs
index 10bf432..1e4bb52 100644
--- a/src/edx/mod.rs
+++ b/src/edx/mod.rs
@@ -270,7 +270,8 @@ pub mod in_memory {
             de: &mut cosmian_crypto_core::bytes_ser_de::Deserializer,
         ) -> Result<Self, Self::Error> {
             let n = de.read_leb128_u64()? as usize;
-            let mut table = HashMap::with_capacity(n);
+            // Do not allocate according to `n`, since it may not be trusted.
+            let mut table = HashMap::new();
             for _ in 0..n {
                 let k = de.read_array::<{ Token::LENGTH }>()?;
                 // The size of the value is a constant.
-- 
2.43.0


From b45cfa099225ff03dd55a79892c5be0bdb524e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:08 +0000
Subject: [PATCH 5/5] Allow verification builds to compact by small batches

Guarded by the cfg flag findex_verif.
---
 src/index/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/index/mod.rs b/src/index/mod.rs
index 442cc95..8c55f76 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -1,6 +1,9 @@
 //! Easy to use `Index` interface for `Findex` that hides most cryptographic
 //! details.
 
+// `findex_verif` is only set by the verification builds.
+#![allow(unexpected_cfgs)]
+
 use std::{
     collections::{HashMap, HashSet},
     fmt::Debug,
@@ -344,7 +347,10 @@ impl<
     /// the memory used by the compact operation is:
     ///
     /// N * 32 + BS * EB + f * BS * LB
+    #[cfg(not(findex_verif))]
     const COMPACT_BATCH_SIZE: usize = 1_000_000;
+    #[cfg(findex_verif)]
+    const COMPACT_BATCH_SIZE: usize = 2;
 
     /// Draw `n` tokens at random among the given `tokens`. The same token may
     /// be drawn several times, thus the number of tokens returned may be
-- 
2.43.0

