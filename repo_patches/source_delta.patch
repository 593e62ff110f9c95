From 990abd19064ae1827a53c3e45ef9a176f7cf080d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:25 +0000
Subject: [PATCH] verify hooks: field addresses and internal types under
 cfg(blake2_verify)

---
 blake2b/src/blake2bp.rs | 31 +++++++++++++++++++++++++
 blake2b/src/lib.rs      | 50 +++++++++++++++++++++++++++++++++++++++++
 blake2b/src/many.rs     | 21 +++++++++++++++++
 blake2s/src/blake2sp.rs | 31 +++++++++++++++++++++++++
 blake2s/src/lib.rs      | 50 +++++++++++++++++++++++++++++++++++++++++
 blake2s/src/many.rs     | 21 +++++++++++++++++
 6 files changed, 204 insertions(+)

diff --git a/blake2b/src/blake2bp.rs b/blake2b/src/blake2bp.rs
index 3f5808a..d85fef6 100644
--- a/blake2b/src/blake2bp.rs
+++ b/blake2b/src/blake2bp.rs
@@ -479,6 +479,37 @@ pub(crate) fn force_portable(params: &mut Params) {
     params.implementation = Implementation::portable();
 }
 
+// Field addresses of the private types, for the contracts that are checked against this crate. Only
+// compiled with RUSTFLAGS="--cfg blake2_verify".
+#[cfg(blake2_verify)]
+#[doc(hidden)]
+pub mod verify {
+    use super::*;
+    use core::ptr::addr_of;
+
+    pub unsafe fn state_fields(x: *const State) -> [*const u8; 8] {
+        [
+            addr_of!((*x).leaf_words) as *const u8,
+            addr_of!((*x).root_words) as *const u8,
+            addr_of!((*x).buf) as *const u8,
+            addr_of!((*x).buf_len) as *const u8,
+            addr_of!((*x).count) as *const u8,
+            addr_of!((*x).hash_length) as *const u8,
+            addr_of!((*x).implementation) as *const u8,
+            addr_of!((*x).is_keyed) as *const u8,
+        ]
+    }
+
+    pub unsafe fn params_fields(x: *const Params) -> [*const u8; 4] {
+        [
+            addr_of!((*x).hash_length) as *const u8,
+            addr_of!((*x).key_length) as *const u8,
+            addr_of!((*x).key) as *const u8,
+            addr_of!((*x).implementation) as *const u8,
+        ]
+    }
+}
+
 #[cfg(test)]
 pub(crate) mod test {
     use super::*;
diff --git a/blake2b/src/lib.rs b/blake2b/src/lib.rs
index 6c4f92f..c5e412c 100644
--- a/blake2b/src/lib.rs
+++ b/blake2b/src/lib.rs
@@ -42,6 +42,7 @@
 //! ```
 
 #![cfg_attr(not(feature = "std"), no_std)]
+#![allow(unexpected_cfgs)] // blake2_verify
 
 use arrayref::{array_refs, mut_array_refs};
 use core::cmp;
@@ -58,6 +59,55 @@ pub mod blake2bp;
 mod guts;
 pub mod many;
 
+// Internal types and field addresses of the private types, for the contracts that are checked against
+// this crate. Only compiled with RUSTFLAGS="--cfg blake2_verify".
+#[cfg(blake2_verify)]
+#[doc(hidden)]
+pub mod verify {
+    use super::*;
+    use core::ptr::addr_of;
+
+    pub use crate::guts::{Finalize, Implementation, Job, LastNode, Stride};
+
+    pub unsafe fn state_fields(x: *const State) -> [*const u8; 8] {
+        [
+            addr_of!((*x).words) as *const u8,
+            addr_of!((*x).count) as *const u8,
+            addr_of!((*x).buf) as *const u8,
+            addr_of!((*x).buflen) as *const u8,
+            addr_of!((*x).last_node) as *const u8,
+            addr_of!((*x).hash_length) as *const u8,
+            addr_of!((*x).implementation) as *const u8,
+            addr_of!((*x).is_keyed) as *const u8,
+        ]
+    }
+
+    pub unsafe fn params_fields(x: *const Params) -> [*const u8; 13] {
+        [
+            addr_of!((*x).hash_length) as *const u8,
+            addr_of!((*x).key_length) as *const u8,
+            addr_of!((*x).key_block) as *const u8,
+            addr_of!((*x).salt) as *const u8,
+            addr_of!((*x).personal) as *const u8,
+            addr_of!((*x).fanout) as *const u8,
+            addr_of!((*x).max_depth) as *const u8,
+            addr_of!((*x).max_leaf_length) as *const u8,
+            addr_of!((*x).node_offset) as *const u8,
+            addr_of!((*x).node_depth) as *const u8,
+            addr_of!((*x).inner_hash_length) as *const u8,
+            addr_of!((*x).last_node) as *const u8,
+            addr_of!((*x).implementation) as *const u8,
+        ]
+    }
+
+    pub unsafe fn hash_fields(x: *const Hash) -> [*const u8; 2] {
+        [
+            addr_of!((*x).bytes) as *const u8,
+            addr_of!((*x).len) as *const u8,
+        ]
+    }
+}
+
 #[cfg(test)]
 mod test;
 
diff --git a/blake2b/src/many.rs b/blake2b/src/many.rs
index f880c01..cde7d66 100644
--- a/blake2b/src/many.rs
+++ b/blake2b/src/many.rs
@@ -418,6 +418,27 @@ where
     compress_many(jobs, implementation, Finalize::Yes, Stride::Serial);
 }
 
+// Field addresses of the private types, for the contracts that are checked against this crate. Only
+// compiled with RUSTFLAGS="--cfg blake2_verify".
+#[cfg(blake2_verify)]
+#[doc(hidden)]
+pub mod verify {
+    use super::*;
+    use core::ptr::addr_of;
+
+    pub unsafe fn job_fields<'a>(x: *const HashManyJob<'a>) -> [*const u8; 7] {
+        [
+            addr_of!((*x).words) as *const u8,
+            addr_of!((*x).count) as *const u8,
+            addr_of!((*x).last_node) as *const u8,
+            addr_of!((*x).hash_length) as *const u8,
+            addr_of!((*x).input) as *const u8,
+            addr_of!((*x).finished) as *const u8,
+            addr_of!((*x).implementation) as *const u8,
+        ]
+    }
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
diff --git a/blake2s/src/blake2sp.rs b/blake2s/src/blake2sp.rs
index 3a68285..06a7fae 100644
--- a/blake2s/src/blake2sp.rs
+++ b/blake2s/src/blake2sp.rs
@@ -486,6 +486,37 @@ pub(crate) fn force_portable(params: &mut Params) {
     params.implementation = Implementation::portable();
 }
 
+// Field addresses of the private types, for the contracts that are checked against this crate. Only
+// compiled with RUSTFLAGS="--cfg blake2_verify".
+#[cfg(blake2_verify)]
+#[doc(hidden)]
+pub mod verify {
+    use super::*;
+    use core::ptr::addr_of;
+
+    pub unsafe fn state_fields(x: *const State) -> [*const u8; 8] {
+        [
+            addr_of!((*x).leaf_words) as *const u8,
+            addr_of!((*x).root_words) as *const u8,
+            addr_of!((*x).buf) as *const u8,
+            addr_of!((*x).buf_len) as *const u8,
+            addr_of!((*x).count) as *const u8,
+            addr_of!((*x).hash_length) as *const u8,
+            addr_of!((*x).implementation) as *const u8,
+            addr_of!((*x).is_keyed) as *const u8,
+        ]
+    }
+
+    pub unsafe fn params_fields(x: *const Params) -> [*const u8; 4] {
+        [
+            addr_of!((*x).hash_length) as *const u8,
+            addr_of!((*x).key_length) as *const u8,
+            addr_of!((*x).key) as *const u8,
+            addr_of!((*x).implementation) as *const u8,
+        ]
+    }
+}
+
 #[cfg(test)]
 pub(crate) mod test {
     use super::*;
diff --git a/blake2s/src/lib.rs b/blake2s/src/lib.rs
index f845e96..ad73ed4 100644
--- a/blake2s/src/lib.rs
+++ b/blake2s/src/lib.rs
@@ -41,6 +41,7 @@
 //! ```
 
 #![cfg_attr(not(feature = "std"), no_std)]
+#![allow(unexpected_cfgs)] // blake2_verify
 
 use arrayref::{array_refs, mut_array_refs};
 use core::cmp;
@@ -57,6 +58,55 @@ pub mod blake2sp;
 mod guts;
 pub mod many;
 
+// Internal types and field addresses of the private types, for the contracts that are checked against
+// this crate. Only compiled with RUSTFLAGS="--cfg blake2_verify".
+#[cfg(blake2_verify)]
+#[doc(hidden)]
+pub mod verify {
+    use super::*;
+    use core::ptr::addr_of;
+
+    pub use crate::guts::{Finalize, Implementation, Job, LastNode, Stride};
+
+    pub unsafe fn state_fields(x: *const State) -> [*const u8; 8] {
+        [
+            addr_of!((*x).words) as *const u8,
+            addr_of!((*x).count) as *const u8,
+            addr_of!((*x).buf) as *const u8,
+            addr_of!((*x).buflen) as *const u8,
+            addr_of!((*x).last_node) as *const u8,
+            addr_of!((*x).hash_length) as *const u8,
+            addr_of!((*x).implementation) as *const u8,
+            addr_of!((*x).is_keyed) as *const u8,
+        ]
+    }
+
+    pub unsafe fn params_fields(x: *const Params) -> [*const u8; 13] {
+        [
+            addr_of!((*x).hash_length) as *const u8,
+            addr_of!((*x).key_length) as *const u8,
+            addr_of!((*x).key_block) as *const u8,
+            addr_of!((*x).salt) as *const u8,
+            addr_of!((*x).personal) as *const u8,
+            addr_of!((*x).fanout) as *const u8,
+            addr_of!((*x).max_depth) as *const u8,
+            addr_of!((*x).max_leaf_length) as *const u8,
+            addr_of!((*x).node_offset) as *const u8,
+            addr_of!((*x).node_depth) as *const u8,
+            addr_of!((*x).inner_hash_length) as *const u8,
+            addr_of!((*x).last_node) as *const u8,
+            addr_of!((*x).implementation) as *const u8,
+        ]
+    }
+
+    pub unsafe fn hash_fields(x: *const Hash) -> [*const u8; 2] {
+        [
+            addr_of!((*x).bytes) as *const u8,
+            addr_of!((*x).len) as *const u8,
+        ]
+    }
+}
+
 #[cfg(test)]
 mod test;
 
diff --git a/blake2s/src/many.rs b/blake2s/src/many.rs
index e8be09b..588e45f 100644
--- a/blake2s/src/many.rs
+++ b/blake2s/src/many.rs
@@ -418,6 +418,27 @@ where
     compress_many(jobs, implementation, Finalize::Yes, Stride::Serial);
 }
 
+// Field addresses of the private types, for the contracts that are checked against this crate. Only
+// compiled with RUSTFLAGS="--cfg blake2_verify".
+#[cfg(blake2_verify)]
+#[doc(hidden)]
+pub mod verify {
+    use super::*;
+    use core::ptr::addr_of;
+
+    pub unsafe fn job_fields<'a>(x: *const HashManyJob<'a>) -> [*const u8; 7] {
+        [
+            addr_of!((*x).words) as *const u8,
+            addr_of!((*x).count) as *const u8,
+            addr_of!((*x).last_node) as *const u8,
+            addr_of!((*x).hash_length) as *const u8,
+            addr_of!((*x).input) as *const u8,
+            addr_of!((*x).finished) as *const u8,
+            addr_of!((*x).implementation) as *const u8,
+        ]
+    }
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
-- 
2.43.0

