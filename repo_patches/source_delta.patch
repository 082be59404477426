From 969730718fee40e6ff64ef0938488e5e1b941a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:13 +0000
Subject: [PATCH 1/3] fix: default-constructed hashers use the zero key

The derived Default left every lane zero, skipping the key schedule, so
PortableHash, SseHash, AvxHash, NeonHash and WasmHash built with Default
did not compute HighwayHash and disagreed with HighwayHasher::default().
---
 src/aarch64.rs  | 9 ++++++++-
 src/portable.rs | 9 ++++++++-
 src/wasm.rs     | 9 ++++++++-
 src/x86/avx.rs  | 9 ++++++++-
 src/x86/sse.rs  | 9 ++++++++-
 5 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/src/aarch64.rs b/src/aarch64.rs
index 888ceeb..356c67f 100644
--- a/src/aarch64.rs
+++ b/src/aarch64.rs
@@ -7,7 +7,7 @@ use core::ops::{
 };
 
 /// HighwayHash powered by Neon instructions
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 pub struct NeonHash {
     buffer: HashPacket,
     v0L: V2x64U,
@@ -321,6 +321,13 @@ impl NeonHash {
     }
 }
 
+impl Default for NeonHash {
+    #[inline]
+    fn default() -> Self {
+        unsafe { Self::force_new(Key::default()) }
+    }
+}
+
 #[inline]
 fn take<const N: usize>(data: &[u8]) -> [u8; N] {
     debug_assert!(data.len() >= N);
diff --git a/src/portable.rs b/src/portable.rs
index 9043d08..b1e04c8 100644
--- a/src/portable.rs
+++ b/src/portable.rs
@@ -10,7 +10,7 @@ use crate::traits::HighwayHash;
 ///
 /// The main reason for directly using `PortableHash` would be if avoiding
 /// `unsafe` code blocks is a top priority.
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 pub struct PortableHash {
     pub(crate) v0: [u64; 4],
     pub(crate) v1: [u64; 4],
@@ -341,5 +341,12 @@ impl PortableHash {
     }
 }
 
+impl Default for PortableHash {
+    #[inline]
+    fn default() -> Self {
+        PortableHash::new(Key::default())
+    }
+}
+
 impl_write!(PortableHash);
 impl_hasher!(PortableHash);
diff --git a/src/wasm.rs b/src/wasm.rs
index ee9c10f..4260284 100644
--- a/src/wasm.rs
+++ b/src/wasm.rs
@@ -7,7 +7,7 @@ use core::ops::{
 };
 
 /// HighwayHash powered by Wasm SIMD instructions
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 pub struct WasmHash {
     v0L: V2x64U,
     v0H: V2x64U,
@@ -320,6 +320,13 @@ impl WasmHash {
     }
 }
 
+impl Default for WasmHash {
+    #[inline]
+    fn default() -> Self {
+        WasmHash::new(Key::default())
+    }
+}
+
 impl_write!(WasmHash);
 impl_hasher!(WasmHash);
 
diff --git a/src/x86/avx.rs b/src/x86/avx.rs
index 4e2f180..1de7a81 100644
--- a/src/x86/avx.rs
+++ b/src/x86/avx.rs
@@ -9,7 +9,7 @@ use core::arch::x86_64::*;
 
 /// AVX empowered implementation that will only work on `x86_64` with avx2 enabled at the CPU
 /// level.
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 pub struct AvxHash {
     v0: V4x64U,
     v1: V4x64U,
@@ -340,5 +340,12 @@ impl AvxHash {
     }
 }
 
+impl Default for AvxHash {
+    #[inline]
+    fn default() -> Self {
+        unsafe { Self::force_new(Key::default()) }
+    }
+}
+
 impl_write!(AvxHash);
 impl_hasher!(AvxHash);
diff --git a/src/x86/sse.rs b/src/x86/sse.rs
index de1c770..b503d9b 100644
--- a/src/x86/sse.rs
+++ b/src/x86/sse.rs
@@ -9,7 +9,7 @@ use core::arch::x86_64::*;
 
 /// SSE empowered implementation that will only work on `x86_64` with sse 4.1 enabled at the CPU
 /// level.
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 pub struct SseHash {
     v0L: V2x64U,
     v0H: V2x64U,
@@ -366,6 +366,13 @@ impl SseHash {
     }
 }
 
+impl Default for SseHash {
+    #[inline]
+    fn default() -> Self {
+        unsafe { Self::force_new(Key::default()) }
+    }
+}
+
 impl_write!(SseHash);
 impl_hasher!(SseHash);
 
-- 
2.43.0


From ed40f3aa0afc8eda13b01282742982b12bcb97ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 2/3] fix: keep absorbed input out of checkpoints

The whole packet buffer was written, so a checkpoint depended on how the
data had been split and disclosed bytes that were already absorbed.
---
 src/portable.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/portable.rs b/src/portable.rs
index b1e04c8..7d222a3 100644
--- a/src/portable.rs
+++ b/src/portable.rs
@@ -55,7 +55,10 @@ impl HighwayHash for PortableHash {
         }
 
         let (buffered, rest) = cursor.split_at_mut(PACKET_SIZE);
-        buffered.copy_from_slice(&self.buffer.buf);
+        // Only the pending bytes: those behind them were absorbed already
+        for (out, pending) in buffered.iter_mut().zip(self.buffer.as_slice()) {
+            *out = *pending;
+        }
         rest.copy_from_slice(&(self.buffer.len() as u32).to_le_bytes());
         result
     }
-- 
2.43.0


From fbcc518eaa1024193ee65357ff879ea8377cead7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:58 +0000
Subject: [PATCH 3/3] fix: absorb a full packet when restoring

A count of 32 or more left 32 bytes pending, which no hasher otherwise
holds between calls: finalizing overflowed a shift in debug builds, the
backends disagreed and an empty append changed the result.
---
 src/portable.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/portable.rs b/src/portable.rs
index 7d222a3..314f6c1 100644
--- a/src/portable.rs
+++ b/src/portable.rs
@@ -118,19 +118,20 @@ impl PortableHash {
         }
 
         let (buffered, rest) = cursor.split_at(PACKET_SIZE);
-        let mut buffer = HashPacket::default();
-
         let (len, _) = rest.split_at(core::mem::size_of::<u32>());
         let len = u32::from_le_bytes([len[0], len[1], len[2], len[3]]);
-        buffer.fill(&buffered[..(len as usize).min(buffered.len())]);
 
-        PortableHash {
+        let mut hasher = PortableHash {
             v0,
             v1,
             mul0,
             mul1,
-            buffer,
-        }
+            buffer: HashPacket::default(),
+        };
+
+        // Absorbs the packet if a corrupt count claims that all of it is pending
+        hasher.append(&buffered[..(len as usize).min(buffered.len())]);
+        hasher
     }
 
     pub(crate) fn finalize64(&mut self) -> u64 {
-- 
2.43.0

