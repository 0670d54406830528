From 81769a77afd852fec80d39c78f7d4842c4c299b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:43 +0000
Subject: [PATCH 1/2] fix: vsimd: byte swap on SSSE3 instead of panicking

The endianness swaps of unicode-simd dispatch to SSSE3, but u16x8_bswap,
u32x4_bswap and u64x2_bswap only handled SSE4.1, so that a CPU with SSSE3
and without SSE4.1 hit unreachable!() on 16 or more units.
---
 crates/vsimd/src/simd128.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/crates/vsimd/src/simd128.rs b/crates/vsimd/src/simd128.rs
index 867eca3..4fb20b9 100644
--- a/crates/vsimd/src/simd128.rs
+++ b/crates/vsimd/src/simd128.rs
@@ -1,13 +1,10 @@
 #![allow(clippy::missing_transmute_annotations)]
 
-use crate::isa::{NEON, SSE2, SSE41, WASM128};
+use crate::isa::{NEON, SSE2, SSE41, SSSE3, WASM128};
 use crate::unified;
 use crate::vector::V128;
 use crate::SIMD64;
 
-#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
-use crate::isa::SSSE3;
-
 #[cfg(any(
     any(target_arch = "x86", target_arch = "x86_64"),
     any(all(feature = "unstable", target_arch = "arm"), target_arch = "aarch64"),
@@ -643,10 +640,10 @@ pub unsafe trait SIMD128: SIMD64 {
         }
     }
 
-    /// T1: SSE41, NEON, WASM128
+    /// T1: SSSE3, NEON, WASM128
     #[inline(always)]
     fn u16x8_bswap(self, a: V128) -> V128 {
-        if matches_isa!(Self, SSE41 | WASM128) {
+        if matches_isa!(Self, SSSE3 | WASM128) {
             return self.u8x16_swizzle(a, crate::bswap::SHUFFLE_U16X8);
         }
 
@@ -661,10 +658,10 @@ pub unsafe trait SIMD128: SIMD64 {
         }
     }
 
-    /// T1: SSE41, NEON, WASM128
+    /// T1: SSSE3, NEON, WASM128
     #[inline(always)]
     fn u32x4_bswap(self, a: V128) -> V128 {
-        if matches_isa!(Self, SSE41 | WASM128) {
+        if matches_isa!(Self, SSSE3 | WASM128) {
             return self.u8x16_swizzle(a, crate::bswap::SHUFFLE_U32X4);
         }
 
@@ -679,10 +676,10 @@ pub unsafe trait SIMD128: SIMD64 {
         }
     }
 
-    /// T1: SSE41, NEON, WASM128
+    /// T1: SSSE3, NEON, WASM128
     #[inline(always)]
     fn u64x2_bswap(self, a: V128) -> V128 {
-        if matches_isa!(Self, SSE41 | WASM128) {
+        if matches_isa!(Self, SSSE3 | WASM128) {
             return self.u8x16_swizzle(a, crate::bswap::SHUFFLE_U64X2);
         }
 
-- 
2.43.0


From 20ac9c776e062a1e4843c21ff2b0993173530845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:02 +0000
Subject: [PATCH 2/2] fix: base64: par_encode returns Err when dst is too short

The documentation promises an error, but the destination was sliced
unchecked and the call panicked.
---
 crates/base64-simd/src/parallel.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/base64-simd/src/parallel.rs b/crates/base64-simd/src/parallel.rs
index 285860e..23b46ad 100644
--- a/crates/base64-simd/src/parallel.rs
+++ b/crates/base64-simd/src/parallel.rs
@@ -22,7 +22,8 @@ impl Base64 {
 
         let encoded_len = encoded_length_unchecked(src.len(), self.config);
         let dst = unsafe { dst.into_uninit_slice() };
-        let dst = &mut dst[..encoded_len]; // panic?
+        ensure!(dst.len() >= encoded_len);
+        let dst = &mut dst[..encoded_len];
 
         let chunks = (b + p) / p;
 
-- 
2.43.0

