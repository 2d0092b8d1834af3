From 085d6fb5d0022c0f63c9d6c9db1bf1b3051494d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:18 +0000
Subject: [PATCH 1/2] fix: byte-swap shuffles need SSSE3, not SSE4.1

The u16x8/u32x4/u64x2 byte swaps are a single pshufb (SSSE3), and
unicode-simd dispatches its endianness swaps to "ssse3". On a CPU with
SSSE3 but without SSE4.1 the ISA test failed and every swap of 8/4 or
more elements hit unreachable!().
---
 crates/vsimd/src/simd128.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/crates/vsimd/src/simd128.rs b/crates/vsimd/src/simd128.rs
index 867eca3..4fb20b9 100644
--- a/crates/vsimd/src/simd128.rs
+++ b/crates/vsimd/src/simd128.rs
@@ -1,13 +1,10 @@
 #![allow(clippy::missing_transmute_annotations)]
 
-use crate::isa::{NEON, SSE2, SSE41, WASM128};
+use crate::isa::{NEON, SSE2, SSE41, SSSE3, WASM128};
 use crate::unified;
 use crate::vector::V128;
 use crate::SIMD64;
 
-#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
-use crate::isa::SSSE3;
-
 #[cfg(any(
     any(target_arch = "x86", target_arch = "x86_64"),
     any(all(feature = "unstable", target_arch = "arm"), target_arch = "aarch64"),
@@ -643,10 +640,10 @@ pub unsafe trait SIMD128: SIMD64 {
         }
     }
 
-    /// T1: SSE41, NEON, WASM128
+    /// T1: SSSE3, NEON, WASM128
     #[inline(always)]
     fn u16x8_bswap(self, a: V128) -> V128 {
-        if matches_isa!(Self, SSE41 | WASM128) {
+        if matches_isa!(Self, SSSE3 | WASM128) {
             return self.u8x16_swizzle(a, crate::bswap::SHUFFLE_U16X8);
         }
 
@@ -661,10 +658,10 @@ pub unsafe trait SIMD128: SIMD64 {
         }
     }
 
-    /// T1: SSE41, NEON, WASM128
+    /// T1: SSSE3, NEON, WASM128
     #[inline(always)]
     fn u32x4_bswap(self, a: V128) -> V128 {
-        if matches_isa!(Self, SSE41 | WASM128) {
+        if matches_isa!(Self, SSSE3 | WASM128) {
             return self.u8x16_swizzle(a, crate::bswap::SHUFFLE_U32X4);
         }
 
@@ -679,10 +676,10 @@ pub unsafe trait SIMD128: SIMD64 {
         }
     }
 
-    /// T1: SSE41, NEON, WASM128
+    /// T1: SSSE3, NEON, WASM128
     #[inline(always)]
     fn u64x2_bswap(self, a: V128) -> V128 {
-        if matches_isa!(Self, SSE41 | WASM128) {
+        if matches_isa!(Self, SSSE3 | WASM128) {
             return self.u8x16_swizzle(a, crate::bswap::SHUFFLE_U64X2);
         }
 
-- 
2.43.0


From d9fc5135d515abdb190d02109621733867490004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:18 +0000
Subject: [PATCH 2/2] fix: par_encode reports a short destination as an error

The sequential encoder returns Err when dst is too short; the parallel
path panicked on slicing instead.
---
 crates/base64-simd/src/parallel.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/base64-simd/src/parallel.rs b/crates/base64-simd/src/parallel.rs
index 285860e..08c6c9a 100644
--- a/crates/base64-simd/src/parallel.rs
+++ b/crates/base64-simd/src/parallel.rs
@@ -21,8 +21,10 @@ impl Base64 {
         }
 
         let encoded_len = encoded_length_unchecked(src.len(), self.config);
+        ensure!(dst.len() >= encoded_len);
+
         let dst = unsafe { dst.into_uninit_slice() };
-        let dst = &mut dst[..encoded_len]; // panic?
+        let dst = &mut dst[..encoded_len];
 
         let chunks = (b + p) / p;
 
-- 
2.43.0

