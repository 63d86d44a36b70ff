From 5d32036be14ab7f4984e9351ae215d6f7ef826bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:15 +0000
Subject: [PATCH 01/27] fix: saturate instead of wrapping in fast-mode NV
 decoding on x86

---
 src/avx2/yuv_nv_to_rgba_fast.rs        | 16 ++++++-------
 src/avx2/yuv_nv_to_rgba_fast420.rs     | 32 +++++++++++++-------------
 src/avx512bw/yuv_nv_to_rgba_fast420.rs | 32 +++++++++++++-------------
 src/sse/yuv_nv_to_rgba_fast.rs         | 16 ++++++-------
 src/sse/yuv_nv_to_rgba_fast420.rs      | 32 +++++++++++++-------------
 5 files changed, 64 insertions(+), 64 deletions(-)

diff --git a/src/avx2/yuv_nv_to_rgba_fast.rs b/src/avx2/yuv_nv_to_rgba_fast.rs
index 4ed1e6a..105ecc2 100644
--- a/src/avx2/yuv_nv_to_rgba_fast.rs
+++ b/src/avx2/yuv_nv_to_rgba_fast.rs
@@ -167,12 +167,12 @@ unsafe fn avx_yuv_nv_to_rgba_fast_impl<
         let y_gh = _mm256_maddubs_epi16(y_hi, v_y_c);
         let y_gl = _mm256_maddubs_epi16(y_lo, v_y_c);
 
-        let mut r_high0 = _mm256_add_epi16(y_gh, r_c_hi);
-        let mut b_high0 = _mm256_add_epi16(y_gh, b_c_hi);
+        let mut r_high0 = _mm256_adds_epi16(y_gh, r_c_hi);
+        let mut b_high0 = _mm256_adds_epi16(y_gh, b_c_hi);
         let mut g_high0 = _mm256_sub_epi16(y_gh, g_c_hi);
 
-        let mut r_low0 = _mm256_add_epi16(y_gl, r_c_lo);
-        let mut b_low0 = _mm256_add_epi16(y_gl, b_c_lo);
+        let mut r_low0 = _mm256_adds_epi16(y_gl, r_c_lo);
+        let mut b_low0 = _mm256_adds_epi16(y_gl, b_c_lo);
         let mut g_low0 = _mm256_sub_epi16(y_gl, g_c_lo);
 
         r_low0 = _mm256_srai_epi16::<6>(r_low0);
@@ -302,12 +302,12 @@ unsafe fn avx_yuv_nv_to_rgba_fast_impl<
         let y_gh = _mm256_maddubs_epi16(y_hi, v_y_c);
         let y_gl = _mm256_maddubs_epi16(y_lo, v_y_c);
 
-        let mut r_high0 = _mm256_add_epi16(y_gh, r_c_hi);
-        let mut b_high0 = _mm256_add_epi16(y_gh, b_c_hi);
+        let mut r_high0 = _mm256_adds_epi16(y_gh, r_c_hi);
+        let mut b_high0 = _mm256_adds_epi16(y_gh, b_c_hi);
         let mut g_high0 = _mm256_sub_epi16(y_gh, g_c_hi);
 
-        let mut r_low0 = _mm256_add_epi16(y_gl, r_c_lo);
-        let mut b_low0 = _mm256_add_epi16(y_gl, b_c_lo);
+        let mut r_low0 = _mm256_adds_epi16(y_gl, r_c_lo);
+        let mut b_low0 = _mm256_adds_epi16(y_gl, b_c_lo);
         let mut g_low0 = _mm256_sub_epi16(y_gl, g_c_lo);
 
         r_low0 = _mm256_srai_epi16::<6>(r_low0);
diff --git a/src/avx2/yuv_nv_to_rgba_fast420.rs b/src/avx2/yuv_nv_to_rgba_fast420.rs
index 2793803..0fa03cb 100644
--- a/src/avx2/yuv_nv_to_rgba_fast420.rs
+++ b/src/avx2/yuv_nv_to_rgba_fast420.rs
@@ -125,12 +125,12 @@ unsafe fn avx_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let r_c_hi = _mm256_unpackhi_epi16(r_c_values, r_c_values);
         let r_c_lo = _mm256_unpacklo_epi16(r_c_values, r_c_values);
 
-        let mut r_high0 = _mm256_add_epi16(y_g0, r_c_hi);
-        let mut b_high0 = _mm256_add_epi16(y_g0, b_c_hi);
+        let mut r_high0 = _mm256_adds_epi16(y_g0, r_c_hi);
+        let mut b_high0 = _mm256_adds_epi16(y_g0, b_c_hi);
         let mut g_high0 = _mm256_sub_epi16(y_g0, g_c_hi);
 
-        let mut r_high1 = _mm256_add_epi16(y_g1, r_c_hi);
-        let mut b_high1 = _mm256_add_epi16(y_g1, b_c_hi);
+        let mut r_high1 = _mm256_adds_epi16(y_g1, r_c_hi);
+        let mut b_high1 = _mm256_adds_epi16(y_g1, b_c_hi);
         let mut g_high1 = _mm256_sub_epi16(y_g1, g_c_hi);
 
         let y_lo0 = _mm256_unpacklo_epi8(y_values0, _mm256_setzero_si256());
@@ -139,12 +139,12 @@ unsafe fn avx_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let y_gl0 = _mm256_maddubs_epi16(y_lo0, v_y_c);
         let y_gl1 = _mm256_maddubs_epi16(y_lo1, v_y_c);
 
-        let mut r_low0 = _mm256_add_epi16(y_gl0, r_c_lo);
-        let mut b_low0 = _mm256_add_epi16(y_gl0, b_c_lo);
+        let mut r_low0 = _mm256_adds_epi16(y_gl0, r_c_lo);
+        let mut b_low0 = _mm256_adds_epi16(y_gl0, b_c_lo);
         let mut g_low0 = _mm256_sub_epi16(y_gl0, g_c_lo);
 
-        let mut r_low1 = _mm256_add_epi16(y_gl1, r_c_lo);
-        let mut b_low1 = _mm256_add_epi16(y_gl1, b_c_lo);
+        let mut r_low1 = _mm256_adds_epi16(y_gl1, r_c_lo);
+        let mut b_low1 = _mm256_adds_epi16(y_gl1, b_c_lo);
         let mut g_low1 = _mm256_sub_epi16(y_gl1, g_c_lo);
 
         r_low0 = _mm256_srai_epi16::<6>(r_low0);
@@ -249,12 +249,12 @@ unsafe fn avx_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let r_c_hi = _mm256_unpackhi_epi16(r_c_values, r_c_values);
         let r_c_lo = _mm256_unpacklo_epi16(r_c_values, r_c_values);
 
-        let mut r_high0 = _mm256_add_epi16(y_g0, r_c_hi);
-        let mut b_high0 = _mm256_add_epi16(y_g0, b_c_hi);
+        let mut r_high0 = _mm256_adds_epi16(y_g0, r_c_hi);
+        let mut b_high0 = _mm256_adds_epi16(y_g0, b_c_hi);
         let mut g_high0 = _mm256_sub_epi16(y_g0, g_c_hi);
 
-        let mut r_high1 = _mm256_add_epi16(y_g1, r_c_hi);
-        let mut b_high1 = _mm256_add_epi16(y_g1, b_c_hi);
+        let mut r_high1 = _mm256_adds_epi16(y_g1, r_c_hi);
+        let mut b_high1 = _mm256_adds_epi16(y_g1, b_c_hi);
         let mut g_high1 = _mm256_sub_epi16(y_g1, g_c_hi);
 
         let y_lo0 = _mm256_unpacklo_epi8(y_values0, _mm256_setzero_si256());
@@ -263,12 +263,12 @@ unsafe fn avx_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let y_gl0 = _mm256_maddubs_epi16(y_lo0, v_y_c);
         let y_gl1 = _mm256_maddubs_epi16(y_lo1, v_y_c);
 
-        let mut r_low0 = _mm256_add_epi16(y_gl0, r_c_lo);
-        let mut b_low0 = _mm256_add_epi16(y_gl0, b_c_lo);
+        let mut r_low0 = _mm256_adds_epi16(y_gl0, r_c_lo);
+        let mut b_low0 = _mm256_adds_epi16(y_gl0, b_c_lo);
         let mut g_low0 = _mm256_sub_epi16(y_gl0, g_c_lo);
 
-        let mut r_low1 = _mm256_add_epi16(y_gl1, r_c_lo);
-        let mut b_low1 = _mm256_add_epi16(y_gl1, b_c_lo);
+        let mut r_low1 = _mm256_adds_epi16(y_gl1, r_c_lo);
+        let mut b_low1 = _mm256_adds_epi16(y_gl1, b_c_lo);
         let mut g_low1 = _mm256_sub_epi16(y_gl1, g_c_lo);
 
         r_low0 = _mm256_srai_epi16::<6>(r_low0);
diff --git a/src/avx512bw/yuv_nv_to_rgba_fast420.rs b/src/avx512bw/yuv_nv_to_rgba_fast420.rs
index 2270f4b..0f2ed1d 100644
--- a/src/avx512bw/yuv_nv_to_rgba_fast420.rs
+++ b/src/avx512bw/yuv_nv_to_rgba_fast420.rs
@@ -177,12 +177,12 @@ unsafe fn avx512_yuv_nv_to_rgba_impl_fast420<
         let r_c_hi = _mm512_unpackhi_epi16(r_c_values, r_c_values);
         let r_c_lo = _mm512_unpacklo_epi16(r_c_values, r_c_values);
 
-        let mut r_high0 = _mm512_add_epi16(y_g0, r_c_hi);
-        let mut b_high0 = _mm512_add_epi16(y_g0, b_c_hi);
+        let mut r_high0 = _mm512_adds_epi16(y_g0, r_c_hi);
+        let mut b_high0 = _mm512_adds_epi16(y_g0, b_c_hi);
         let mut g_high0 = _mm512_sub_epi16(y_g0, g_c_hi);
 
-        let mut r_high1 = _mm512_add_epi16(y_g1, r_c_hi);
-        let mut b_high1 = _mm512_add_epi16(y_g1, b_c_hi);
+        let mut r_high1 = _mm512_adds_epi16(y_g1, r_c_hi);
+        let mut b_high1 = _mm512_adds_epi16(y_g1, b_c_hi);
         let mut g_high1 = _mm512_sub_epi16(y_g1, g_c_hi);
 
         let y_lo0 = _mm512_unpacklo_epi8(y_values0, _mm512_setzero_si512());
@@ -191,12 +191,12 @@ unsafe fn avx512_yuv_nv_to_rgba_impl_fast420<
         let y_gl0 = _mm512_maddubs_epi16(y_lo0, v_y_c);
         let y_gl1 = _mm512_maddubs_epi16(y_lo1, v_y_c);
 
-        let mut r_low0 = _mm512_add_epi16(y_gl0, r_c_lo);
-        let mut b_low0 = _mm512_add_epi16(y_gl0, b_c_lo);
+        let mut r_low0 = _mm512_adds_epi16(y_gl0, r_c_lo);
+        let mut b_low0 = _mm512_adds_epi16(y_gl0, b_c_lo);
         let mut g_low0 = _mm512_sub_epi16(y_gl0, g_c_lo);
 
-        let mut r_low1 = _mm512_add_epi16(y_gl1, r_c_lo);
-        let mut b_low1 = _mm512_add_epi16(y_gl1, b_c_lo);
+        let mut r_low1 = _mm512_adds_epi16(y_gl1, r_c_lo);
+        let mut b_low1 = _mm512_adds_epi16(y_gl1, b_c_lo);
         let mut g_low1 = _mm512_sub_epi16(y_gl1, g_c_lo);
 
         r_low0 = _mm512_srai_epi16::<6>(r_low0);
@@ -301,12 +301,12 @@ unsafe fn avx512_yuv_nv_to_rgba_impl_fast420<
         let r_c_hi = _mm512_unpackhi_epi16(r_c_values, r_c_values);
         let r_c_lo = _mm512_unpacklo_epi16(r_c_values, r_c_values);
 
-        let mut r_high0 = _mm512_add_epi16(y_g0, r_c_hi);
-        let mut b_high0 = _mm512_add_epi16(y_g0, b_c_hi);
+        let mut r_high0 = _mm512_adds_epi16(y_g0, r_c_hi);
+        let mut b_high0 = _mm512_adds_epi16(y_g0, b_c_hi);
         let mut g_high0 = _mm512_sub_epi16(y_g0, g_c_hi);
 
-        let mut r_high1 = _mm512_add_epi16(y_g1, r_c_hi);
-        let mut b_high1 = _mm512_add_epi16(y_g1, b_c_hi);
+        let mut r_high1 = _mm512_adds_epi16(y_g1, r_c_hi);
+        let mut b_high1 = _mm512_adds_epi16(y_g1, b_c_hi);
         let mut g_high1 = _mm512_sub_epi16(y_g1, g_c_hi);
 
         let y_lo0 = _mm512_unpacklo_epi8(y_values0, _mm512_setzero_si512());
@@ -315,12 +315,12 @@ unsafe fn avx512_yuv_nv_to_rgba_impl_fast420<
         let y_gl0 = _mm512_maddubs_epi16(y_lo0, v_y_c);
         let y_gl1 = _mm512_maddubs_epi16(y_lo1, v_y_c);
 
-        let mut r_low0 = _mm512_add_epi16(y_gl0, r_c_lo);
-        let mut b_low0 = _mm512_add_epi16(y_gl0, b_c_lo);
+        let mut r_low0 = _mm512_adds_epi16(y_gl0, r_c_lo);
+        let mut b_low0 = _mm512_adds_epi16(y_gl0, b_c_lo);
         let mut g_low0 = _mm512_sub_epi16(y_gl0, g_c_lo);
 
-        let mut r_low1 = _mm512_add_epi16(y_gl1, r_c_lo);
-        let mut b_low1 = _mm512_add_epi16(y_gl1, b_c_lo);
+        let mut r_low1 = _mm512_adds_epi16(y_gl1, r_c_lo);
+        let mut b_low1 = _mm512_adds_epi16(y_gl1, b_c_lo);
         let mut g_low1 = _mm512_sub_epi16(y_gl1, g_c_lo);
 
         r_low0 = _mm512_srai_epi16::<6>(r_low0);
diff --git a/src/sse/yuv_nv_to_rgba_fast.rs b/src/sse/yuv_nv_to_rgba_fast.rs
index fea2de2..a58c84c 100644
--- a/src/sse/yuv_nv_to_rgba_fast.rs
+++ b/src/sse/yuv_nv_to_rgba_fast.rs
@@ -151,12 +151,12 @@ unsafe fn sse_yuv_nv_to_rgba_fast_impl<
         let y_gh = _mm_maddubs_epi16(y_hi, v_y_c);
         let y_gl = _mm_maddubs_epi16(y_lo, v_y_c);
 
-        let mut r_high0 = _mm_add_epi16(y_gh, r_c_hi);
-        let mut b_high0 = _mm_add_epi16(y_gh, b_c_hi);
+        let mut r_high0 = _mm_adds_epi16(y_gh, r_c_hi);
+        let mut b_high0 = _mm_adds_epi16(y_gh, b_c_hi);
         let mut g_high0 = _mm_sub_epi16(y_gh, g_c_hi);
 
-        let mut r_low0 = _mm_add_epi16(y_gl, r_c_lo);
-        let mut b_low0 = _mm_add_epi16(y_gl, b_c_lo);
+        let mut r_low0 = _mm_adds_epi16(y_gl, r_c_lo);
+        let mut b_low0 = _mm_adds_epi16(y_gl, b_c_lo);
         let mut g_low0 = _mm_sub_epi16(y_gl, g_c_lo);
 
         r_low0 = _mm_srai_epi16::<6>(r_low0);
@@ -265,12 +265,12 @@ unsafe fn sse_yuv_nv_to_rgba_fast_impl<
         let y_gh = _mm_maddubs_epi16(y_hi, v_y_c);
         let y_gl = _mm_maddubs_epi16(y_lo, v_y_c);
 
-        let mut r_high0 = _mm_add_epi16(y_gh, r_c_hi);
-        let mut b_high0 = _mm_add_epi16(y_gh, b_c_hi);
+        let mut r_high0 = _mm_adds_epi16(y_gh, r_c_hi);
+        let mut b_high0 = _mm_adds_epi16(y_gh, b_c_hi);
         let mut g_high0 = _mm_sub_epi16(y_gh, g_c_hi);
 
-        let mut r_low0 = _mm_add_epi16(y_gl, r_c_lo);
-        let mut b_low0 = _mm_add_epi16(y_gl, b_c_lo);
+        let mut r_low0 = _mm_adds_epi16(y_gl, r_c_lo);
+        let mut b_low0 = _mm_adds_epi16(y_gl, b_c_lo);
         let mut g_low0 = _mm_sub_epi16(y_gl, g_c_lo);
 
         r_low0 = _mm_srai_epi16::<6>(r_low0);
diff --git a/src/sse/yuv_nv_to_rgba_fast420.rs b/src/sse/yuv_nv_to_rgba_fast420.rs
index d58f035..13c3dc7 100644
--- a/src/sse/yuv_nv_to_rgba_fast420.rs
+++ b/src/sse/yuv_nv_to_rgba_fast420.rs
@@ -121,12 +121,12 @@ unsafe fn sse_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let r_c_hi = _mm_unpackhi_epi16(r_c_values, r_c_values);
         let r_c_lo = _mm_unpacklo_epi16(r_c_values, r_c_values);
 
-        let mut r_high0 = _mm_add_epi16(y_g0, r_c_hi);
-        let mut b_high0 = _mm_add_epi16(y_g0, b_c_hi);
+        let mut r_high0 = _mm_adds_epi16(y_g0, r_c_hi);
+        let mut b_high0 = _mm_adds_epi16(y_g0, b_c_hi);
         let mut g_high0 = _mm_sub_epi16(y_g0, g_c_hi);
 
-        let mut r_high1 = _mm_add_epi16(y_g1, r_c_hi);
-        let mut b_high1 = _mm_add_epi16(y_g1, b_c_hi);
+        let mut r_high1 = _mm_adds_epi16(y_g1, r_c_hi);
+        let mut b_high1 = _mm_adds_epi16(y_g1, b_c_hi);
         let mut g_high1 = _mm_sub_epi16(y_g1, g_c_hi);
 
         let y_lo0 = _mm_unpacklo_epi8(y_values0, _mm_setzero_si128());
@@ -135,12 +135,12 @@ unsafe fn sse_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let y_gl0 = _mm_maddubs_epi16(y_lo0, v_y_c);
         let y_gl1 = _mm_maddubs_epi16(y_lo1, v_y_c);
 
-        let mut r_low0 = _mm_add_epi16(y_gl0, r_c_lo);
-        let mut b_low0 = _mm_add_epi16(y_gl0, b_c_lo);
+        let mut r_low0 = _mm_adds_epi16(y_gl0, r_c_lo);
+        let mut b_low0 = _mm_adds_epi16(y_gl0, b_c_lo);
         let mut g_low0 = _mm_sub_epi16(y_gl0, g_c_lo);
 
-        let mut r_low1 = _mm_add_epi16(y_gl1, r_c_lo);
-        let mut b_low1 = _mm_add_epi16(y_gl1, b_c_lo);
+        let mut r_low1 = _mm_adds_epi16(y_gl1, r_c_lo);
+        let mut b_low1 = _mm_adds_epi16(y_gl1, b_c_lo);
         let mut g_low1 = _mm_sub_epi16(y_gl1, g_c_lo);
 
         r_low0 = _mm_srai_epi16::<6>(r_low0);
@@ -245,12 +245,12 @@ unsafe fn sse_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let r_c_hi = _mm_unpackhi_epi16(r_c_values, r_c_values);
         let r_c_lo = _mm_unpacklo_epi16(r_c_values, r_c_values);
 
-        let mut r_high0 = _mm_add_epi16(y_g0, r_c_hi);
-        let mut b_high0 = _mm_add_epi16(y_g0, b_c_hi);
+        let mut r_high0 = _mm_adds_epi16(y_g0, r_c_hi);
+        let mut b_high0 = _mm_adds_epi16(y_g0, b_c_hi);
         let mut g_high0 = _mm_sub_epi16(y_g0, g_c_hi);
 
-        let mut r_high1 = _mm_add_epi16(y_g1, r_c_hi);
-        let mut b_high1 = _mm_add_epi16(y_g1, b_c_hi);
+        let mut r_high1 = _mm_adds_epi16(y_g1, r_c_hi);
+        let mut b_high1 = _mm_adds_epi16(y_g1, b_c_hi);
         let mut g_high1 = _mm_sub_epi16(y_g1, g_c_hi);
 
         let y_lo0 = _mm_unpacklo_epi8(y_values0, _mm_setzero_si128());
@@ -259,12 +259,12 @@ unsafe fn sse_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let y_gl0 = _mm_maddubs_epi16(y_lo0, v_y_c);
         let y_gl1 = _mm_maddubs_epi16(y_lo1, v_y_c);
 
-        let mut r_low0 = _mm_add_epi16(y_gl0, r_c_lo);
-        let mut b_low0 = _mm_add_epi16(y_gl0, b_c_lo);
+        let mut r_low0 = _mm_adds_epi16(y_gl0, r_c_lo);
+        let mut b_low0 = _mm_adds_epi16(y_gl0, b_c_lo);
         let mut g_low0 = _mm_sub_epi16(y_gl0, g_c_lo);
 
-        let mut r_low1 = _mm_add_epi16(y_gl1, r_c_lo);
-        let mut b_low1 = _mm_add_epi16(y_gl1, b_c_lo);
+        let mut r_low1 = _mm_adds_epi16(y_gl1, r_c_lo);
+        let mut b_low1 = _mm_adds_epi16(y_gl1, b_c_lo);
         let mut g_low1 = _mm_sub_epi16(y_gl1, g_c_lo);
 
         r_low0 = _mm_srai_epi16::<6>(r_low0);
-- 
2.43.0


From db2e746026264d6db0a947c20130718aacabd871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:30 +0000
Subject: [PATCH 02/27] fix: subtract luma bias with unsigned saturation

---
 src/avx512bw/y_to_rgb.rs     | 4 ++--
 src/sse/y_to_rgba.rs         | 4 ++--
 src/sse/y_to_rgba_alpha.rs   | 2 +-
 src/sse/yuv_nv_to_rgba.rs    | 4 ++--
 src/sse/yuv_nv_to_rgba420.rs | 8 ++++----
 src/sse/yuv_nv_to_rgba422.rs | 4 ++--
 src/sse/yuv_to_rgba.rs       | 2 +-
 src/sse/yuv_to_rgba422.rs    | 2 +-
 8 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/avx512bw/y_to_rgb.rs b/src/avx512bw/y_to_rgb.rs
index ef3ee28..46e830c 100644
--- a/src/avx512bw/y_to_rgb.rs
+++ b/src/avx512bw/y_to_rgb.rs
@@ -104,7 +104,7 @@ unsafe fn avx512_y_to_rgb_row_impl<const DESTINATION_CHANNELS: u8, const HAS_VBM
     let v_alpha = _mm512_set1_epi8(255u8 as i8);
 
     while cx + 64 < width {
-        let y_s = _mm512_subs_epi8(_mm512_loadu_si512(y_ptr.add(cx) as *const i32), y_corr);
+        let y_s = _mm512_subs_epu8(_mm512_loadu_si512(y_ptr.add(cx) as *const i32), y_corr);
 
         let y10 = _mm512_expand8_unordered_to_10(y_s);
 
@@ -143,7 +143,7 @@ unsafe fn avx512_y_to_rgb_row_impl<const DESTINATION_CHANNELS: u8, const HAS_VBM
             diff,
         );
 
-        let y_s = _mm512_subs_epi8(_mm512_loadu_si512(y_buffer.as_ptr() as *const i32), y_corr);
+        let y_s = _mm512_subs_epu8(_mm512_loadu_si512(y_buffer.as_ptr() as *const i32), y_corr);
 
         let y10 = _mm512_expand8_unordered_to_10(y_s);
 
diff --git a/src/sse/y_to_rgba.rs b/src/sse/y_to_rgba.rs
index e0b899b..9b5a658 100644
--- a/src/sse/y_to_rgba.rs
+++ b/src/sse/y_to_rgba.rs
@@ -101,7 +101,7 @@ unsafe fn sse_y_to_rgba_row_impl<const DESTINATION_CHANNELS: u8>(
     }
 
     while cx + 8 < width {
-        let y_values = _mm_subs_epi8(_mm_loadu_si64(y_ptr.add(cx)), y_corr);
+        let y_values = _mm_subs_epu8(_mm_loadu_si64(y_ptr.add(cx)), y_corr);
 
         let v_low = _mm_mulhrs_epi16(_mm_expand8_lo_to_10(y_values), v_luma_coeff);
 
@@ -134,7 +134,7 @@ unsafe fn sse_y_to_rgba_row_impl<const DESTINATION_CHANNELS: u8>(
             diff,
         );
 
-        let y_values = _mm_subs_epi8(_mm_loadu_si64(y_buffer.as_ptr()), y_corr);
+        let y_values = _mm_subs_epu8(_mm_loadu_si64(y_buffer.as_ptr()), y_corr);
 
         let v_low = _mm_mulhrs_epi16(_mm_expand8_lo_to_10(y_values), v_luma_coeff);
 
diff --git a/src/sse/y_to_rgba_alpha.rs b/src/sse/y_to_rgba_alpha.rs
index 2fad23b..c8ce57d 100644
--- a/src/sse/y_to_rgba_alpha.rs
+++ b/src/sse/y_to_rgba_alpha.rs
@@ -104,7 +104,7 @@ unsafe fn sse_y_to_rgba_alpha_row_impl<const DESTINATION_CHANNELS: u8>(
     }
 
     while cx + 8 < width {
-        let y_values = _mm_subs_epi8(_mm_loadu_si64(y_ptr.add(cx)), y_corr);
+        let y_values = _mm_subs_epu8(_mm_loadu_si64(y_ptr.add(cx)), y_corr);
         let a_values = _mm_loadu_si64(a_plane.get_unchecked(cx..).as_ptr());
 
         let v_low = _mm_mulhrs_epi16(_mm_expand8_lo_to_10(y_values), v_luma_coeff);
diff --git a/src/sse/yuv_nv_to_rgba.rs b/src/sse/yuv_nv_to_rgba.rs
index deb8fb5..394ffe0 100644
--- a/src/sse/yuv_nv_to_rgba.rs
+++ b/src/sse/yuv_nv_to_rgba.rs
@@ -264,7 +264,7 @@ unsafe fn sse_yuv_nv_to_rgba_impl<
             }
         }
 
-        let y_values = _mm_subs_epi8(y_vl0, y_corr);
+        let y_values = _mm_subs_epu8(y_vl0, y_corr);
         let u_low = _mm_sub_epi16(u_low_u16, uv_corr);
         let v_low = _mm_sub_epi16(v_low_u16, uv_corr);
         let y_low = _mm_mulhrs_epi16(_mm_expand8_lo_to_10(y_values), v_luma_coeff);
@@ -383,7 +383,7 @@ unsafe fn sse_yuv_nv_to_rgba_impl<
             }
         }
 
-        let y_values = _mm_subs_epi8(y_vl0, y_corr);
+        let y_values = _mm_subs_epu8(y_vl0, y_corr);
         let u_low = _mm_sub_epi16(u_low_u16, uv_corr);
         let v_low = _mm_sub_epi16(v_low_u16, uv_corr);
         let y_low = _mm_mulhrs_epi16(_mm_expand8_lo_to_10(y_values), v_luma_coeff);
diff --git a/src/sse/yuv_nv_to_rgba420.rs b/src/sse/yuv_nv_to_rgba420.rs
index 23240ef..5be0faa 100644
--- a/src/sse/yuv_nv_to_rgba420.rs
+++ b/src/sse/yuv_nv_to_rgba420.rs
@@ -190,8 +190,8 @@ unsafe fn sse_yuv_nv_to_rgba_impl420<const UV_ORDER: u8, const DESTINATION_CHANN
 
         let uv_values_ = _mm_loadu_si64(uv_ptr.add(uv_x));
 
-        let y_values0 = _mm_subs_epi8(y_vl0, y_corr);
-        let y_values1 = _mm_subs_epi8(y_vl1, y_corr);
+        let y_values0 = _mm_subs_epu8(y_vl0, y_corr);
+        let y_values1 = _mm_subs_epu8(y_vl1, y_corr);
         let (mut u, mut v) = _mm_deinterleave_x2_epi8(uv_values_, zeros);
 
         if order == YuvNVOrder::VU {
@@ -291,8 +291,8 @@ unsafe fn sse_yuv_nv_to_rgba_impl420<const UV_ORDER: u8, const DESTINATION_CHANN
 
         let uv_values_ = _mm_loadu_si64(uv_buffer.as_ptr());
 
-        let y_values0 = _mm_subs_epi8(y_vl0, y_corr);
-        let y_values1 = _mm_subs_epi8(y_vl1, y_corr);
+        let y_values0 = _mm_subs_epu8(y_vl0, y_corr);
+        let y_values1 = _mm_subs_epu8(y_vl1, y_corr);
         let (mut u, mut v) = _mm_deinterleave_x2_epi8(uv_values_, zeros);
 
         if order == YuvNVOrder::VU {
diff --git a/src/sse/yuv_nv_to_rgba422.rs b/src/sse/yuv_nv_to_rgba422.rs
index 6174767..60520b9 100644
--- a/src/sse/yuv_nv_to_rgba422.rs
+++ b/src/sse/yuv_nv_to_rgba422.rs
@@ -163,7 +163,7 @@ unsafe fn sse_yuv_nv_to_rgba_impl422<const UV_ORDER: u8, const DESTINATION_CHANN
 
         let distribute_shuffle = _mm_setr_epi8(0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3);
 
-        let y_values = _mm_subs_epi8(y_vl0, y_corr);
+        let y_values = _mm_subs_epu8(y_vl0, y_corr);
 
         u = _mm_shuffle_epi8(u, distribute_shuffle);
         v = _mm_shuffle_epi8(v, distribute_shuffle);
@@ -238,7 +238,7 @@ unsafe fn sse_yuv_nv_to_rgba_impl422<const UV_ORDER: u8, const DESTINATION_CHANN
 
         let distribute_shuffle = _mm_setr_epi8(0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3);
 
-        let y_values = _mm_subs_epi8(y_vl0, y_corr);
+        let y_values = _mm_subs_epu8(y_vl0, y_corr);
 
         u = _mm_shuffle_epi8(u, distribute_shuffle);
         v = _mm_shuffle_epi8(v, distribute_shuffle);
diff --git a/src/sse/yuv_to_rgba.rs b/src/sse/yuv_to_rgba.rs
index 32ab642..ea7da7e 100644
--- a/src/sse/yuv_to_rgba.rs
+++ b/src/sse/yuv_to_rgba.rs
@@ -176,7 +176,7 @@ unsafe fn sse_yuv_to_rgba_row_impl<const DESTINATION_CHANNELS: u8, const SAMPLIN
     }
 
     while cx + 8 < width {
-        let y_values = _mm_subs_epi8(_xx_load_si64(y_ptr.add(cx)), y_corr);
+        let y_values = _mm_subs_epu8(_xx_load_si64(y_ptr.add(cx)), y_corr);
 
         let (u_low_u16, v_low_u16);
 
diff --git a/src/sse/yuv_to_rgba422.rs b/src/sse/yuv_to_rgba422.rs
index b7ad4e2..f72f4df 100644
--- a/src/sse/yuv_to_rgba422.rs
+++ b/src/sse/yuv_to_rgba422.rs
@@ -157,7 +157,7 @@ unsafe fn sse_yuv_to_rgba_row_impl422<const DESTINATION_CHANNELS: u8>(
     }
 
     while cx + 8 < width {
-        let y_values = _mm_subs_epi8(_xx_load_si64(y_ptr.add(cx)), y_corr);
+        let y_values = _mm_subs_epu8(_xx_load_si64(y_ptr.add(cx)), y_corr);
 
         let reshuffle = _mm_setr_epi8(0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3);
 
-- 
2.43.0


From aa9d667499dda1fcaa192d525f6909c50c4dbfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:15 +0000
Subject: [PATCH 03/27] fix: average chroma pairs correctly when packing planar
 4:4:4 into 4:2:2

---
 src/avx2/avx2_utils.rs |  8 +-------
 src/sse/yuv_to_yuy2.rs | 10 ++--------
 src/yuv_to_yuy2.rs     |  2 +-
 3 files changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/avx2/avx2_utils.rs b/src/avx2/avx2_utils.rs
index 6f04025..af3289d 100644
--- a/src/avx2/avx2_utils.rs
+++ b/src/avx2/avx2_utils.rs
@@ -336,12 +336,6 @@ pub(crate) unsafe fn avx2_deinterleave_rgb(
 //     _mm256_permute4x64_epi64::<MASK>(v)
 // }
 
-#[inline(always)]
-pub(crate) unsafe fn avx_pairwise_avg_epi16(a: __m256i, b: __m256i) -> __m256i {
-    let sums = _mm256_hadd_epi16(a, b);
-    _mm256_srli_epi16::<1>(_mm256_add_epi16(sums, _mm256_set1_epi16(1)))
-}
-
 #[inline(always)]
 pub(crate) unsafe fn avx_pairwise_avg_epi16_epi8_j(a: __m256i, f: i8) -> __m256i {
     _mm256_maddubs_epi16(a, _mm256_set1_epi8(f))
@@ -470,7 +464,7 @@ pub(crate) unsafe fn _mm256_havg_epu8(a: __m256i, b: __m256i) -> __m256i {
     let lo = _mm256_srli_epi16::<1>(_mm256_add_epi16(sums_lo, ones_16));
     let sums_hi = _mm256_maddubs_epi16(b, ones);
     let hi = _mm256_srli_epi16::<1>(_mm256_add_epi16(sums_hi, ones_16));
-    avx_pairwise_avg_epi16(lo, hi)
+    avx2_pack_u16(lo, hi)
 }
 
 #[inline(always)]
diff --git a/src/sse/yuv_to_yuy2.rs b/src/sse/yuv_to_yuy2.rs
index bca03a6..b8aa189 100644
--- a/src/sse/yuv_to_yuy2.rs
+++ b/src/sse/yuv_to_yuy2.rs
@@ -142,14 +142,8 @@ unsafe fn yuv_to_yuy2_sse_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                 let full_u = _mm_loadu_si128(u_plane.as_ptr().add(u_pos) as *const __m128i);
                 let full_v = _mm_loadu_si128(v_plane.as_ptr().add(v_pos) as *const __m128i);
 
-                let low_u = _mm_getlow_epi8(full_u);
-                let high_u = _mm_gethigh_epi8(full_u);
-                u_pixels = _mm_havg_epu8(low_u, high_u);
-
-                let low_v = _mm_getlow_epi8(full_v);
-                let high_v = _mm_gethigh_epi8(full_v);
-
-                v_pixels = _mm_havg_epu8(low_v, high_v);
+                u_pixels = _mm_havg_epu8(full_u, full_u);
+                v_pixels = _mm_havg_epu8(full_v, full_v);
             } else {
                 u_pixels = _mm_loadu_si64(u_plane.as_ptr().add(u_pos));
                 v_pixels = _mm_loadu_si64(v_plane.as_ptr().add(v_pos));
diff --git a/src/yuv_to_yuy2.rs b/src/yuv_to_yuy2.rs
index 4512b83..cda8390 100644
--- a/src/yuv_to_yuy2.rs
+++ b/src/yuv_to_yuy2.rs
@@ -243,7 +243,7 @@ pub(crate) fn yuv_to_yuy2_impl<
                 .zip(y_src.chunks_exact(2))
                 .zip(u_src.chunks_exact(2))
                 .zip(v_src.chunks_exact(2))
-                .skip(processed)
+                .skip(processed / 2)
             {
                 yuy2[yuy2_target.get_first_y_position()] = y_src[0];
                 yuy2[yuy2_target.get_second_y_position()] = y_src[1];
-- 
2.43.0


From ee7183da9fe4d7d92b27f405a2c16806a9c53786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:48 +0000
Subject: [PATCH 04/27] fix: packed 4:2:2 to planar: V slicing, SIMD tail
 offsets, odd last row and column

---
 src/yuy2_to_yuv.rs     | 22 +++++++++++-----------
 src/yuy2_to_yuv_p16.rs | 16 ++++++++--------
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/yuy2_to_yuv.rs b/src/yuy2_to_yuv.rs
index d565919..c8a802d 100644
--- a/src/yuy2_to_yuv.rs
+++ b/src/yuy2_to_yuv.rs
@@ -146,7 +146,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
             let yuy2_src = &yuy2_src[0..yuy2_width];
             let y_dst = &mut y_dst[0..planar_image.width as usize];
             let u_dst = &mut u_dst[0..planar_image.width as usize];
-            let u_dst = &mut u_dst[0..planar_image.width as usize];
+            let v_dst = &mut v_dst[0..planar_image.width as usize];
 
             let p_offset = process_wide_row(y_dst, u_dst, v_dst, yuy2_src);
 
@@ -155,7 +155,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                 .zip(u_dst.chunks_exact_mut(2))
                 .zip(v_dst.chunks_exact_mut(2))
                 .zip(yuy2_src.chunks_exact(4))
-                .skip(p_offset.cx)
+                .skip(p_offset.cx / 2)
             {
                 let first_y_position = yuy2[yuy2_target.get_first_y_position()];
                 let second_y_position = yuy2[yuy2_target.get_second_y_position()];
@@ -210,7 +210,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
             let yuy2_src = &yuy2_src[0..yuy2_width];
             let y_dst = &mut y_dst[0..planar_image.width as usize];
             let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
-            let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
+            let v_dst = &mut v_dst[0..(planar_image.width as usize).div_ceil(2)];
 
             let p_offset = process_wide_row(y_dst, u_dst, v_dst, yuy2_src);
 
@@ -219,7 +219,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                 .zip(u_dst.iter_mut())
                 .zip(v_dst.iter_mut())
                 .zip(yuy2_src.chunks_exact(4))
-                .skip(p_offset.cx)
+                .skip(p_offset.cx / 2)
             {
                 let first_y_position = yuy2[yuy2_target.get_first_y_position()];
                 let second_y_position = yuy2[yuy2_target.get_second_y_position()];
@@ -247,25 +247,25 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
         #[cfg(feature = "rayon")]
         {
             iter = y_plane
-                .par_chunks_exact_mut(y_stride as usize * 2)
+                .par_chunks_mut(y_stride as usize * 2)
                 .zip(u_plane.par_chunks_exact_mut(u_stride as usize))
                 .zip(v_plane.par_chunks_exact_mut(v_stride as usize))
                 .zip(
                     packed_image
                         .yuy
-                        .par_chunks_exact(packed_image.yuy_stride as usize * 2),
+                        .par_chunks(packed_image.yuy_stride as usize * 2),
                 );
         }
         #[cfg(not(feature = "rayon"))]
         {
             iter = y_plane
-                .chunks_exact_mut(y_stride as usize * 2)
+                .chunks_mut(y_stride as usize * 2)
                 .zip(u_plane.chunks_exact_mut(u_stride as usize))
                 .zip(v_plane.chunks_exact_mut(v_stride as usize))
                 .zip(
                     packed_image
                         .yuy
-                        .chunks_exact(packed_image.yuy_stride as usize * 2),
+                        .chunks(packed_image.yuy_stride as usize * 2),
                 );
         }
         iter.for_each(|(((y_dst, u_dst), v_dst), yuy2_src)| {
@@ -277,7 +277,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                 let yuy2 = &yuy2[0..yuy2_width];
                 let y_dst = &mut y_dst[0..planar_image.width as usize];
                 let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
-                let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
+                let v_dst = &mut v_dst[0..(planar_image.width as usize).div_ceil(2)];
 
                 let p_offset = process_wide_row(y_dst, u_dst, v_dst, yuy2);
 
@@ -288,7 +288,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                     .zip(u_dst.iter_mut())
                     .zip(v_dst.iter_mut())
                     .zip(yuy2.chunks_exact(4))
-                    .skip(p_offset.cx)
+                    .skip(p_offset.cx / 2)
                 {
                     let first_y_position = yuy2[yuy2_target.get_first_y_position()];
                     let second_y_position = yuy2[yuy2_target.get_second_y_position()];
@@ -304,7 +304,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
 
                 if width & 1 != 0 {
                     let y_dst = y_dst.last_mut().unwrap();
-                    let yuy2 = yuy2_src.chunks_exact(4).last().unwrap();
+                    let yuy2 = yuy2.chunks_exact(4).last().unwrap();
                     let yuy2 = &yuy2[0..4];
                     *y_dst = yuy2[yuy2_target.get_first_y_position()];
                     if process_chroma {
diff --git a/src/yuy2_to_yuv_p16.rs b/src/yuy2_to_yuv_p16.rs
index 225bd28..3fda3bd 100644
--- a/src/yuy2_to_yuv_p16.rs
+++ b/src/yuy2_to_yuv_p16.rs
@@ -90,7 +90,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
             let yuy2_src = &yuy2_src[0..yuy2_width];
             let y_dst = &mut y_dst[0..planar_image.width as usize];
             let u_dst = &mut u_dst[0..planar_image.width as usize];
-            let u_dst = &mut u_dst[0..planar_image.width as usize];
+            let v_dst = &mut v_dst[0..planar_image.width as usize];
 
             for (((y_dst, u_dst), v_dst), yuy2) in y_dst
                 .chunks_exact_mut(2)
@@ -151,7 +151,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
             let yuy2_src = &yuy2_src[0..yuy2_width];
             let y_dst = &mut y_dst[0..planar_image.width as usize];
             let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
-            let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
+            let v_dst = &mut v_dst[0..(planar_image.width as usize).div_ceil(2)];
 
             for (((y_dst, u_dst), v_dst), yuy2) in y_dst
                 .chunks_exact_mut(2)
@@ -185,25 +185,25 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
         #[cfg(feature = "rayon")]
         {
             iter = y_plane
-                .par_chunks_exact_mut(y_stride as usize * 2)
+                .par_chunks_mut(y_stride as usize * 2)
                 .zip(u_plane.par_chunks_exact_mut(u_stride as usize))
                 .zip(v_plane.par_chunks_exact_mut(v_stride as usize))
                 .zip(
                     packed_image
                         .yuy
-                        .par_chunks_exact(packed_image.yuy_stride as usize * 2),
+                        .par_chunks(packed_image.yuy_stride as usize * 2),
                 );
         }
         #[cfg(not(feature = "rayon"))]
         {
             iter = y_plane
-                .chunks_exact_mut(y_stride as usize * 2)
+                .chunks_mut(y_stride as usize * 2)
                 .zip(u_plane.chunks_exact_mut(u_stride as usize))
                 .zip(v_plane.chunks_exact_mut(v_stride as usize))
                 .zip(
                     packed_image
                         .yuy
-                        .chunks_exact(packed_image.yuy_stride as usize * 2),
+                        .chunks(packed_image.yuy_stride as usize * 2),
                 );
         }
         iter.for_each(|(((y_dst, u_dst), v_dst), yuy2_src)| {
@@ -215,7 +215,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                 let yuy2 = &yuy2[0..yuy2_width];
                 let y_dst = &mut y_dst[0..planar_image.width as usize];
                 let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
-                let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
+                let v_dst = &mut v_dst[0..(planar_image.width as usize).div_ceil(2)];
 
                 let process_chroma = y & 1 == 0;
 
@@ -239,7 +239,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
 
                 if width & 1 != 0 {
                     let y_dst = y_dst.last_mut().unwrap();
-                    let yuy2 = yuy2_src.chunks_exact(4).last().unwrap();
+                    let yuy2 = yuy2.chunks_exact(4).last().unwrap();
                     let yuy2 = &yuy2[0..4];
                     *y_dst = yuy2[yuy2_target.get_first_y_position()];
                     if process_chroma {
-- 
2.43.0


From b207b469d9150fb7cb9178b4063d74a41853dea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:30 +0000
Subject: [PATCH 05/27] fix: accumulate fast-mode AVX-512 dot products from a
 32-bit bias

---
 src/avx512bw/rgba_to_yuv_fast.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avx512bw/rgba_to_yuv_fast.rs b/src/avx512bw/rgba_to_yuv_fast.rs
index 8715b4c..3ec1908 100644
--- a/src/avx512bw/rgba_to_yuv_fast.rs
+++ b/src/avx512bw/rgba_to_yuv_fast.rs
@@ -593,8 +593,8 @@ unsafe fn avx512_rgba_to_yuv_dot_rgba_impl_dot_impl<
         source_channels == YuvSourceChannels::Rgb || source_channels == YuvSourceChannels::Bgr;
 
     const A_E: u32 = 7;
-    let y_bias = _mm512_set1_epi16(range.bias_y as i16 * (1 << A_E) + (1 << (A_E - 1)) - 1);
-    let uv_bias = _mm512_set1_epi16(range.bias_uv as i16 * (1 << A_E) + (1 << (A_E - 1)) - 1);
+    let y_bias = _mm512_set1_epi32(range.bias_y as i32 * (1 << A_E) + (1 << (A_E - 1)) - 1);
+    let uv_bias = _mm512_set1_epi32(range.bias_uv as i32 * (1 << A_E) + (1 << (A_E - 1)) - 1);
 
     let y_weights = if is_rgbx {
         _mm512_set4r_epi8(
-- 
2.43.0


From 0528197f7fff65a584d7c9d4fba6fb6c17bdab36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:21 +0000
Subject: [PATCH 06/27] fix: keep all 16 pixels in the AVX2 half-width RGB to
 luma kernel

---
 src/avx2/rgb_to_y.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/avx2/rgb_to_y.rs b/src/avx2/rgb_to_y.rs
index f1d6cb3..56b14a5 100644
--- a/src/avx2/rgb_to_y.rs
+++ b/src/avx2/rgb_to_y.rs
@@ -29,7 +29,7 @@
 
 use crate::avx2::avx2_utils::{
     _mm256_load_deinterleave_half_rgb_for_yuv, _mm256_load_deinterleave_rgb_for_yuv,
-    _mm256_sqrdmlah_dot,
+    _mm256_sqrdmlah_dot, avx2_pack_u16, shuffle,
 };
 use crate::yuv_support::{CbCrForwardTransform, YuvChromaRange, YuvSourceChannels};
 #[cfg(target_arch = "x86")]
@@ -104,6 +104,9 @@ pub(crate) unsafe fn avx2_rgb_to_y_row_impl<const ORIGIN_CHANNELS: u8, const PRE
         cx += 32;
     }
 
+    // spreads the 16 loaded bytes over both lanes, so that unpacking keeps all of them
+    const HALF: i32 = shuffle(3, 1, 2, 0);
+
     while cx + 16 < width {
         let px = cx * channels;
 
@@ -111,8 +114,11 @@ pub(crate) unsafe fn avx2_rgb_to_y_row_impl<const ORIGIN_CHANNELS: u8, const PRE
             ORIGIN_CHANNELS,
         >(rgba.get_unchecked(px..).as_ptr());
 
+        let r_values = _mm256_permute4x64_epi64::<HALF>(r_values);
         let rl = _mm256_unpacklo_epi8(r_values, r_values);
+        let g_values = _mm256_permute4x64_epi64::<HALF>(g_values);
         let gl = _mm256_unpacklo_epi8(g_values, g_values);
+        let b_values = _mm256_permute4x64_epi64::<HALF>(b_values);
         let bl = _mm256_unpacklo_epi8(b_values, b_values);
 
         let r_low = _mm256_srli_epi16::<V_S>(rl);
@@ -127,7 +133,7 @@ pub(crate) unsafe fn avx2_rgb_to_y_row_impl<const ORIGIN_CHANNELS: u8, const PRE
 
         let y_l = _mm256_srli_epi16::<A_E>(_mm256_add_epi16(y_bias, _mm256_add_epi16(yrgc, bhy)));
 
-        let y_yuv = _mm256_packus_epi16(y_l, _mm256_setzero_si256());
+        let y_yuv = avx2_pack_u16(y_l, _mm256_setzero_si256());
         _mm_storeu_si128(
             y_plane.get_unchecked_mut(cx..).as_mut_ptr() as *mut __m128i,
             _mm256_castsi256_si128(y_yuv),
@@ -151,8 +157,11 @@ pub(crate) unsafe fn avx2_rgb_to_y_row_impl<const ORIGIN_CHANNELS: u8, const PRE
         let (r_values, g_values, b_values) =
             _mm256_load_deinterleave_half_rgb_for_yuv::<ORIGIN_CHANNELS>(src_buffer.as_ptr());
 
+        let r_values = _mm256_permute4x64_epi64::<HALF>(r_values);
         let rl = _mm256_unpacklo_epi8(r_values, r_values);
+        let g_values = _mm256_permute4x64_epi64::<HALF>(g_values);
         let gl = _mm256_unpacklo_epi8(g_values, g_values);
+        let b_values = _mm256_permute4x64_epi64::<HALF>(b_values);
         let bl = _mm256_unpacklo_epi8(b_values, b_values);
 
         let r_low = _mm256_srli_epi16::<V_S>(rl);
@@ -167,7 +176,7 @@ pub(crate) unsafe fn avx2_rgb_to_y_row_impl<const ORIGIN_CHANNELS: u8, const PRE
 
         let y_l = _mm256_srli_epi16::<A_E>(_mm256_add_epi16(y_bias, _mm256_add_epi16(yrgc, bhy)));
 
-        let y_yuv = _mm256_packus_epi16(y_l, _mm256_setzero_si256());
+        let y_yuv = avx2_pack_u16(y_l, _mm256_setzero_si256());
         _mm_storeu_si128(
             y_buffer.as_mut_ptr() as *mut __m128i,
             _mm256_castsi256_si128(y_yuv),
-- 
2.43.0


From 84009fde4429af043a4e3d6374943d7bd18f8d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:28 +0000
Subject: [PATCH 07/27] fix: use the blue coefficient in the SSE 4:2:0 NV row
 tail

---
 src/sse/yuv_nv_to_rgba420.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sse/yuv_nv_to_rgba420.rs b/src/sse/yuv_nv_to_rgba420.rs
index 5be0faa..bdf5d40 100644
--- a/src/sse/yuv_nv_to_rgba420.rs
+++ b/src/sse/yuv_nv_to_rgba420.rs
@@ -218,7 +218,7 @@ unsafe fn sse_yuv_nv_to_rgba_impl420<const UV_ORDER: u8, const DESTINATION_CHANN
         );
 
         let v_cr_lo = _mm_mulhrs_epi16(v_low, v_cr_coeff);
-        let v_cb_lo = _mm_mulhrs_epi16(u_low, v_cr_coeff);
+        let v_cb_lo = _mm_mulhrs_epi16(u_low, v_cb_coeff);
 
         let r_low0 = _mm_add_epi16(y_low0, v_cr_lo);
         let b_low0 = _mm_add_epi16(y_low0, v_cb_lo);
@@ -319,7 +319,7 @@ unsafe fn sse_yuv_nv_to_rgba_impl420<const UV_ORDER: u8, const DESTINATION_CHANN
         );
 
         let v_cr_lo = _mm_mulhrs_epi16(v_low, v_cr_coeff);
-        let v_cb_lo = _mm_mulhrs_epi16(u_low, v_cr_coeff);
+        let v_cb_lo = _mm_mulhrs_epi16(u_low, v_cb_coeff);
 
         let r_low0 = _mm_add_epi16(y_low0, v_cr_lo);
         let b_low0 = _mm_add_epi16(y_low0, v_cb_lo);
-- 
2.43.0


From 4ef532d80142359a93c3c82cb367f664f368905a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:28 +0000
Subject: [PATCH 08/27] fix: clamp colour before premultiplying it by alpha

---
 src/avx2/ayuv_to_rgba.rs          | 10 ++++++++++
 src/avx2/yuv_to_rgba_alpha.rs     | 15 +++++++++------
 src/avx512bw/yuv_to_rgba_alpha.rs | 10 ++++++++++
 src/sse/yuv_to_rgba_alpha.rs      | 10 ++++++++++
 4 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/avx2/ayuv_to_rgba.rs b/src/avx2/ayuv_to_rgba.rs
index 733eeb3..f929bb9 100644
--- a/src/avx2/ayuv_to_rgba.rs
+++ b/src/avx2/ayuv_to_rgba.rs
@@ -239,6 +239,16 @@ unsafe fn avx2_ayuv_to_rgba_impl<const DESTINATION_CHANNELS: u8, const PACKED: u
             let a_high = _mm256_unpackhi_epi8(a, _mm256_setzero_si256());
             let a_low = _mm256_unpacklo_epi8(a, _mm256_setzero_si256());
 
+            let zeros = _mm256_setzero_si256();
+            let max_value = _mm256_set1_epi16(255);
+
+            let r_high = _mm256_min_epi16(_mm256_max_epi16(r_high, zeros), max_value);
+            let g_high = _mm256_min_epi16(_mm256_max_epi16(g_high, zeros), max_value);
+            let b_high = _mm256_min_epi16(_mm256_max_epi16(b_high, zeros), max_value);
+            let r_low = _mm256_min_epi16(_mm256_max_epi16(r_low, zeros), max_value);
+            let g_low = _mm256_min_epi16(_mm256_max_epi16(g_low, zeros), max_value);
+            let b_low = _mm256_min_epi16(_mm256_max_epi16(b_low, zeros), max_value);
+
             let (r_l, r_h) = avx2_div_by255_x2(
                 _mm256_mullo_epi16(r_low, a_low),
                 _mm256_mullo_epi16(r_high, a_high),
diff --git a/src/avx2/yuv_to_rgba_alpha.rs b/src/avx2/yuv_to_rgba_alpha.rs
index f05995f..f08286a 100644
--- a/src/avx2/yuv_to_rgba_alpha.rs
+++ b/src/avx2/yuv_to_rgba_alpha.rs
@@ -336,13 +336,16 @@ unsafe fn avx2_yuv_to_rgba_alpha_impl<const DESTINATION_CHANNELS: u8, const SAMP
         let (r_values, g_values, b_values);
 
         if use_premultiply {
-            r_high = _mm256_max_epi16(r_high, _mm256_setzero_si256());
-            b_high = _mm256_max_epi16(b_high, _mm256_setzero_si256());
-            g_high = _mm256_max_epi16(g_high, _mm256_setzero_si256());
+            let zeros = _mm256_setzero_si256();
+            let max_value = _mm256_set1_epi16(255);
 
-            r_low = _mm256_max_epi16(r_low, _mm256_setzero_si256());
-            b_low = _mm256_max_epi16(b_low, _mm256_setzero_si256());
-            g_low = _mm256_max_epi16(g_low, _mm256_setzero_si256());
+            r_high = _mm256_min_epi16(_mm256_max_epi16(r_high, zeros), max_value);
+            b_high = _mm256_min_epi16(_mm256_max_epi16(b_high, zeros), max_value);
+            g_high = _mm256_min_epi16(_mm256_max_epi16(g_high, zeros), max_value);
+
+            r_low = _mm256_min_epi16(_mm256_max_epi16(r_low, zeros), max_value);
+            b_low = _mm256_min_epi16(_mm256_max_epi16(b_low, zeros), max_value);
+            g_low = _mm256_min_epi16(_mm256_max_epi16(g_low, zeros), max_value);
 
             let a_high = _mm256_unpackhi_epi8(a_values, _mm256_setzero_si256());
             let a_low = _mm256_unpacklo_epi8(a_values, _mm256_setzero_si256());
diff --git a/src/avx512bw/yuv_to_rgba_alpha.rs b/src/avx512bw/yuv_to_rgba_alpha.rs
index 9930b1c..5bbec29 100644
--- a/src/avx512bw/yuv_to_rgba_alpha.rs
+++ b/src/avx512bw/yuv_to_rgba_alpha.rs
@@ -252,6 +252,16 @@ unsafe fn avx512_yuv_to_rgba_alpha_impl<
         let (r_values, g_values, b_values);
 
         if use_premultiply {
+            let zeros = _mm512_setzero_si512();
+            let max_value = _mm512_set1_epi16(255);
+
+            let r_high = _mm512_min_epi16(_mm512_max_epi16(r_high, zeros), max_value);
+            let g_high = _mm512_min_epi16(_mm512_max_epi16(g_high, zeros), max_value);
+            let b_high = _mm512_min_epi16(_mm512_max_epi16(b_high, zeros), max_value);
+            let r_low = _mm512_min_epi16(_mm512_max_epi16(r_low, zeros), max_value);
+            let g_low = _mm512_min_epi16(_mm512_max_epi16(g_low, zeros), max_value);
+            let b_low = _mm512_min_epi16(_mm512_max_epi16(b_low, zeros), max_value);
+
             let a_high = _mm512_cvtepu8_epi16(_mm512_extracti64x4_epi64::<1>(a_values));
             let a_low = _mm512_cvtepu8_epi16(_mm512_castsi512_si256(a_values));
 
diff --git a/src/sse/yuv_to_rgba_alpha.rs b/src/sse/yuv_to_rgba_alpha.rs
index 05f8158..51bd050 100644
--- a/src/sse/yuv_to_rgba_alpha.rs
+++ b/src/sse/yuv_to_rgba_alpha.rs
@@ -165,6 +165,16 @@ unsafe fn sse_yuv_to_rgba_alpha_row_impl<const DESTINATION_CHANNELS: u8, const S
         let (r_values, g_values, b_values);
 
         if use_premultiply {
+            let zeros = _mm_setzero_si128();
+            let max_value = _mm_set1_epi16(255);
+
+            let r_high = _mm_min_epi16(_mm_max_epi16(r_high, zeros), max_value);
+            let g_high = _mm_min_epi16(_mm_max_epi16(g_high, zeros), max_value);
+            let b_high = _mm_min_epi16(_mm_max_epi16(b_high, zeros), max_value);
+            let r_low = _mm_min_epi16(_mm_max_epi16(r_low, zeros), max_value);
+            let g_low = _mm_min_epi16(_mm_max_epi16(g_low, zeros), max_value);
+            let b_low = _mm_min_epi16(_mm_max_epi16(b_low, zeros), max_value);
+
             let a_h = _mm_unpackhi_epi8(a_values, _mm_setzero_si128());
             let a_l = _mm_unpacklo_epi8(a_values, _mm_setzero_si128());
             let r_h_16 = sse_div_by255(_mm_mullo_epi16(r_high, a_h));
-- 
2.43.0


From 3a0376f74989b397057fe99ff404618c197a3d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:32 +0000
Subject: [PATCH 09/27] fix: store an opaque 8-bit alpha when decoding high bit
 depth planar YUV

---
 src/avx2/yuv_p16_to_rgb8.rs     | 2 +-
 src/avx512bw/yuv_p16_to_rgb8.rs | 2 +-
 src/sse/yuv_p16_to_rgb8.rs      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/avx2/yuv_p16_to_rgb8.rs b/src/avx2/yuv_p16_to_rgb8.rs
index b372277..d9771ec 100644
--- a/src/avx2/yuv_p16_to_rgb8.rs
+++ b/src/avx2/yuv_p16_to_rgb8.rs
@@ -109,7 +109,7 @@ unsafe fn avx_yuv_p16_to_rgba_row8_impl<
 
     let dst_ptr = bgra;
 
-    let v_max_colors = _mm256_set1_epi16((1i16 << BIT_DEPTH as i16) - 1);
+    let v_max_colors = _mm256_set1_epi8(255u8 as i8);
 
     let y_corr = _mm256_set1_epi16(bias_y as i16);
     let uv_corr = _mm256_set1_epi16(bias_uv as i16);
diff --git a/src/avx512bw/yuv_p16_to_rgb8.rs b/src/avx512bw/yuv_p16_to_rgb8.rs
index b1d4f44..df4b568 100644
--- a/src/avx512bw/yuv_p16_to_rgb8.rs
+++ b/src/avx512bw/yuv_p16_to_rgb8.rs
@@ -189,7 +189,7 @@ unsafe fn avx_yuv_p16_to_rgba_row8_impl<
 
     let dst_ptr = bgra;
 
-    let v_max_colors = _mm512_set1_epi16((1i16 << BIT_DEPTH as i16) - 1);
+    let v_max_colors = _mm512_set1_epi8(255u8 as i8);
 
     let y_corr = _mm512_set1_epi16(bias_y as i16);
     let uv_corr = _mm512_set1_epi16(bias_uv as i16);
diff --git a/src/sse/yuv_p16_to_rgb8.rs b/src/sse/yuv_p16_to_rgb8.rs
index da80224..97469b6 100644
--- a/src/sse/yuv_p16_to_rgb8.rs
+++ b/src/sse/yuv_p16_to_rgb8.rs
@@ -108,7 +108,7 @@ unsafe fn sse_yuv_p16_to_rgba8_row_impl<
 
     let dst_ptr = bgra;
 
-    let v_max_colors = _mm_set1_epi16((1i16 << BIT_DEPTH as i16) - 1);
+    let v_max_colors = _mm_set1_epi8(255u8 as i8);
 
     let y_corr = _mm_set1_epi16(bias_y as i16);
     let uv_corr = _mm_set1_epi16(bias_uv as i16);
-- 
2.43.0


From 3a16c9aa36894b447d94e163c455363e7ff2d305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:32 +0000
Subject: [PATCH 10/27] fix: clamp to 8 bits and keep BGRA order when decoding
 high bit depth planar YUV to 8 bits

---
 src/yuv_p10_rgba.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/yuv_p10_rgba.rs b/src/yuv_p10_rgba.rs
index ce4bed4..e986af5 100644
--- a/src/yuv_p10_rgba.rs
+++ b/src/yuv_p10_rgba.rs
@@ -147,7 +147,7 @@ fn yuv_p16_to_image_ant<
     fn qrshr<const BIT_DEPTH: usize>(val: i32) -> i32 {
         let total_shift = PRECISION + (BIT_DEPTH as i32 - 8);
         let rounding: i32 = 1 << (total_shift - 1);
-        let max_value: i32 = (1 << BIT_DEPTH) - 1;
+        let max_value: i32 = 255;
         ((val + rounding) >> total_shift).min(max_value).max(0)
     }
 
@@ -542,7 +542,7 @@ build_cnv!(
 build_cnv!(
     i010_be_to_bgra,
     YuvChromaSubsampling::Yuv420,
-    YuvSourceChannels::Rgba,
+    YuvSourceChannels::Bgra,
     10,
     "YUV 420 10-bit",
     "BGRA",
@@ -630,7 +630,7 @@ build_cnv!(
 build_cnv!(
     i210_be_to_bgra,
     YuvChromaSubsampling::Yuv422,
-    YuvSourceChannels::Rgba,
+    YuvSourceChannels::Bgra,
     10,
     "YUV 420 10-bit",
     "BGRA",
@@ -718,7 +718,7 @@ build_cnv!(
 build_cnv!(
     i012_be_to_bgra,
     YuvChromaSubsampling::Yuv420,
-    YuvSourceChannels::Rgba,
+    YuvSourceChannels::Bgra,
     12,
     "YUV 420 12-bit",
     "BGRA",
@@ -806,7 +806,7 @@ build_cnv!(
 build_cnv!(
     i212_be_to_bgra,
     YuvChromaSubsampling::Yuv422,
-    YuvSourceChannels::Rgba,
+    YuvSourceChannels::Bgra,
     12,
     "YUV 420 12-bit",
     "BGRA",
-- 
2.43.0


From 493edf39718032780cd35fe9c584e29ab3790541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:32 +0000
Subject: [PATCH 11/27] fix: alpha plane handling when decoding high bit depth
 YUVA to 8-bit RGBA

---
 src/avx2/yuv_p16_to_rgb8_alpha.rs | 42 +++++++++++++++++++++----------
 src/sse/yuv_p16_to_rgb8_alpha.rs  | 18 +++++++++----
 src/yuv_p16_rgba_alpha.rs         | 26 ++++++++++++++-----
 3 files changed, 62 insertions(+), 24 deletions(-)

diff --git a/src/avx2/yuv_p16_to_rgb8_alpha.rs b/src/avx2/yuv_p16_to_rgb8_alpha.rs
index 6bdbc80..06bc328 100644
--- a/src/avx2/yuv_p16_to_rgb8_alpha.rs
+++ b/src/avx2/yuv_p16_to_rgb8_alpha.rs
@@ -253,13 +253,26 @@ unsafe fn avx_yuv_p16_to_rgba8_row_alpha_impl<
         let b_vals1 = _mm256_add_epi16(y_vals1, bvl1);
         let g_vals1 = _mm256_add_epi16(_mm256_add_epi16(y_vals1, gvl10), gvl11);
 
+        let mut a_vl0 = _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
+        #[cfg(feature = "big_endian")]
+        if _endianness == YuvEndianness::BigEndian {
+            a_vl0 = _mm256_shuffle_epi8(a_vl0, big_endian_shuffle_flag);
+        }
+        if bytes_position == YuvBytesPacking::MostSignificantBytes {
+            a_vl0 = _mm256_from_msb_epi16::<BIT_DEPTH>(a_vl0);
+        }
+        let mut a_vl1 =
+            _mm256_loadu_si256(a_plane.get_unchecked((cx + 16)..).as_ptr() as *const __m256i);
+        #[cfg(feature = "big_endian")]
+        if _endianness == YuvEndianness::BigEndian {
+            a_vl1 = _mm256_shuffle_epi8(a_vl1, big_endian_shuffle_flag);
+        }
+        if bytes_position == YuvBytesPacking::MostSignificantBytes {
+            a_vl1 = _mm256_from_msb_epi16::<BIT_DEPTH>(a_vl1);
+        }
         let a_values0 = avx2_pack_u16(
-            _mm256_store_shr_epi16_epi8::<BIT_DEPTH>(_mm256_loadu_si256(
-                a_plane.get_unchecked(cx..).as_ptr() as *const __m256i,
-            )),
-            _mm256_store_shr_epi16_epi8::<BIT_DEPTH>(_mm256_loadu_si256(
-                a_plane.get_unchecked(cx..).as_ptr() as *const __m256i,
-            )),
+            _mm256_store_shr_epi16_epi8::<BIT_DEPTH>(a_vl0),
+            _mm256_store_shr_epi16_epi8::<BIT_DEPTH>(a_vl1),
         );
 
         let r_values0 = avx2_pack_u16(
@@ -307,7 +320,7 @@ unsafe fn avx_yuv_p16_to_rgba8_row_alpha_impl<
         if bytes_position == YuvBytesPacking::MostSignificantBytes {
             y_vl = _mm256_from_msb_epi16::<BIT_DEPTH>(y_vl);
         }
-        let mut y_values = _mm256_sub_epi16(y_vl, y_corr);
+        let mut y_values = _mm256_subs_epu16(y_vl, y_corr);
 
         let mut u_values;
         let mut v_values;
@@ -379,12 +392,15 @@ unsafe fn avx_yuv_p16_to_rgba8_row_alpha_impl<
         let g_values = avx2_pack_u16(_mm256_store_shr_epi16_epi8::<BIT_DEPTH>(g_vals), zeros);
         let b_values = avx2_pack_u16(_mm256_store_shr_epi16_epi8::<BIT_DEPTH>(b_vals), zeros);
 
-        let a_values = avx2_pack_u16(
-            _mm256_store_shr_epi16_epi8::<BIT_DEPTH>(_mm256_loadu_si256(
-                a_plane.get_unchecked(cx..).as_ptr() as *const __m256i,
-            )),
-            zeros,
-        );
+        let mut a_vl = _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
+        #[cfg(feature = "big_endian")]
+        if _endianness == YuvEndianness::BigEndian {
+            a_vl = _mm256_shuffle_epi8(a_vl, big_endian_shuffle_flag);
+        }
+        if bytes_position == YuvBytesPacking::MostSignificantBytes {
+            a_vl = _mm256_from_msb_epi16::<BIT_DEPTH>(a_vl);
+        }
+        let a_values = avx2_pack_u16(_mm256_store_shr_epi16_epi8::<BIT_DEPTH>(a_vl), zeros);
 
         _mm256_store_interleave_rgb_half_for_yuv::<DESTINATION_CHANNELS>(
             dst_ptr.as_mut_ptr(),
diff --git a/src/sse/yuv_p16_to_rgb8_alpha.rs b/src/sse/yuv_p16_to_rgb8_alpha.rs
index 8dec168..dae77a8 100644
--- a/src/sse/yuv_p16_to_rgb8_alpha.rs
+++ b/src/sse/yuv_p16_to_rgb8_alpha.rs
@@ -33,7 +33,9 @@ use std::arch::x86::*;
 use std::arch::x86_64::*;
 
 use crate::internals::ProcessedOffset;
-use crate::sse::{_mm_from_msb_epi16, _mm_store_interleave_rgb_for_yuv, _mm_store_shr_epi16_epi8};
+use crate::sse::{
+    _mm_from_msb_epi16, _mm_store_interleave_half_rgb_for_yuv, _mm_store_shr_epi16_epi8,
+};
 use crate::yuv_support::{
     CbCrInverseTransform, YuvBytesPacking, YuvChromaRange, YuvChromaSubsampling, YuvEndianness,
     YuvSourceChannels,
@@ -210,14 +212,20 @@ unsafe fn sse_yuv_p16_to_rgba8_alpha_row_impl<
             _mm_setzero_si128(),
         );
 
+        let mut a_vl = _mm_loadu_si128(a_plane.get_unchecked(cx..).as_ptr() as *const __m128i);
+        #[cfg(feature = "big_endian")]
+        if _endianness == YuvEndianness::BigEndian {
+            a_vl = _mm_shuffle_epi8(a_vl, big_endian_shuffle_flag);
+        }
+        if bytes_position == YuvBytesPacking::MostSignificantBytes {
+            a_vl = _mm_from_msb_epi16::<BIT_DEPTH>(a_vl);
+        }
         let a_values = _mm_packus_epi16(
-            _mm_store_shr_epi16_epi8::<BIT_DEPTH>(_mm_loadu_si128(
-                a_plane.get_unchecked(cx..).as_ptr() as *const __m128i,
-            )),
+            _mm_store_shr_epi16_epi8::<BIT_DEPTH>(a_vl),
             _mm_setzero_si128(),
         );
 
-        _mm_store_interleave_rgb_for_yuv::<DESTINATION_CHANNELS>(
+        _mm_store_interleave_half_rgb_for_yuv::<DESTINATION_CHANNELS>(
             dst_ptr.as_mut_ptr(),
             r_values,
             g_values,
diff --git a/src/yuv_p16_rgba_alpha.rs b/src/yuv_p16_rgba_alpha.rs
index 52178d2..13c7d15 100644
--- a/src/yuv_p16_rgba_alpha.rs
+++ b/src/yuv_p16_rgba_alpha.rs
@@ -105,7 +105,7 @@ fn yuv_p16_to_image_alpha_ant<
     fn qrshr<const BIT_DEPTH: usize>(val: i32) -> i32 {
         let total_shift = PRECISION + (BIT_DEPTH as i32 - 8);
         let rounding: i32 = 1 << (total_shift - 1);
-        let max_value: i32 = (1 << BIT_DEPTH) - 1;
+        let max_value: i32 = 255;
         ((val + rounding) >> total_shift).min(max_value).max(0)
     }
 
@@ -231,7 +231,9 @@ fn yuv_p16_to_image_alpha_ant<
             rgba0[dst_chans.get_r_channel_offset()] = r0 as u8;
             rgba0[dst_chans.get_g_channel_offset()] = g0 as u8;
             rgba0[dst_chans.get_b_channel_offset()] = b0 as u8;
-            rgba0[dst_chans.get_a_channel_offset()] = (a_src[0] >> store_shift).min(255) as u8;
+            rgba0[dst_chans.get_a_channel_offset()] =
+                (to_ne::<ENDIANNESS, BYTES_POSITION>(a_src[0], msb_shift) >> store_shift).min(255)
+                    as u8;
 
             let y_value1 =
                 (to_ne::<ENDIANNESS, BYTES_POSITION>(y_src[1], msb_shift) as i32 - bias_y) * y_coef;
@@ -245,7 +247,9 @@ fn yuv_p16_to_image_alpha_ant<
             rgba1[dst_chans.get_r_channel_offset()] = r1 as u8;
             rgba1[dst_chans.get_g_channel_offset()] = g1 as u8;
             rgba1[dst_chans.get_b_channel_offset()] = b1 as u8;
-            rgba1[dst_chans.get_a_channel_offset()] = (a_src[1] >> store_shift).min(255) as u8;
+            rgba1[dst_chans.get_a_channel_offset()] =
+                (to_ne::<ENDIANNESS, BYTES_POSITION>(a_src[1], msb_shift) >> store_shift).min(255)
+                    as u8;
         }
 
         if image.width & 1 != 0 {
@@ -269,7 +273,9 @@ fn yuv_p16_to_image_alpha_ant<
             rgba0[dst_chans.get_r_channel_offset()] = r0 as u8;
             rgba0[dst_chans.get_g_channel_offset()] = g0 as u8;
             rgba0[dst_chans.get_b_channel_offset()] = b0 as u8;
-            rgba0[dst_chans.get_a_channel_offset()] = (a_value >> store_shift).min(255) as u8;
+            rgba0[dst_chans.get_a_channel_offset()] =
+                (to_ne::<ENDIANNESS, BYTES_POSITION>(a_value, msb_shift) >> store_shift).min(255)
+                    as u8;
         }
     };
 
@@ -320,7 +326,9 @@ fn yuv_p16_to_image_alpha_ant<
                 rgba[dst_chans.get_r_channel_offset()] = r as u8;
                 rgba[dst_chans.get_g_channel_offset()] = g as u8;
                 rgba[dst_chans.get_b_channel_offset()] = b as u8;
-                rgba[dst_chans.get_a_channel_offset()] = (a_src >> store_shift).min(255) as u8;
+                rgba[dst_chans.get_a_channel_offset()] =
+                    (to_ne::<ENDIANNESS, BYTES_POSITION>(a_src, msb_shift) >> store_shift).min(255)
+                        as u8;
             }
         });
     } else if chroma_subsampling == YuvChromaSubsampling::Yuv422 {
@@ -344,7 +352,13 @@ fn yuv_p16_to_image_alpha_ant<
                 .zip(image.v_plane.chunks_exact(image.v_stride as usize));
         }
         iter.for_each(|((((rgba, y_plane), a_plane), u_plane), v_plane)| {
-            process_halved_chroma_row(y_plane, u_plane, v_plane, a_plane, rgba);
+            process_halved_chroma_row(
+                &y_plane[0..image.width as usize],
+                &u_plane[0..(image.width as usize).div_ceil(2)],
+                &v_plane[0..(image.width as usize).div_ceil(2)],
+                &a_plane[0..image.width as usize],
+                &mut rgba[0..image.width as usize * channels],
+            );
         });
     } else if chroma_subsampling == YuvChromaSubsampling::Yuv420 {
         let iter;
-- 
2.43.0


From 372a8027d30072693a6ee59e538ca449c7076513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:20 +0000
Subject: [PATCH 12/27] fix: alpha plane handling when decoding high bit depth
 YUVA to RGBA16

---
 src/avx2/yuv_p16_to_rgb16_alpha.rs | 30 +++++++++++++++++++++++++++---
 src/sse/yuv_p16_to_rgb16_alpha.rs  |  9 ++++++++-
 src/yuv_p16_rgba16_alpha.rs        | 18 +++++++++++-------
 3 files changed, 46 insertions(+), 11 deletions(-)

diff --git a/src/avx2/yuv_p16_to_rgb16_alpha.rs b/src/avx2/yuv_p16_to_rgb16_alpha.rs
index 4b25b4b..ac7ad74 100644
--- a/src/avx2/yuv_p16_to_rgb16_alpha.rs
+++ b/src/avx2/yuv_p16_to_rgb16_alpha.rs
@@ -269,8 +269,24 @@ unsafe fn avx_yuv_p16_to_rgba_row_alpha_impl<
         let g_values1 = _mm256_min_epu16(zg1, v_max_colors);
         let b_values1 = _mm256_min_epu16(zb1, v_max_colors);
 
-        let a_values0 = _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
-        let a_values1 = _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
+        let mut a_values0 =
+            _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
+        #[cfg(feature = "big_endian")]
+        if _endianness == YuvEndianness::BigEndian {
+            a_values0 = _mm256_shuffle_epi8(a_values0, big_endian_shuffle_flag);
+        }
+        if bytes_position == YuvBytesPacking::MostSignificantBytes {
+            a_values0 = _mm256_from_msb_epi16::<BIT_DEPTH>(a_values0);
+        }
+        let mut a_values1 =
+            _mm256_loadu_si256(a_plane.get_unchecked((cx + 16)..).as_ptr() as *const __m256i);
+        #[cfg(feature = "big_endian")]
+        if _endianness == YuvEndianness::BigEndian {
+            a_values1 = _mm256_shuffle_epi8(a_values1, big_endian_shuffle_flag);
+        }
+        if bytes_position == YuvBytesPacking::MostSignificantBytes {
+            a_values1 = _mm256_from_msb_epi16::<BIT_DEPTH>(a_values1);
+        }
 
         _mm256_store_interleave_rgb16_for_yuv::<DESTINATION_CHANNELS>(
             dst_ptr.as_mut_ptr(),
@@ -379,7 +395,15 @@ unsafe fn avx_yuv_p16_to_rgba_row_alpha_impl<
         let g_values = _mm256_min_epu16(_mm256_max_epi16(g_vals, zeros), v_max_colors);
         let b_values = _mm256_min_epu16(_mm256_max_epi16(b_vals, zeros), v_max_colors);
 
-        let a_values = _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
+        let mut a_values =
+            _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
+        #[cfg(feature = "big_endian")]
+        if _endianness == YuvEndianness::BigEndian {
+            a_values = _mm256_shuffle_epi8(a_values, big_endian_shuffle_flag);
+        }
+        if bytes_position == YuvBytesPacking::MostSignificantBytes {
+            a_values = _mm256_from_msb_epi16::<BIT_DEPTH>(a_values);
+        }
 
         _mm256_store_interleave_rgb16_for_yuv::<DESTINATION_CHANNELS>(
             dst_ptr.as_mut_ptr(),
diff --git a/src/sse/yuv_p16_to_rgb16_alpha.rs b/src/sse/yuv_p16_to_rgb16_alpha.rs
index 4f73c89..05e36cc 100644
--- a/src/sse/yuv_p16_to_rgb16_alpha.rs
+++ b/src/sse/yuv_p16_to_rgb16_alpha.rs
@@ -207,7 +207,14 @@ unsafe fn sse_yuv_p16_to_rgba_alpha_row_impl<
         let g_values = _mm_min_epu16(_mm_max_epi16(g_vals, zeros), v_max_colors);
         let b_values = _mm_min_epu16(_mm_max_epi16(b_vals, zeros), v_max_colors);
 
-        let a_values = _mm_loadu_si128(a_plane.get_unchecked(cx..).as_ptr() as *const __m128i);
+        let mut a_values = _mm_loadu_si128(a_plane.get_unchecked(cx..).as_ptr() as *const __m128i);
+        #[cfg(feature = "big_endian")]
+        if _endianness == YuvEndianness::BigEndian {
+            a_values = _mm_shuffle_epi8(a_values, big_endian_shuffle_flag);
+        }
+        if bytes_position == YuvBytesPacking::MostSignificantBytes {
+            a_values = _mm_from_msb_epi16::<BIT_DEPTH>(a_values);
+        }
 
         _mm_store_interleave_rgb16_for_yuv::<DESTINATION_CHANNELS>(
             dst_ptr.as_mut_ptr(),
diff --git a/src/yuv_p16_rgba16_alpha.rs b/src/yuv_p16_rgba16_alpha.rs
index 936bfaf..2043ac8 100644
--- a/src/yuv_p16_rgba16_alpha.rs
+++ b/src/yuv_p16_rgba16_alpha.rs
@@ -247,7 +247,8 @@ fn yuv_p16_to_image_alpha_ant<
             rgba0[dst_chans.get_r_channel_offset()] = r0 as u16;
             rgba0[dst_chans.get_g_channel_offset()] = g0 as u16;
             rgba0[dst_chans.get_b_channel_offset()] = b0 as u16;
-            rgba0[dst_chans.get_a_channel_offset()] = a_src[0];
+            rgba0[dst_chans.get_a_channel_offset()] =
+                to_ne::<ENDIANNESS, BYTES_POSITION>(a_src[0], msb_shift);
 
             let y_value1 =
                 (to_ne::<ENDIANNESS, BYTES_POSITION>(y_src[1], msb_shift) as i32 - bias_y) * y_coef;
@@ -262,7 +263,8 @@ fn yuv_p16_to_image_alpha_ant<
             rgba1[dst_chans.get_r_channel_offset()] = r1 as u16;
             rgba1[dst_chans.get_g_channel_offset()] = g1 as u16;
             rgba1[dst_chans.get_b_channel_offset()] = b1 as u16;
-            rgba1[dst_chans.get_a_channel_offset()] = a_src[1];
+            rgba1[dst_chans.get_a_channel_offset()] =
+                to_ne::<ENDIANNESS, BYTES_POSITION>(a_src[1], msb_shift);
         }
 
         if image.width & 1 != 0 {
@@ -287,7 +289,8 @@ fn yuv_p16_to_image_alpha_ant<
             rgba0[dst_chans.get_r_channel_offset()] = r0 as u16;
             rgba0[dst_chans.get_g_channel_offset()] = g0 as u16;
             rgba0[dst_chans.get_b_channel_offset()] = b0 as u16;
-            rgba0[dst_chans.get_a_channel_offset()] = a_value;
+            rgba0[dst_chans.get_a_channel_offset()] =
+                to_ne::<ENDIANNESS, BYTES_POSITION>(a_value, msb_shift);
         }
     };
 
@@ -340,7 +343,8 @@ fn yuv_p16_to_image_alpha_ant<
                 rgba[dst_chans.get_r_channel_offset()] = r as u16;
                 rgba[dst_chans.get_g_channel_offset()] = g as u16;
                 rgba[dst_chans.get_b_channel_offset()] = b as u16;
-                rgba[dst_chans.get_a_channel_offset()] = a_src;
+                rgba[dst_chans.get_a_channel_offset()] =
+                    to_ne::<ENDIANNESS, BYTES_POSITION>(a_src, msb_shift);
             }
         });
     } else if chroma_subsampling == YuvChromaSubsampling::Yuv422 {
@@ -521,7 +525,7 @@ d_cnv!(
     i210_alpha_be_to_rgba10,
     YuvSourceChannels::Rgba,
     YuvChromaSubsampling::Yuv422,
-    YuvEndianness::LittleEndian,
+    YuvEndianness::BigEndian,
     "I210ABE",
     "RGBA",
     "rgba",
@@ -607,7 +611,7 @@ d_cnv!(
     i212_be_alpha_to_rgba12,
     YuvSourceChannels::Rgba,
     YuvChromaSubsampling::Yuv422,
-    YuvEndianness::LittleEndian,
+    YuvEndianness::BigEndian,
     "I212ABE",
     "RGBA",
     "rgba",
@@ -628,7 +632,7 @@ d_cnv!(
     i214_be_alpha_to_rgba14,
     YuvSourceChannels::Rgba,
     YuvChromaSubsampling::Yuv422,
-    YuvEndianness::LittleEndian,
+    YuvEndianness::BigEndian,
     "I214ABE",
     "RGBA",
     "rgba",
-- 
2.43.0


From 04a452db725538ff69e42bca4d63bfa17cda8973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:35 +0000
Subject: [PATCH 13/27] fix: chroma wiring, row slicing and last samples when
 encoding high bit depth RGB

---
 src/rgb16_to_yuv_p16.rs | 11 ++++++++---
 src/rgb_to_nv_p16.rs    |  5 +++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/rgb16_to_yuv_p16.rs b/src/rgb16_to_yuv_p16.rs
index ccd974d..ad0b794 100644
--- a/src/rgb16_to_yuv_p16.rs
+++ b/src/rgb16_to_yuv_p16.rs
@@ -642,7 +642,7 @@ fn rgbx_to_yuv_ant<
             let r11 = rgba11[src_chans.get_r_channel_offset()] as i32;
             let g11 = rgba11[src_chans.get_g_channel_offset()] as i32;
             let b11 = rgba11[src_chans.get_b_channel_offset()] as i32;
-            let y_11 = (r01 * transform.yr + g01 * transform.yg + b01 * transform.yb + bias_y)
+            let y_11 = (r11 * transform.yr + g11 * transform.yg + b11 * transform.yb + bias_y)
                 >> PRECISION;
             y_dst1[1] = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_11);
 
@@ -780,7 +780,12 @@ fn rgbx_to_yuv_ant<
         }
 
         iter.for_each(|(((y_plane, u_plane), v_plane), rgba)| {
-            process_halved_chroma_row(y_plane, u_plane, v_plane, rgba);
+            process_halved_chroma_row(
+                &mut y_plane[0..image.width as usize],
+                &mut u_plane[0..(image.width as usize).div_ceil(2)],
+                &mut v_plane[0..(image.width as usize).div_ceil(2)],
+                &rgba[0..image.width as usize * channels],
+            );
         });
     } else if chroma_subsampling == YuvChromaSubsampling::Yuv420 {
         let iter;
@@ -1069,7 +1074,7 @@ d_cvn!(
 d_cvn!(
     rgba12_to_i212_be,
     YuvSourceChannels::Rgba,
-    YuvChromaSubsampling::Yuv420,
+    YuvChromaSubsampling::Yuv422,
     "I212",
     "RGBA12",
     "rgba12",
diff --git a/src/rgb_to_nv_p16.rs b/src/rgb_to_nv_p16.rs
index dfb28b7..2241d99 100644
--- a/src/rgb_to_nv_p16.rs
+++ b/src/rgb_to_nv_p16.rs
@@ -189,6 +189,7 @@ where
             let rgba1 = &rgba1[0..channels];
             let uv_dst = uv_dst.chunks_exact_mut(2).last().unwrap();
             let y_dst0 = y_dst0.chunks_exact_mut(2).into_remainder();
+            let y_dst1 = y_dst1.chunks_exact_mut(2).into_remainder();
 
             let r0 = rgba0[src_chans.get_r_channel_offset()] as i32;
             let g0 = rgba0[src_chans.get_g_channel_offset()] as i32;
@@ -611,7 +612,7 @@ d_cnv!(
 d_cnv!(
     rgba16_to_p216,
     YuvSourceChannels::Rgba,
-    YuvChromaSubsampling::Yuv420,
+    YuvChromaSubsampling::Yuv422,
     "P216",
     "RGBA",
     16,
@@ -620,7 +621,7 @@ d_cnv!(
 d_cnv!(
     rgb16_to_p216,
     YuvSourceChannels::Rgb,
-    YuvChromaSubsampling::Yuv420,
+    YuvChromaSubsampling::Yuv422,
     "P216",
     "RGB",
     16,
-- 
2.43.0


From 6570dee21a646831b7de36a05a89aa455ea5b525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:35 +0000
Subject: [PATCH 14/27] fix: store the remaining chroma columns in the AVX-512
 RGB16 to planar YUV kernel

---
 src/avx512bw/rgb_to_yuv_p16.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/avx512bw/rgb_to_yuv_p16.rs b/src/avx512bw/rgb_to_yuv_p16.rs
index 84adfe3..9ea1092 100644
--- a/src/avx512bw/rgb_to_yuv_p16.rs
+++ b/src/avx512bw/rgb_to_yuv_p16.rs
@@ -307,8 +307,6 @@ unsafe fn avx_rgba_to_yuv_impl<
         let diff = width - cx;
         assert!(diff <= 32);
         let mut src_buffer: [u16; 32 * 4] = [0; 32 * 4];
-        let mut u_buffer: [u16; 32] = [0; 32];
-        let mut v_buffer: [u16; 32] = [0; 32];
 
         // Replicate last item to one more position for subsampling
         if chroma_subsampling != YuvChromaSubsampling::Yuv444 && diff % 2 != 0 {
@@ -378,8 +376,16 @@ unsafe fn avx_rgba_to_yuv_impl<
                 cr_vl = _mm512_shuffle_epi8(cr_vl, big_endian_shuffle_flag);
             }
 
-            _mm512_mask_storeu_epi16(u_buffer.as_mut_ptr() as *mut _, mask, cb_vl);
-            _mm512_mask_storeu_epi16(v_buffer.as_mut_ptr() as *mut _, mask, cr_vl);
+            _mm512_mask_storeu_epi16(
+                u_plane.get_unchecked_mut(ux..).as_mut_ptr() as *mut _,
+                mask,
+                cb_vl,
+            );
+            _mm512_mask_storeu_epi16(
+                v_plane.get_unchecked_mut(ux..).as_mut_ptr() as *mut _,
+                mask,
+                cr_vl,
+            );
         } else {
             let r_values = _mm512_havg_epi16_epi32(r_values);
             let g_values = _mm512_havg_epi16_epi32(g_values);
@@ -408,8 +414,16 @@ unsafe fn avx_rgba_to_yuv_impl<
 
             let halved_mask = 0xffff_ffffu32 >> (32 - diff.div_ceil(2) as u32);
 
-            _mm512_mask_storeu_epi16(u_buffer.as_mut_ptr() as *mut _, halved_mask, cb_s);
-            _mm512_mask_storeu_epi16(v_buffer.as_mut_ptr() as *mut _, halved_mask, cr_s);
+            _mm512_mask_storeu_epi16(
+                u_plane.get_unchecked_mut(ux..).as_mut_ptr() as *mut _,
+                halved_mask,
+                cb_s,
+            );
+            _mm512_mask_storeu_epi16(
+                v_plane.get_unchecked_mut(ux..).as_mut_ptr() as *mut _,
+                halved_mask,
+                cr_s,
+            );
         }
 
         cx += diff;
-- 
2.43.0


From 7915eadb619f23f1ccf962bde40c547b62701c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:35 +0000
Subject: [PATCH 15/27] fix: take the green of the second row in the SSE RGB16
 to 4:2:0 kernel

---
 src/sse/rgb_to_yuv_p16_420.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sse/rgb_to_yuv_p16_420.rs b/src/sse/rgb_to_yuv_p16_420.rs
index a1310b7..244af76 100644
--- a/src/sse/rgb_to_yuv_p16_420.rs
+++ b/src/sse/rgb_to_yuv_p16_420.rs
@@ -126,7 +126,7 @@ unsafe fn sse_rgba_to_yuv_impl<
         let mut y0_vl =
             _mm_affine_v_dot::<PRECISION>(y_bias, r_g_lo0, r_g_hi0, b_lo0, b_hi0, v_yr_yg, v_yb);
 
-        let (r_g_lo1, r_g_hi1) = _mm_interleave_epi16(r_values1, g_values0);
+        let (r_g_lo1, r_g_hi1) = _mm_interleave_epi16(r_values1, g_values1);
         let b_hi1 = _mm_unpackhi_epi16(b_values1, zeros);
         let b_lo1 = _mm_unpacklo_epi16(b_values1, zeros);
 
@@ -240,7 +240,7 @@ unsafe fn sse_rgba_to_yuv_impl<
         let mut y0_vl =
             _mm_affine_v_dot::<PRECISION>(y_bias, r_g_lo0, r_g_hi0, b_lo0, b_hi0, v_yr_yg, v_yb);
 
-        let (r_g_lo1, r_g_hi1) = _mm_interleave_epi16(r_values1, g_values0);
+        let (r_g_lo1, r_g_hi1) = _mm_interleave_epi16(r_values1, g_values1);
         let b_hi1 = _mm_unpackhi_epi16(b_values1, zeros);
         let b_lo1 = _mm_unpacklo_epi16(b_values1, zeros);
 
-- 
2.43.0


From e2720942229885125e85f3d14676b436d1e6f549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:09 +0000
Subject: [PATCH 16/27] fix: widen chroma by 16-bit lanes in the SSE high bit
 depth NV kernel

---
 src/sse/yuv_nv_p16_to_rgb.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sse/yuv_nv_p16_to_rgb.rs b/src/sse/yuv_nv_p16_to_rgb.rs
index a3d77f3..31bf7b3 100644
--- a/src/sse/yuv_nv_p16_to_rgb.rs
+++ b/src/sse/yuv_nv_p16_to_rgb.rs
@@ -177,8 +177,8 @@ unsafe fn sse_yuv_nv_p16_to_rgba_row_impl<
                 let u_values_c = _mm_sub_epi16(u_vl, uv_corr);
                 let v_values_c = _mm_sub_epi16(v_vl, uv_corr);
 
-                let u_values_32 = _mm_unpacklo_epi32(u_values_c, _mm_setzero_si128());
-                let v_values_32 = _mm_unpacklo_epi32(v_values_c, _mm_setzero_si128());
+                let u_values_32 = _mm_unpacklo_epi16(u_values_c, zeros);
+                let v_values_32 = _mm_unpacklo_epi16(v_values_c, zeros);
 
                 u_high = _mm_unpackhi_epi32(u_values_32, u_values_32);
                 v_high = _mm_unpackhi_epi32(v_values_32, v_values_32);
@@ -213,8 +213,8 @@ unsafe fn sse_yuv_nv_p16_to_rgba_row_impl<
                 let v_values_c = _mm_sub_epi16(v_vl, uv_corr_q);
                 u_high = _mm_unpackhi_epi16(u_values_c, zeros);
                 v_high = _mm_unpackhi_epi16(v_values_c, zeros);
-                u_low = _mm_unpacklo_epi32(u_values_c, _mm_setzero_si128());
-                v_low = _mm_unpacklo_epi32(v_values_c, _mm_setzero_si128());
+                u_low = _mm_unpacklo_epi16(u_values_c, zeros);
+                v_low = _mm_unpacklo_epi16(v_values_c, zeros);
             }
         }
 
-- 
2.43.0


From 8ba8474b226e439dbd5e196bae923ccd8a1f6bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:29 +0000
Subject: [PATCH 17/27] fix: scale 12 and 14-bit YUV to the 10-bit fields of
 AR30/RA30 and leave row padding alone

---
 src/numerics.rs           |  6 ++++++
 src/yuv_nv_p10_to_ar30.rs | 26 +++++++++++++-------------
 src/yuv_p16_ar30.rs       | 35 ++++++++++++++++++-----------------
 3 files changed, 37 insertions(+), 30 deletions(-)

diff --git a/src/numerics.rs b/src/numerics.rs
index 4e9e65f..a20af04 100644
--- a/src/numerics.rs
+++ b/src/numerics.rs
@@ -38,6 +38,12 @@ pub(crate) fn qrshr<const PRECISION: i32, const BIT_DEPTH: usize>(val: i32) -> i
     ((val + rounding) >> PRECISION).min(max_value).max(0)
 }
 
+#[inline(always)]
+/// Rounding shift of a `BIT_DEPTH` fixed point value, rescaled to 10-bit fields of AR30
+pub(crate) fn qrshr_to_ar30<const PRECISION: i32, const BIT_DEPTH: usize>(val: i32) -> i32 {
+    qrshr::<PRECISION, BIT_DEPTH>(val) >> (BIT_DEPTH - 10)
+}
+
 #[inline]
 /// Integer division by 255 with rounding to nearest
 pub(crate) fn div_by_255(v: u16) -> u8 {
diff --git a/src/yuv_nv_p10_to_ar30.rs b/src/yuv_nv_p10_to_ar30.rs
index eb4e8dc..7125504 100644
--- a/src/yuv_nv_p10_to_ar30.rs
+++ b/src/yuv_nv_p10_to_ar30.rs
@@ -27,7 +27,7 @@
  * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
 use crate::internals::{ProcessedOffset, RowDBiPlanarInversionHandler};
-use crate::numerics::{qrshr, to_ne};
+use crate::numerics::{qrshr_to_ar30, to_ne};
 use crate::yuv_error::check_rgba_destination;
 use crate::yuv_support::*;
 use crate::{YuvBiPlanarImage, YuvError};
@@ -224,9 +224,9 @@ fn yuv_nv_p10_to_image_impl_d<
                 cb_value -= bias_uv;
                 cr_value -= bias_uv;
 
-                let r_p0 = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value0 + cr_coef * cr_value);
-                let b_p0 = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value0 + cb_coef * cb_value);
-                let g_p0 = qrshr::<BACK_SHIFT, BIT_DEPTH>(
+                let r_p0 = qrshr_to_ar30::<BACK_SHIFT, BIT_DEPTH>(y_value0 + cr_coef * cr_value);
+                let b_p0 = qrshr_to_ar30::<BACK_SHIFT, BIT_DEPTH>(y_value0 + cb_coef * cb_value);
+                let g_p0 = qrshr_to_ar30::<BACK_SHIFT, BIT_DEPTH>(
                     y_value0 - g_coef_1 * cr_value - g_coef_2 * cb_value,
                 );
 
@@ -242,9 +242,9 @@ fn yuv_nv_p10_to_image_impl_d<
 
                 let y_value1: i32 = (y_vl1 - bias_y) * y_coef;
 
-                let r_p1 = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value1 + cr_coef * cr_value);
-                let b_p1 = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value1 + cb_coef * cb_value);
-                let g_p1 = qrshr::<BACK_SHIFT, BIT_DEPTH>(
+                let r_p1 = qrshr_to_ar30::<BACK_SHIFT, BIT_DEPTH>(y_value1 + cr_coef * cr_value);
+                let b_p1 = qrshr_to_ar30::<BACK_SHIFT, BIT_DEPTH>(y_value1 + cb_coef * cb_value);
+                let g_p1 = qrshr_to_ar30::<BACK_SHIFT, BIT_DEPTH>(
                     y_value1 - g_coef_1 * cr_value - g_coef_2 * cb_value,
                 );
 
@@ -277,9 +277,9 @@ fn yuv_nv_p10_to_image_impl_d<
                 cb_value -= bias_uv;
                 cr_value -= bias_uv;
 
-                let r_p0 = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value0 + cr_coef * cr_value);
-                let b_p0 = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value0 + cb_coef * cb_value);
-                let g_p0 = qrshr::<BACK_SHIFT, BIT_DEPTH>(
+                let r_p0 = qrshr_to_ar30::<BACK_SHIFT, BIT_DEPTH>(y_value0 + cr_coef * cr_value);
+                let b_p0 = qrshr_to_ar30::<BACK_SHIFT, BIT_DEPTH>(y_value0 + cb_coef * cb_value);
+                let g_p0 = qrshr_to_ar30::<BACK_SHIFT, BIT_DEPTH>(
                     y_value0 - g_coef_1 * cr_value - g_coef_2 * cb_value,
                 );
 
@@ -347,9 +347,9 @@ fn yuv_nv_p10_to_image_impl_d<
                     cb_value -= bias_uv;
                     cr_value -= bias_uv;
 
-                    let r_p = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value + cr_coef * cr_value);
-                    let b_p = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value + cb_coef * cb_value);
-                    let g_p = qrshr::<BACK_SHIFT, BIT_DEPTH>(
+                    let r_p = qrshr_to_ar30::<BACK_SHIFT, BIT_DEPTH>(y_value + cr_coef * cr_value);
+                    let b_p = qrshr_to_ar30::<BACK_SHIFT, BIT_DEPTH>(y_value + cb_coef * cb_value);
+                    let g_p = qrshr_to_ar30::<BACK_SHIFT, BIT_DEPTH>(
                         y_value - g_coef_1 * cr_value - g_coef_2 * cb_value,
                     );
 
diff --git a/src/yuv_p16_ar30.rs b/src/yuv_p16_ar30.rs
index f30c8d6..a86af2f 100644
--- a/src/yuv_p16_ar30.rs
+++ b/src/yuv_p16_ar30.rs
@@ -26,7 +26,7 @@
  * OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
  * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
-use crate::numerics::{qrshr, to_ne};
+use crate::numerics::{qrshr_to_ar30, to_ne};
 use crate::yuv_error::check_rgba_destination;
 use crate::yuv_support::{
     get_yuv_range, search_inverse_transform, Rgb30, YuvBytesPacking, YuvChromaSubsampling,
@@ -61,7 +61,6 @@ fn yuv_p16_to_image_ar30<
     check_rgba_destination(rgba, rgba_stride, image.width, image.height, 4)?;
 
     let kr_kb = matrix.get_kr_kb();
-    const AR30_DEPTH: usize = 10;
     const PRECISION: i32 = 14;
     let i_transform = search_inverse_transform(
         PRECISION,
@@ -97,9 +96,9 @@ fn yuv_p16_to_image_ar30<
             let cb_value = to_ne::<ENDIANNESS, BYTES_POSITION>(u_src, msb_shift) as i32 - bias_uv;
             let cr_value = to_ne::<ENDIANNESS, BYTES_POSITION>(v_src, msb_shift) as i32 - bias_uv;
 
-            let r0 = qrshr::<PRECISION, AR30_DEPTH>(y_value0 + cr_coef * cr_value);
-            let b0 = qrshr::<PRECISION, AR30_DEPTH>(y_value0 + cb_coef * cb_value);
-            let g0 = qrshr::<PRECISION, AR30_DEPTH>(
+            let r0 = qrshr_to_ar30::<PRECISION, BIT_DEPTH>(y_value0 + cr_coef * cr_value);
+            let b0 = qrshr_to_ar30::<PRECISION, BIT_DEPTH>(y_value0 + cb_coef * cb_value);
+            let g0 = qrshr_to_ar30::<PRECISION, BIT_DEPTH>(
                 y_value0 - g_coef_1 * cr_value - g_coef_2 * cb_value,
             );
 
@@ -114,10 +113,11 @@ fn yuv_p16_to_image_ar30<
             let y_value1 =
                 (to_ne::<ENDIANNESS, BYTES_POSITION>(y_src[1], msb_shift) as i32 - bias_y) * y_coef;
 
-            let r1 = qrshr::<PRECISION, BIT_DEPTH>(y_value1 + cr_coef * cr_value);
-            let b1 = qrshr::<PRECISION, BIT_DEPTH>(y_value1 + cb_coef * cb_value);
-            let g1 =
-                qrshr::<PRECISION, BIT_DEPTH>(y_value1 - g_coef_1 * cr_value - g_coef_2 * cb_value);
+            let r1 = qrshr_to_ar30::<PRECISION, BIT_DEPTH>(y_value1 + cr_coef * cr_value);
+            let b1 = qrshr_to_ar30::<PRECISION, BIT_DEPTH>(y_value1 + cb_coef * cb_value);
+            let g1 = qrshr_to_ar30::<PRECISION, BIT_DEPTH>(
+                y_value1 - g_coef_1 * cr_value - g_coef_2 * cb_value,
+            );
 
             let pixel1 = ar30_layout.pack::<AR30_STORE>(r1, g1, b1).to_ne_bytes();
             rgba_2[4] = pixel1[0];
@@ -139,10 +139,11 @@ fn yuv_p16_to_image_ar30<
                 - bias_uv;
             let rgba = rgba.chunks_exact_mut(4).last().unwrap();
 
-            let r0 = qrshr::<PRECISION, BIT_DEPTH>(y_value0 + cr_coef * cr_value);
-            let b0 = qrshr::<PRECISION, BIT_DEPTH>(y_value0 + cb_coef * cb_value);
-            let g0 =
-                qrshr::<PRECISION, BIT_DEPTH>(y_value0 - g_coef_1 * cr_value - g_coef_2 * cb_value);
+            let r0 = qrshr_to_ar30::<PRECISION, BIT_DEPTH>(y_value0 + cr_coef * cr_value);
+            let b0 = qrshr_to_ar30::<PRECISION, BIT_DEPTH>(y_value0 + cb_coef * cb_value);
+            let g0 = qrshr_to_ar30::<PRECISION, BIT_DEPTH>(
+                y_value0 - g_coef_1 * cr_value - g_coef_2 * cb_value,
+            );
             let pixel0 = ar30_layout.pack::<AR30_STORE>(r0, g0, b0).to_ne_bytes();
             rgba[0] = pixel0[0];
             rgba[1] = pixel0[1];
@@ -172,7 +173,7 @@ fn yuv_p16_to_image_ar30<
         iter.for_each(|(((rgba, y_plane), u_plane), v_plane)| {
             for (((rgba, &y_src), &u_src), &v_src) in rgba
                 .chunks_exact_mut(4)
-                .zip(y_plane.iter())
+                .zip(y_plane[0..image.width as usize].iter())
                 .zip(u_plane.iter())
                 .zip(v_plane.iter())
             {
@@ -184,9 +185,9 @@ fn yuv_p16_to_image_ar30<
                 let cr_value =
                     to_ne::<ENDIANNESS, BYTES_POSITION>(v_src, msb_shift) as i32 - bias_uv;
 
-                let r = qrshr::<PRECISION, BIT_DEPTH>(y_value + cr_coef * cr_value);
-                let b = qrshr::<PRECISION, BIT_DEPTH>(y_value + cb_coef * cb_value);
-                let g = qrshr::<PRECISION, BIT_DEPTH>(
+                let r = qrshr_to_ar30::<PRECISION, BIT_DEPTH>(y_value + cr_coef * cr_value);
+                let b = qrshr_to_ar30::<PRECISION, BIT_DEPTH>(y_value + cb_coef * cb_value);
+                let g = qrshr_to_ar30::<PRECISION, BIT_DEPTH>(
                     y_value - g_coef_1 * cr_value - g_coef_2 * cb_value,
                 );
 
-- 
2.43.0


From 4e11af0994fa71df2d42cbc5ec1f177f6f4007d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:47 +0000
Subject: [PATCH 18/27] fix: do not round normalized values in AVX2 u8 to f16,
 clamp f16 to the requested bit depth

---
 src/avx2/f16_converter.rs | 19 +++++++++----------
 src/f16_converter.rs      |  2 +-
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/avx2/f16_converter.rs b/src/avx2/f16_converter.rs
index 85b867f..b24270f 100644
--- a/src/avx2/f16_converter.rs
+++ b/src/avx2/f16_converter.rs
@@ -130,11 +130,8 @@ impl SurfaceU8ToFloat16Avx2 {
             let lc_ps = _mm256_cvtepi32_ps(l_e32);
             let hc_ps = _mm256_cvtepi32_ps(h_e32);
 
-            let mut ls_ps = _mm256_mul_ps(lc_ps, v_scale_h);
-            let mut hs_ps = _mm256_mul_ps(hc_ps, v_scale_h);
-
-            ls_ps = _mm256_round_ps::<0x0>(ls_ps);
-            hs_ps = _mm256_round_ps::<0x0>(hs_ps);
+            let ls_ps = _mm256_mul_ps(lc_ps, v_scale_h);
+            let hs_ps = _mm256_mul_ps(hc_ps, v_scale_h);
 
             let lo = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(ls_ps);
             let hi = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(hs_ps);
@@ -153,8 +150,9 @@ impl SurfaceU8ToFloat16Avx2 {
                 _mm_setzero_si128(),
             );
 
-            let lo = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(_mm256_round_ps::<0x0>(
-                _mm256_mul_ps(_mm256_cvtepi32_ps(_mm256_cvtepi16_epi32(items)), v_scale_h),
+            let lo = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(_mm256_mul_ps(
+                _mm256_cvtepi32_ps(_mm256_cvtepi16_epi32(items)),
+                v_scale_h,
             ));
 
             _mm_storeu_si128(dst.as_mut_ptr() as *mut _, lo);
@@ -171,13 +169,14 @@ impl SurfaceU8ToFloat16Avx2 {
 
             std::ptr::copy_nonoverlapping(src_rem.as_ptr(), src_buffer.as_mut_ptr(), src_rem.len());
 
-            let items = _mm_unpacklo_epi16(
+            let items = _mm_unpacklo_epi8(
                 _mm_loadu_si64(src_buffer.as_ptr() as *const _),
                 _mm_setzero_si128(),
             );
 
-            let lo = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(_mm256_round_ps::<0x0>(
-                _mm256_mul_ps(_mm256_cvtepi32_ps(_mm256_cvtepi16_epi32(items)), v_scale_h),
+            let lo = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(_mm256_mul_ps(
+                _mm256_cvtepi32_ps(_mm256_cvtepi16_epi32(items)),
+                v_scale_h,
             ));
 
             _mm_storeu_si128(dst_buffer.as_mut_ptr() as *mut _, lo);
diff --git a/src/f16_converter.rs b/src/f16_converter.rs
index 0669d5f..27c616b 100644
--- a/src/f16_converter.rs
+++ b/src/f16_converter.rs
@@ -202,7 +202,7 @@ where
         use num_traits::AsPrimitive;
         let scale_f32 = ((1 << (bit_depth)) - 1) as f32;
         for (src, dst) in src.iter().zip(dst.iter_mut()) {
-            let src_f32 = (*src as f32 * scale_f32).round();
+            let src_f32 = (*src as f32 * scale_f32).round().clamp(0., scale_f32);
             *dst = src_f32.as_();
         }
     }
-- 
2.43.0


From 9a4f24ceb442aab94a66ebe470593fa0689a0083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:29 +0000
Subject: [PATCH 19/27] fix: opaque alpha and 16-bit range in conversions to
 f16

---
 src/avx2/yuv_p16_to_rgb_f16.rs |  5 ++-
 src/from_identity_alpha_f16.rs | 68 ++++++++++++++++------------------
 src/from_identity_f16.rs       | 58 ++++++++++++++---------------
 3 files changed, 62 insertions(+), 69 deletions(-)

diff --git a/src/avx2/yuv_p16_to_rgb_f16.rs b/src/avx2/yuv_p16_to_rgb_f16.rs
index 42f3cdc..974ef36 100644
--- a/src/avx2/yuv_p16_to_rgb_f16.rs
+++ b/src/avx2/yuv_p16_to_rgb_f16.rs
@@ -106,6 +106,7 @@ unsafe fn avx_yuv_p16_to_rgba_row_impl<
     const D: bool = false;
 
     let v_max_colors = _mm256_set1_epi16(((1i32 << BIT_DEPTH as i32) - 1i32) as i16);
+    let v_alpha = _mm256_set1_epi16((1f32 as f16).to_bits() as i16);
     let v_luma_coeff = if BIT_DEPTH == 16 {
         _mm256_set1_epi32(transform.y_coef)
     } else {
@@ -279,7 +280,7 @@ unsafe fn avx_yuv_p16_to_rgba_row_impl<
             _mm256_setr_m128i(r_lo, r_hi),
             _mm256_setr_m128i(g_lo, g_hi),
             _mm256_setr_m128i(b_lo, b_hi),
-            v_max_colors,
+            v_alpha,
         );
 
         cx += 16;
@@ -466,7 +467,7 @@ unsafe fn avx_yuv_p16_to_rgba_row_impl<
             _mm256_setr_m128i(r_lo, r_hi),
             _mm256_setr_m128i(g_lo, g_hi),
             _mm256_setr_m128i(b_lo, b_hi),
-            v_max_colors,
+            v_alpha,
         );
 
         std::ptr::copy_nonoverlapping(buffer.as_ptr(), dst_ptr.as_mut_ptr(), diff * channels);
diff --git a/src/from_identity_alpha_f16.rs b/src/from_identity_alpha_f16.rs
index 3e31081..58ca54a 100644
--- a/src/from_identity_alpha_f16.rs
+++ b/src/from_identity_alpha_f16.rs
@@ -41,7 +41,7 @@ use std::marker::PhantomData;
 use std::mem::size_of;
 use std::ops::Sub;
 
-trait FullRowHandle<V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF16> {
+trait FullRowHandle<V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF32> {
     unsafe fn process_row(
         &self,
         dst: &mut [f16],
@@ -52,17 +52,13 @@ trait FullRowHandle<V: Copy + 'static + Sized + Debug + Send + Sync + Default +
     );
 }
 
-trait CastableToF16 {
-    fn cast_to_f16<const BIT_DEPTH: usize>(self) -> f16;
+trait CastableToF32 {
+    fn cast_to_f32(self) -> f32;
 }
 
-impl CastableToF16 for u16 {
-    fn cast_to_f16<const BIT_DEPTH: usize>(self) -> f16 {
-        if BIT_DEPTH == 16 {
-            (self as i32) as f16
-        } else {
-            (self as i16) as f16
-        }
+impl CastableToF32 for u16 {
+    fn cast_to_f32(self) -> f32 {
+        self as f32
     }
 }
 
@@ -87,7 +83,7 @@ macro_rules! exec_cv_full {
     ($dst: expr, $y_src: expr, $u_src: expr, $v_src: expr, $a_src: expr, $cn: expr, $bit_depth: expr) => {
         let max_value = (1 << $bit_depth) - 1;
         let rgb_chunks = $dst.chunks_exact_mut($cn.get_channels_count());
-        let scale = (1f32 / max_value as f32) as f16;
+        let scale = 1f32 / max_value as f32;
 
         for ((((&y_src, &u_src), &v_src), rgb_dst), a_src) in $y_src
             .iter()
@@ -96,10 +92,10 @@ macro_rules! exec_cv_full {
             .zip(rgb_chunks)
             .zip($a_src)
         {
-            rgb_dst[$cn.get_r_channel_offset()] = v_src.cast_to_f16::<$bit_depth>() * scale;
-            rgb_dst[$cn.get_g_channel_offset()] = y_src.cast_to_f16::<$bit_depth>() * scale;
-            rgb_dst[$cn.get_b_channel_offset()] = u_src.cast_to_f16::<$bit_depth>() * scale;
-            rgb_dst[$cn.get_a_channel_offset()] = a_src.cast_to_f16::<$bit_depth>() * scale;
+            rgb_dst[$cn.get_r_channel_offset()] = (v_src.cast_to_f32() * scale) as f16;
+            rgb_dst[$cn.get_g_channel_offset()] = (y_src.cast_to_f32() * scale) as f16;
+            rgb_dst[$cn.get_b_channel_offset()] = (u_src.cast_to_f32() * scale) as f16;
+            rgb_dst[$cn.get_a_channel_offset()] = (a_src.cast_to_f32() * scale) as f16;
         }
     };
 }
@@ -108,7 +104,7 @@ macro_rules! exec_cv_limited {
     ($dst: expr, $y_src: expr, $u_src: expr, $v_src: expr, $a_src: expr, $cn: expr, $bit_depth: expr, $y_bias: expr, $y_coef: expr, $precision: expr) => {
         let max_value = (1 << $bit_depth) - 1;
         let rgb_chunks = $dst.chunks_exact_mut($cn.get_channels_count());
-        let scale = (1f32 / max_value as f32) as f16;
+        let scale = 1f32 / max_value as f32;
 
         for ((((&y_src, &u_src), &v_src), rgb_dst), a_src) in $y_src
             .iter()
@@ -118,25 +114,25 @@ macro_rules! exec_cv_limited {
             .zip($a_src)
         {
             rgb_dst[$cn.get_r_channel_offset()] =
-                qrshr::<$precision, $bit_depth>((v_src.as_() - $y_bias).as_() * $y_coef as i32)
-                    as f16
-                    * scale;
+                (qrshr::<$precision, $bit_depth>((v_src.as_() - $y_bias).as_() * $y_coef as i32)
+                    as f32
+                    * scale) as f16;
             rgb_dst[$cn.get_g_channel_offset()] =
-                qrshr::<$precision, $bit_depth>((y_src.as_() - $y_bias).as_() * $y_coef as i32)
-                    as f16
-                    * scale;
+                (qrshr::<$precision, $bit_depth>((y_src.as_() - $y_bias).as_() * $y_coef as i32)
+                    as f32
+                    * scale) as f16;
             rgb_dst[$cn.get_b_channel_offset()] =
-                qrshr::<$precision, $bit_depth>((u_src.as_() - $y_bias).as_() * $y_coef as i32)
-                    as f16
-                    * scale;
-            rgb_dst[$cn.get_a_channel_offset()] = a_src.cast_to_f16::<$bit_depth>() * scale;
+                (qrshr::<$precision, $bit_depth>((u_src.as_() - $y_bias).as_() * $y_coef as i32)
+                    as f32
+                    * scale) as f16;
+            rgb_dst[$cn.get_a_channel_offset()] = (a_src.cast_to_f32() * scale) as f16;
         }
     };
 }
 
 #[derive(Default)]
 struct DefaultFullRowHandle<
-    V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+    V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
     const CHANNELS: u8,
     const BIT_DEPTH: usize,
 > {
@@ -144,7 +140,7 @@ struct DefaultFullRowHandle<
 }
 
 impl<
-        V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+        V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
         const CHANNELS: u8,
         const BIT_DEPTH: usize,
     > FullRowHandle<V> for DefaultFullRowHandle<V, CHANNELS, BIT_DEPTH>
@@ -165,7 +161,7 @@ impl<
 #[cfg(all(target_arch = "aarch64", target_feature = "neon"))]
 #[derive(Default)]
 struct DefaultFullRowHandleNeonFp16<
-    V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+    V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
     const CHANNELS: u8,
     const BIT_DEPTH: usize,
 > {
@@ -174,7 +170,7 @@ struct DefaultFullRowHandleNeonFp16<
 
 #[cfg(all(target_arch = "aarch64", target_feature = "neon"))]
 impl<
-        V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+        V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
         const CHANNELS: u8,
         const BIT_DEPTH: usize,
     > FullRowHandle<V> for DefaultFullRowHandleNeonFp16<V, CHANNELS, BIT_DEPTH>
@@ -196,7 +192,7 @@ impl<
 #[cfg(all(any(target_arch = "x86", target_arch = "x86_64"), feature = "avx"))]
 #[derive(Default)]
 struct DefaultFullRowHandleAvxFp16c<
-    V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+    V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
     const CHANNELS: u8,
     const BIT_DEPTH: usize,
 > {
@@ -205,7 +201,7 @@ struct DefaultFullRowHandleAvxFp16c<
 
 #[cfg(all(any(target_arch = "x86", target_arch = "x86_64"), feature = "avx"))]
 impl<
-        V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+        V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
         const CHANNELS: u8,
         const BIT_DEPTH: usize,
     > FullRowHandle<V> for DefaultFullRowHandleAvxFp16c<V, CHANNELS, BIT_DEPTH>
@@ -237,7 +233,7 @@ struct DefaultLimitedRowHandle<
 }
 
 impl<
-        V: Copy + AsPrimitive<J> + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+        V: Copy + AsPrimitive<J> + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
         J: Copy + Sub<Output = J> + AsPrimitive<i32> + Default + Send + Sync,
         const CHANNELS: u8,
         const BIT_DEPTH: usize,
@@ -274,7 +270,7 @@ struct DefaultLimitedRowHandleNeonFp16<
 
 #[cfg(all(target_arch = "aarch64", target_feature = "neon"))]
 impl<
-        V: Copy + AsPrimitive<J> + 'static + Sized + Debug + Send + Sync + CastableToF16,
+        V: Copy + AsPrimitive<J> + 'static + Sized + Debug + Send + Sync + CastableToF32,
         J: Copy + Sub<Output = J> + AsPrimitive<i32> + Default + Send + Sync,
         const CHANNELS: u8,
         const BIT_DEPTH: usize,
@@ -313,7 +309,7 @@ struct DefaultLimitedRowHandleAvxFp16c<
 
 #[cfg(all(any(target_arch = "x86", target_arch = "x86_64"), feature = "avx"))]
 impl<
-        V: Copy + AsPrimitive<J> + 'static + Sized + Debug + Send + Sync + CastableToF16,
+        V: Copy + AsPrimitive<J> + 'static + Sized + Debug + Send + Sync + CastableToF32,
         J: Copy + Sub<Output = J> + AsPrimitive<i32> + Default + Send + Sync,
         const CHANNELS: u8,
         const BIT_DEPTH: usize,
@@ -339,7 +335,7 @@ impl<
 
 #[inline]
 fn gbr_to_rgbx_alpha_f16_impl<
-    V: Copy + AsPrimitive<J> + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+    V: Copy + AsPrimitive<J> + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
     J: Copy + Sub<Output = J> + AsPrimitive<i32> + Default + Send + Sync,
     const CHANNELS: u8,
     const BIT_DEPTH: usize,
diff --git a/src/from_identity_f16.rs b/src/from_identity_f16.rs
index f8febd1..9425628 100644
--- a/src/from_identity_f16.rs
+++ b/src/from_identity_f16.rs
@@ -41,21 +41,17 @@ use std::marker::PhantomData;
 use std::mem::size_of;
 use std::ops::Sub;
 
-trait FullRowHandle<V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF16> {
+trait FullRowHandle<V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF32> {
     unsafe fn process_row(&self, dst: &mut [f16], y_src: &[V], u_src: &[V], v_src: &[V]);
 }
 
-trait CastableToF16 {
-    fn cast_to_f16<const BIT_DEPTH: usize>(self) -> f16;
+trait CastableToF32 {
+    fn cast_to_f32(self) -> f32;
 }
 
-impl CastableToF16 for u16 {
-    fn cast_to_f16<const BIT_DEPTH: usize>(self) -> f16 {
-        if BIT_DEPTH == 16 {
-            (self as i32) as f16
-        } else {
-            (self as i16) as f16
-        }
+impl CastableToF32 for u16 {
+    fn cast_to_f32(self) -> f32 {
+        self as f32
     }
 }
 
@@ -80,14 +76,14 @@ macro_rules! exec_cv_full {
         let max_value = (1 << $bit_depth) - 1;
         let max_value_f16 = 1f32 as f16;
         let rgb_chunks = $dst.chunks_exact_mut($cn.get_channels_count());
-        let scale = (1f32 / max_value as f32) as f16;
+        let scale = 1f32 / max_value as f32;
 
         for (((&y_src, &u_src), &v_src), rgb_dst) in
             $y_src.iter().zip($u_src).zip($v_src).zip(rgb_chunks)
         {
-            rgb_dst[$cn.get_r_channel_offset()] = v_src.cast_to_f16::<$bit_depth>() * scale;
-            rgb_dst[$cn.get_g_channel_offset()] = y_src.cast_to_f16::<$bit_depth>() * scale;
-            rgb_dst[$cn.get_b_channel_offset()] = u_src.cast_to_f16::<$bit_depth>() * scale;
+            rgb_dst[$cn.get_r_channel_offset()] = (v_src.cast_to_f32() * scale) as f16;
+            rgb_dst[$cn.get_g_channel_offset()] = (y_src.cast_to_f32() * scale) as f16;
+            rgb_dst[$cn.get_b_channel_offset()] = (u_src.cast_to_f32() * scale) as f16;
             if $cn.has_alpha() {
                 rgb_dst[$cn.get_a_channel_offset()] = max_value_f16;
             }
@@ -100,23 +96,23 @@ macro_rules! exec_cv_limited {
         let max_value = (1 << $bit_depth) - 1;
         let max_value_f16 = 1f32 as f16;
         let rgb_chunks = $dst.chunks_exact_mut($cn.get_channels_count());
-        let scale = (1f32 / max_value as f32) as f16;
+        let scale = 1f32 / max_value as f32;
 
         for (((&y_src, &u_src), &v_src), rgb_dst) in
             $y_src.iter().zip($u_src).zip($v_src).zip(rgb_chunks)
         {
             rgb_dst[$cn.get_r_channel_offset()] =
-                qrshr::<$precision, $bit_depth>((v_src.as_() - $y_bias).as_() * $y_coef as i32)
-                    as f16
-                    * scale;
+                (qrshr::<$precision, $bit_depth>((v_src.as_() - $y_bias).as_() * $y_coef as i32)
+                    as f32
+                    * scale) as f16;
             rgb_dst[$cn.get_g_channel_offset()] =
-                qrshr::<$precision, $bit_depth>((y_src.as_() - $y_bias).as_() * $y_coef as i32)
-                    as f16
-                    * scale;
+                (qrshr::<$precision, $bit_depth>((y_src.as_() - $y_bias).as_() * $y_coef as i32)
+                    as f32
+                    * scale) as f16;
             rgb_dst[$cn.get_b_channel_offset()] =
-                qrshr::<$precision, $bit_depth>((u_src.as_() - $y_bias).as_() * $y_coef as i32)
-                    as f16
-                    * scale;
+                (qrshr::<$precision, $bit_depth>((u_src.as_() - $y_bias).as_() * $y_coef as i32)
+                    as f32
+                    * scale) as f16;
             if $cn.has_alpha() {
                 rgb_dst[$cn.get_a_channel_offset()] = max_value_f16;
             }
@@ -126,7 +122,7 @@ macro_rules! exec_cv_limited {
 
 #[derive(Default)]
 struct DefaultFullRowHandle<
-    V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+    V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
     const CHANNELS: u8,
     const BIT_DEPTH: usize,
 > {
@@ -134,7 +130,7 @@ struct DefaultFullRowHandle<
 }
 
 impl<
-        V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+        V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
         const CHANNELS: u8,
         const BIT_DEPTH: usize,
     > FullRowHandle<V> for DefaultFullRowHandle<V, CHANNELS, BIT_DEPTH>
@@ -148,7 +144,7 @@ impl<
 #[cfg(all(target_arch = "aarch64", target_feature = "neon"))]
 #[derive(Default)]
 struct DefaultFullRowHandleNeonFp16<
-    V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+    V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
     const CHANNELS: u8,
     const BIT_DEPTH: usize,
 > {
@@ -157,7 +153,7 @@ struct DefaultFullRowHandleNeonFp16<
 
 #[cfg(all(target_arch = "aarch64", target_feature = "neon"))]
 impl<
-        V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+        V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
         const CHANNELS: u8,
         const BIT_DEPTH: usize,
     > FullRowHandle<V> for DefaultFullRowHandleNeonFp16<V, CHANNELS, BIT_DEPTH>
@@ -172,7 +168,7 @@ impl<
 #[cfg(all(any(target_arch = "x86", target_arch = "x86_64"), feature = "avx"))]
 #[derive(Default)]
 struct DefaultFullRowHandleAvxFp16c<
-    V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+    V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
     const CHANNELS: u8,
     const BIT_DEPTH: usize,
 > {
@@ -181,7 +177,7 @@ struct DefaultFullRowHandleAvxFp16c<
 
 #[cfg(all(any(target_arch = "x86", target_arch = "x86_64"), feature = "avx"))]
 impl<
-        V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+        V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
         const CHANNELS: u8,
         const BIT_DEPTH: usize,
     > FullRowHandle<V> for DefaultFullRowHandleAvxFp16c<V, CHANNELS, BIT_DEPTH>
@@ -305,7 +301,7 @@ impl<
 
 #[inline]
 fn gbr_to_rgbx_f16_impl<
-    V: Copy + AsPrimitive<J> + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+    V: Copy + AsPrimitive<J> + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
     J: Copy + Sub<Output = J> + AsPrimitive<i32> + Default + Send + Sync,
     const CHANNELS: u8,
     const BIT_DEPTH: usize,
-- 
2.43.0


From f0de7b3318a5f3c91bcacbcf07133c818a5364be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:17 +0000
Subject: [PATCH 20/27] fix: clamp 12-bit NV to the 10-bit fields of AR30/RA30

---
 src/yuv_nv_p10_to_ar30.rs | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/src/yuv_nv_p10_to_ar30.rs b/src/yuv_nv_p10_to_ar30.rs
index 7125504..dd5d1fc 100644
--- a/src/yuv_nv_p10_to_ar30.rs
+++ b/src/yuv_nv_p10_to_ar30.rs
@@ -27,7 +27,7 @@
  * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
 use crate::internals::{ProcessedOffset, RowDBiPlanarInversionHandler};
-use crate::numerics::{qrshr_to_ar30, to_ne};
+use crate::numerics::{qrshr, to_ne};
 use crate::yuv_error::check_rgba_destination;
 use crate::yuv_support::*;
 use crate::{YuvBiPlanarImage, YuvError};
@@ -224,11 +224,10 @@ fn yuv_nv_p10_to_image_impl_d<
                 cb_value -= bias_uv;
                 cr_value -= bias_uv;
 
-                let r_p0 = qrshr_to_ar30::<BACK_SHIFT, BIT_DEPTH>(y_value0 + cr_coef * cr_value);
-                let b_p0 = qrshr_to_ar30::<BACK_SHIFT, BIT_DEPTH>(y_value0 + cb_coef * cb_value);
-                let g_p0 = qrshr_to_ar30::<BACK_SHIFT, BIT_DEPTH>(
-                    y_value0 - g_coef_1 * cr_value - g_coef_2 * cb_value,
-                );
+                let r_p0 = qrshr::<BACK_SHIFT, 10>(y_value0 + cr_coef * cr_value);
+                let b_p0 = qrshr::<BACK_SHIFT, 10>(y_value0 + cb_coef * cb_value);
+                let g_p0 =
+                    qrshr::<BACK_SHIFT, 10>(y_value0 - g_coef_1 * cr_value - g_coef_2 * cb_value);
 
                 let pixel0 = ar30_layout
                     .pack::<AR30_STORE>(r_p0, g_p0, b_p0)
@@ -242,11 +241,10 @@ fn yuv_nv_p10_to_image_impl_d<
 
                 let y_value1: i32 = (y_vl1 - bias_y) * y_coef;
 
-                let r_p1 = qrshr_to_ar30::<BACK_SHIFT, BIT_DEPTH>(y_value1 + cr_coef * cr_value);
-                let b_p1 = qrshr_to_ar30::<BACK_SHIFT, BIT_DEPTH>(y_value1 + cb_coef * cb_value);
-                let g_p1 = qrshr_to_ar30::<BACK_SHIFT, BIT_DEPTH>(
-                    y_value1 - g_coef_1 * cr_value - g_coef_2 * cb_value,
-                );
+                let r_p1 = qrshr::<BACK_SHIFT, 10>(y_value1 + cr_coef * cr_value);
+                let b_p1 = qrshr::<BACK_SHIFT, 10>(y_value1 + cb_coef * cb_value);
+                let g_p1 =
+                    qrshr::<BACK_SHIFT, 10>(y_value1 - g_coef_1 * cr_value - g_coef_2 * cb_value);
 
                 let pixel1 = ar30_layout
                     .pack::<AR30_STORE>(r_p1, g_p1, b_p1)
@@ -277,11 +275,10 @@ fn yuv_nv_p10_to_image_impl_d<
                 cb_value -= bias_uv;
                 cr_value -= bias_uv;
 
-                let r_p0 = qrshr_to_ar30::<BACK_SHIFT, BIT_DEPTH>(y_value0 + cr_coef * cr_value);
-                let b_p0 = qrshr_to_ar30::<BACK_SHIFT, BIT_DEPTH>(y_value0 + cb_coef * cb_value);
-                let g_p0 = qrshr_to_ar30::<BACK_SHIFT, BIT_DEPTH>(
-                    y_value0 - g_coef_1 * cr_value - g_coef_2 * cb_value,
-                );
+                let r_p0 = qrshr::<BACK_SHIFT, 10>(y_value0 + cr_coef * cr_value);
+                let b_p0 = qrshr::<BACK_SHIFT, 10>(y_value0 + cb_coef * cb_value);
+                let g_p0 =
+                    qrshr::<BACK_SHIFT, 10>(y_value0 - g_coef_1 * cr_value - g_coef_2 * cb_value);
 
                 let pixel0 = ar30_layout
                     .pack::<AR30_STORE>(r_p0, g_p0, b_p0)
@@ -347,9 +344,9 @@ fn yuv_nv_p10_to_image_impl_d<
                     cb_value -= bias_uv;
                     cr_value -= bias_uv;
 
-                    let r_p = qrshr_to_ar30::<BACK_SHIFT, BIT_DEPTH>(y_value + cr_coef * cr_value);
-                    let b_p = qrshr_to_ar30::<BACK_SHIFT, BIT_DEPTH>(y_value + cb_coef * cb_value);
-                    let g_p = qrshr_to_ar30::<BACK_SHIFT, BIT_DEPTH>(
+                    let r_p = qrshr::<BACK_SHIFT, 10>(y_value + cr_coef * cr_value);
+                    let b_p = qrshr::<BACK_SHIFT, 10>(y_value + cb_coef * cb_value);
+                    let g_p = qrshr::<BACK_SHIFT, 10>(
                         y_value - g_coef_1 * cr_value - g_coef_2 * cb_value,
                     );
 
-- 
2.43.0


From 9e03a58e3b26dd18c34a41296ee571ba131cd288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:56 +0000
Subject: [PATCH 21/27] fix: Smpte240 luma weights had red and blue swapped

---
 src/yuv_support.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yuv_support.rs b/src/yuv_support.rs
index 8c4f39d..723ea22 100644
--- a/src/yuv_support.rs
+++ b/src/yuv_support.rs
@@ -301,8 +301,8 @@ impl YuvStandardMatrix {
                 kb: 0.0593f32,
             },
             YuvStandardMatrix::Smpte240 => YuvBias {
-                kr: 0.087f32,
-                kb: 0.212f32,
+                kr: 0.212f32,
+                kb: 0.087f32,
             },
             YuvStandardMatrix::Bt470_6 => YuvBias {
                 kr: 0.2220f32,
-- 
2.43.0


From ea4427a95b906f3a5596e11dba6d0df28be6f90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:48 +0000
Subject: [PATCH 22/27] fix: Smpte240 built-in coefficients follow the
 corrected luma weights

---
 src/built_coefficients.rs | 40 +++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/built_coefficients.rs b/src/built_coefficients.rs
index fe98e8a..76826be 100644
--- a/src/built_coefficients.rs
+++ b/src/built_coefficients.rs
@@ -245,27 +245,27 @@ static FORWARD_BT2020_FULL_12_13PREC: CbCrForwardTransform<i32> = CbCrForwardTra
 };
 
 static FORWARD_SMPTE240_LIMITED_8_13PREC: CbCrForwardTransform<i32> = CbCrForwardTransform {
-    yr: 612,
+    yr: 1492,
     yg: 4932,
-    yb: 1492,
-    cb_r: -397,
-    cb_g: -3201,
+    yb: 612,
+    cb_r: -835,
+    cb_g: -2763,
     cb_b: 3598,
     cr_r: 3598,
-    cr_g: -2763,
-    cr_b: -835,
+    cr_g: -3201,
+    cr_b: -397,
 };
 
 static FORWARD_SMPTE240_FULL_8_13PREC: CbCrForwardTransform<i32> = CbCrForwardTransform {
-    yr: 713,
+    yr: 1737,
     yg: 5743,
-    yb: 1737,
-    cb_r: -452,
-    cb_g: -3644,
+    yb: 713,
+    cb_r: -951,
+    cb_g: -3145,
     cb_b: 4096,
     cr_r: 4096,
-    cr_g: -3145,
-    cr_b: -951,
+    cr_g: -3644,
+    cr_b: -452,
 };
 
 static FORWARD_BT470_FULL_8_13PREC: CbCrForwardTransform<i32> = CbCrForwardTransform {
@@ -416,18 +416,18 @@ static INVERSE_BT2020_FULL_8_PREC13: CbCrInverseTransform<i32> = CbCrInverseTran
 
 static INVERSE_SMPTE240_LIMITED_8_PREC13: CbCrInverseTransform<i32> = CbCrInverseTransform {
     y_coef: 9539,
-    cr_coef: 17029,
-    cb_coef: 14697,
-    g_coeff_1: 2113,
-    g_coeff_2: 4445,
+    cr_coef: 14697,
+    cb_coef: 17029,
+    g_coeff_1: 4445,
+    g_coeff_2: 2113,
 };
 
 static INVERSE_SMPTE240_FULL_8_PREC13: CbCrInverseTransform<i32> = CbCrInverseTransform {
     y_coef: 8192,
-    cr_coef: 14959,
-    cb_coef: 12911,
-    g_coeff_1: 1856,
-    g_coeff_2: 3904,
+    cr_coef: 12911,
+    cb_coef: 14959,
+    g_coeff_1: 3904,
+    g_coeff_2: 1856,
 };
 
 static INVERSE_BT470_LIMITED_8_PREC13: CbCrInverseTransform<i32> = CbCrInverseTransform {
-- 
2.43.0


From 795a457a0845ca666d0e490283ae2c4329d0f505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:49 +0000
Subject: [PATCH 23/27] fix: rounded luma weights must not sum above the luma
 range

---
 src/yuv_support.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/yuv_support.rs b/src/yuv_support.rs
index 723ea22..6f3bc0f 100644
--- a/src/yuv_support.rs
+++ b/src/yuv_support.rs
@@ -155,10 +155,14 @@ pub trait ToIntegerTransform {
 impl ToIntegerTransform for CbCrForwardTransform<f32> {
     fn to_integers(&self, precision: u32) -> CbCrForwardTransform<i32> {
         let scale = (1 << precision) as f32;
+        // Luma weights must sum to the luma range after rounding, otherwise white overflows
+        let y_sum = ((self.yr + self.yg + self.yb) * scale).round() as i32;
+        let yr = (self.yr * scale).round() as i32;
+        let yb = (self.yb * scale).round() as i32;
         CbCrForwardTransform::<i32> {
-            yr: (self.yr * scale).round() as i32,
-            yg: (self.yg * scale).round() as i32,
-            yb: (self.yb * scale).round() as i32,
+            yr,
+            yg: y_sum - yr - yb,
+            yb,
             cb_r: (self.cb_r * scale).round() as i32,
             cb_g: (self.cb_g * scale).round() as i32,
             cb_b: (self.cb_b * scale).round() as i32,
-- 
2.43.0


From 42de8c11968ae2e989594ac916cd64f198e0b26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:18 +0000
Subject: [PATCH 24/27] fix: scale the computed inverse transform by the full
 range when decoding high bit depth to 8 bits

---
 src/yuv_p10_rgba.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yuv_p10_rgba.rs b/src/yuv_p10_rgba.rs
index e986af5..dccd969 100644
--- a/src/yuv_p10_rgba.rs
+++ b/src/yuv_p10_rgba.rs
@@ -83,7 +83,7 @@ fn yuv_p16_to_image_ant<
         stored
     } else {
         let transform = get_inverse_transform(
-            BIT_DEPTH as u32,
+            (1 << BIT_DEPTH) - 1,
             chroma_range.range_y,
             chroma_range.range_uv,
             kr_kb.kr,
-- 
2.43.0


From 303bffeec61d6f84456528c7fd0fa8b8de99fc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:49 +0000
Subject: [PATCH 25/27] fix: accept padded rows in packed 4:2:2 and interleaved
 chroma, reject inconsistent strides

---
 src/yuv_error.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/yuv_error.rs b/src/yuv_error.rs
index 0f9be9e..37197fe 100644
--- a/src/yuv_error.rs
+++ b/src/yuv_error.rs
@@ -157,12 +157,14 @@ pub(crate) fn check_yuv_packed422<V>(
     }
     check_overflow_v2(stride as usize, height as usize)?;
     check_overflow_v2(width as usize, height as usize)?;
-    let full_size = if width % 2 == 0 {
-        2 * width as usize * height as usize
-    } else {
-        2 * (width as usize + 1) * height as usize
-    };
-    if data.len() != full_size {
+    let min_stride = (width as usize).div_ceil(2) * 4;
+    if (stride as usize) < min_stride {
+        return Err(YuvError::MinimumStrideSizeMismatch(MismatchedSize {
+            expected: min_stride,
+            received: stride as usize,
+        }));
+    }
+    if data.len() < stride as usize * height as usize {
         return Err(YuvError::PackedFrameSizeMismatch(MismatchedSize {
             expected: stride as usize * height as usize,
             received: data.len(),
@@ -248,8 +250,10 @@ pub(crate) fn check_interleaved_chroma_channel<V>(
         return Err(YuvError::ZeroBaseSize);
     }
     let chroma_min_width = match sampling {
-        YuvChromaSubsampling::Yuv420 | YuvChromaSubsampling::Yuv422 => image_width.div_ceil(2) * 2,
-        YuvChromaSubsampling::Yuv444 => image_width * 2,
+        YuvChromaSubsampling::Yuv420 | YuvChromaSubsampling::Yuv422 => {
+            (image_width as usize).div_ceil(2) * 2
+        }
+        YuvChromaSubsampling::Yuv444 => image_width as usize * 2,
     };
     let chroma_height = match sampling {
         YuvChromaSubsampling::Yuv420 => image_height.div_ceil(2),
@@ -265,9 +269,7 @@ pub(crate) fn check_interleaved_chroma_channel<V>(
             received: stride as usize * chroma_height as usize,
         }));
     }
-    if stride as usize * chroma_height as usize != data.len()
-        || chroma_min_width as usize * chroma_height as usize != data.len()
-    {
+    if data.len() < stride as usize * chroma_height as usize {
         return Err(YuvError::ChromaPlaneSizeMismatch(MismatchedSize {
             expected: stride as usize * chroma_height as usize,
             received: data.len(),
-- 
2.43.0


From 9ffe5918a69a1295dca55812725f60129849be90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:50 +0000
Subject: [PATCH 26/27] fix: validate the buffers of high bit depth gray to RGB
 conversions

---
 src/y_p16_to_rgb16.rs            | 3 +++
 src/y_p16_with_alpha_to_rgb16.rs | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/y_p16_to_rgb16.rs b/src/y_p16_to_rgb16.rs
index c017ceb..fa4444c 100644
--- a/src/y_p16_to_rgb16.rs
+++ b/src/y_p16_to_rgb16.rs
@@ -28,6 +28,7 @@
  */
 #[cfg(all(target_arch = "aarch64", target_feature = "neon"))]
 use crate::neon::neon_y_p16_to_rgba16_row;
+use crate::yuv_error::check_rgba_destination;
 use crate::yuv_support::*;
 use crate::{YuvError, YuvGrayImage};
 use num_traits::AsPrimitive;
@@ -141,6 +142,8 @@ where
     let max_colors = (1 << bit_depth) - 1;
 
     let channels = cn.get_channels_count();
+    check_rgba_destination(rgba16, rgba_stride, image.width, image.height, channels)?;
+    image.check_constraints()?;
     let chroma_range = get_yuv_range(bit_depth, range);
     let kr_kb = matrix.get_kr_kb();
 
diff --git a/src/y_p16_with_alpha_to_rgb16.rs b/src/y_p16_with_alpha_to_rgb16.rs
index fa62d3b..3c0ced0 100644
--- a/src/y_p16_with_alpha_to_rgb16.rs
+++ b/src/y_p16_with_alpha_to_rgb16.rs
@@ -26,6 +26,7 @@
  * OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
  * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
+use crate::yuv_error::check_rgba_destination;
 use crate::yuv_support::*;
 use crate::{YuvError, YuvGrayAlphaImage};
 use num_traits::AsPrimitive;
@@ -58,6 +59,7 @@ where
 
     let channels = cn.get_channels_count();
 
+    check_rgba_destination(rgba16, rgba_stride, image.width, image.height, channels)?;
     image.check_constraints()?;
 
     assert!(
-- 
2.43.0


From 0f942a72e2491f75a98f81fff1a979e51cd1764e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:01 +0000
Subject: [PATCH 27/27] fix: reject zero-sized images in rotation and mirroring

---
 src/geometry.rs  | 16 ++++++++++++++++
 src/mirroring.rs | 10 +++++++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index 08b976b..8561e87 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -42,6 +42,14 @@ pub enum RotationMode {
     Rotate270,
 }
 
+#[inline]
+pub(crate) fn check_geometry_size(width: usize, height: usize) -> Result<(), YuvError> {
+    if width == 0 || height == 0 {
+        return Err(YuvError::ZeroBaseSize);
+    }
+    Ok(())
+}
+
 #[inline]
 pub(crate) fn map_ft_result(result: Result<(), TransposeError>) -> Result<(), YuvError> {
     match result {
@@ -78,6 +86,7 @@ pub fn rotate_rgba(
     height: usize,
     mode: RotationMode,
 ) -> Result<(), YuvError> {
+    check_geometry_size(width, height)?;
     let rs = match mode {
         RotationMode::Rotate90 => transpose_rgba(
             src,
@@ -129,6 +138,7 @@ pub fn rotate_rgb(
     height: usize,
     mode: RotationMode,
 ) -> Result<(), YuvError> {
+    check_geometry_size(width, height)?;
     let rs = match mode {
         RotationMode::Rotate90 => transpose_rgb(
             src,
@@ -180,6 +190,7 @@ pub fn rotate_cbcr(
     height: usize,
     mode: RotationMode,
 ) -> Result<(), YuvError> {
+    check_geometry_size(width, height)?;
     let rs = match mode {
         RotationMode::Rotate90 => transpose_plane_with_alpha(
             src,
@@ -233,6 +244,7 @@ pub fn rotate_plane(
     height: usize,
     mode: RotationMode,
 ) -> Result<(), YuvError> {
+    check_geometry_size(width, height)?;
     let rs = match mode {
         RotationMode::Rotate90 => transpose_plane(
             src,
@@ -284,6 +296,7 @@ pub fn rotate_rgba16(
     height: usize,
     mode: RotationMode,
 ) -> Result<(), YuvError> {
+    check_geometry_size(width, height)?;
     let rs = match mode {
         RotationMode::Rotate90 => transpose_rgba16(
             src,
@@ -337,6 +350,7 @@ pub fn rotate_rgb16(
     height: usize,
     mode: RotationMode,
 ) -> Result<(), YuvError> {
+    check_geometry_size(width, height)?;
     let rs = match mode {
         RotationMode::Rotate90 => transpose_rgb16(
             src,
@@ -388,6 +402,7 @@ pub fn rotate_cbcr16(
     height: usize,
     mode: RotationMode,
 ) -> Result<(), YuvError> {
+    check_geometry_size(width, height)?;
     let rs = match mode {
         RotationMode::Rotate90 => transpose_plane16_with_alpha(
             src,
@@ -441,6 +456,7 @@ pub fn rotate_plane16(
     height: usize,
     mode: RotationMode,
 ) -> Result<(), YuvError> {
+    check_geometry_size(width, height)?;
     let rs = match mode {
         RotationMode::Rotate90 => transpose_plane16(
             src,
diff --git a/src/mirroring.rs b/src/mirroring.rs
index 3eda646..cc0db89 100644
--- a/src/mirroring.rs
+++ b/src/mirroring.rs
@@ -26,7 +26,7 @@
  * OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
  * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
-use crate::geometry::map_ft_result;
+use crate::geometry::{check_geometry_size, map_ft_result};
 use crate::YuvError;
 use fast_transpose::{
     flip_plane, flip_plane16, flip_plane16_with_alpha, flip_plane_with_alpha, flip_rgb, flip_rgb16,
@@ -66,6 +66,7 @@ pub fn mirror_rgba(
     height: usize,
     mode: MirrorMode,
 ) -> Result<(), YuvError> {
+    check_geometry_size(width, height)?;
     let rs = match mode {
         MirrorMode::Vertical => flop_rgba(src, src_stride, dst, dst_stride, width, height),
         MirrorMode::Horizontal => flip_rgba(src, src_stride, dst, dst_stride, width, height),
@@ -98,6 +99,7 @@ pub fn mirror_rgb(
     height: usize,
     mode: MirrorMode,
 ) -> Result<(), YuvError> {
+    check_geometry_size(width, height)?;
     let rs = match mode {
         MirrorMode::Vertical => flop_rgb(src, src_stride, dst, dst_stride, width, height),
         MirrorMode::Horizontal => flip_rgb(src, src_stride, dst, dst_stride, width, height),
@@ -130,6 +132,7 @@ pub fn mirror_cbcr(
     height: usize,
     mode: MirrorMode,
 ) -> Result<(), YuvError> {
+    check_geometry_size(width, height)?;
     let rs = match mode {
         MirrorMode::Vertical => {
             flop_plane_with_alpha(src, src_stride, dst, dst_stride, width, height)
@@ -166,6 +169,7 @@ pub fn mirror_plane(
     height: usize,
     mode: MirrorMode,
 ) -> Result<(), YuvError> {
+    check_geometry_size(width, height)?;
     let rs = match mode {
         MirrorMode::Vertical => flop_plane(src, src_stride, dst, dst_stride, width, height),
         MirrorMode::Horizontal => flip_plane(src, src_stride, dst, dst_stride, width, height),
@@ -198,6 +202,7 @@ pub fn mirror_rgba16(
     height: usize,
     mode: MirrorMode,
 ) -> Result<(), YuvError> {
+    check_geometry_size(width, height)?;
     let rs = match mode {
         MirrorMode::Vertical => flop_rgba16(src, src_stride, dst, dst_stride, width, height),
         MirrorMode::Horizontal => flip_rgba16(src, src_stride, dst, dst_stride, width, height),
@@ -230,6 +235,7 @@ pub fn mirror_rgb16(
     height: usize,
     mode: MirrorMode,
 ) -> Result<(), YuvError> {
+    check_geometry_size(width, height)?;
     let rs = match mode {
         MirrorMode::Vertical => flop_rgb16(src, src_stride, dst, dst_stride, width, height),
         MirrorMode::Horizontal => flip_rgb16(src, src_stride, dst, dst_stride, width, height),
@@ -262,6 +268,7 @@ pub fn mirror_cbcr16(
     height: usize,
     mode: MirrorMode,
 ) -> Result<(), YuvError> {
+    check_geometry_size(width, height)?;
     let rs = match mode {
         MirrorMode::Vertical => {
             flop_plane16_with_alpha(src, src_stride, dst, dst_stride, width, height)
@@ -298,6 +305,7 @@ pub fn mirror_plane16(
     height: usize,
     mode: MirrorMode,
 ) -> Result<(), YuvError> {
+    check_geometry_size(width, height)?;
     let rs = match mode {
         MirrorMode::Vertical => flop_plane16(src, src_stride, dst, dst_stride, width, height),
         MirrorMode::Horizontal => flip_plane16(src, src_stride, dst, dst_stride, width, height),
-- 
2.43.0

