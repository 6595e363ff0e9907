From 1418079b7a49ec861df2ac69a022e5cadde5ae12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:14 +0000
Subject: [PATCH 01/36] fix: SSE float/double operator>= must be false for
 unordered (NaN) operands

_mm_cmpnlt_* is true when either operand is NaN, so (x >= y) disagreed with the
scalar and AVX implementations and with IEEE 754.
---
 Vc/sse/vector.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Vc/sse/vector.tcc b/Vc/sse/vector.tcc
index 2e2fe5d..d857ca1 100644
--- a/Vc/sse/vector.tcc
+++ b/Vc/sse/vector.tcc
@@ -91,8 +91,8 @@ Vc_INTRINSIC SSE::ushort_m operator< (SSE::ushort_v a, SSE::ushort_v b) {
 #endif
 }
 
-Vc_INTRINSIC SSE::double_m operator>=(SSE::double_v a, SSE::double_v b) { return _mm_cmpnlt_pd(a.data(), b.data()); }
-Vc_INTRINSIC SSE:: float_m operator>=(SSE:: float_v a, SSE:: float_v b) { return _mm_cmpnlt_ps(a.data(), b.data()); }
+Vc_INTRINSIC SSE::double_m operator>=(SSE::double_v a, SSE::double_v b) { return _mm_cmpge_pd(a.data(), b.data()); }
+Vc_INTRINSIC SSE:: float_m operator>=(SSE:: float_v a, SSE:: float_v b) { return _mm_cmpge_ps(a.data(), b.data()); }
 Vc_INTRINSIC SSE::   int_m operator>=(SSE::   int_v a, SSE::   int_v b) { return !(a < b); }
 Vc_INTRINSIC SSE::  uint_m operator>=(SSE::  uint_v a, SSE::  uint_v b) { return !(a < b); }
 Vc_INTRINSIC SSE:: short_m operator>=(SSE:: short_v a, SSE:: short_v b) { return !(a < b); }
-- 
2.43.0


From dc91f21d23e3a258dd9d8c03ad27d03af648b666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:04 +0000
Subject: [PATCH 02/36] fix: zero-extending a 128-bit vector to 256 bits must
 zero the upper half with GCC too

The cast intrinsics leave the upper half undefined. GCC reuses the register, so
simd_cast<AVX::float_v>(simd_cast<SSE::float_v>(avx_vector)) returned the upper
half of the original vector instead of zeros.
---
 Vc/avx/casts.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/Vc/avx/casts.h b/Vc/avx/casts.h
index 2dcf609..9dced9a 100644
--- a/Vc/avx/casts.h
+++ b/Vc/avx/casts.h
@@ -76,15 +76,11 @@ namespace Casts
     template<> Vc_INTRINSIC __m256d avx_cast(__m128i v) { return _mm256_castpd128_pd256(_mm_castsi128_pd(v)); }
     template<> Vc_INTRINSIC __m256d avx_cast(__m128d v) { return _mm256_castpd128_pd256(v); }
 
-#if defined Vc_MSVC || defined Vc_CLANG || defined Vc_APPLECLANG
+    // The cast intrinsics leave the upper 128 bits undefined, with every compiler: if v is the low half
+    // of a 256-bit value the compiler may simply reuse that register. Thus zero them explicitly.
     static Vc_INTRINSIC Vc_CONST __m256  zeroExtend(__m128  v) { return _mm256_permute2f128_ps   (_mm256_castps128_ps256(v), _mm256_castps128_ps256(v), 0x80); }
     static Vc_INTRINSIC Vc_CONST __m256i zeroExtend(__m128i v) { return _mm256_permute2f128_si256(_mm256_castsi128_si256(v), _mm256_castsi128_si256(v), 0x80); }
     static Vc_INTRINSIC Vc_CONST __m256d zeroExtend(__m128d v) { return _mm256_permute2f128_pd   (_mm256_castpd128_pd256(v), _mm256_castpd128_pd256(v), 0x80); }
-#else
-    static Vc_INTRINSIC Vc_CONST __m256  zeroExtend(__m128  v) { return _mm256_castps128_ps256(v); }
-    static Vc_INTRINSIC Vc_CONST __m256i zeroExtend(__m128i v) { return _mm256_castsi128_si256(v); }
-    static Vc_INTRINSIC Vc_CONST __m256d zeroExtend(__m128d v) { return _mm256_castpd128_pd256(v); }
-#endif
 
     // 256 -> 128
     template<> Vc_INTRINSIC __m128  avx_cast(__m256  v) { return _mm256_castps256_ps128(v); }
-- 
2.43.0


From b2a78bdc67f9d5b0fac816ac5d240d7822a9674e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:54 +0000
Subject: [PATCH 03/36] fix: AVX double_v loads from 8/16-bit integers must
 convert those types

The loads read 16 bytes and interpreted them as four ints.
---
 Vc/avx/detail.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/Vc/avx/detail.h b/Vc/avx/detail.h
index 5802755..9263019 100644
--- a/Vc/avx/detail.h
+++ b/Vc/avx/detail.h
@@ -373,24 +373,28 @@ Vc_INTRINSIC __m256d load(const int *mem, Flags f, LoadTag<__m256d, double>)
     return AVX::convert<int, double>(load16(mem, f));
 }
 template <typename Flags>
-Vc_INTRINSIC __m256d load(const ushort *mem, Flags f, LoadTag<__m256d, double>)
+Vc_INTRINSIC __m256d load(const ushort *mem, Flags, LoadTag<__m256d, double>)
 {
-    return AVX::convert<int, double>(load16(mem, f));
+    return AVX::convert<ushort, double>(
+        _mm_loadl_epi64(reinterpret_cast<const __m128i *>(mem)));
 }
 template <typename Flags>
-Vc_INTRINSIC __m256d load(const short *mem, Flags f, LoadTag<__m256d, double>)
+Vc_INTRINSIC __m256d load(const short *mem, Flags, LoadTag<__m256d, double>)
 {
-    return AVX::convert<int, double>(load16(mem, f));
+    return AVX::convert<short, double>(
+        _mm_loadl_epi64(reinterpret_cast<const __m128i *>(mem)));
 }
 template <typename Flags>
-Vc_INTRINSIC __m256d load(const uchar *mem, Flags f, LoadTag<__m256d, double>)
+Vc_INTRINSIC __m256d load(const uchar *mem, Flags, LoadTag<__m256d, double>)
 {
-    return AVX::convert<int, double>(load16(mem, f));
+    return AVX::convert<int, double>(
+        SSE::cvtepu8_epi32(_mm_cvtsi32_si128(*aliasing_cast<int>(mem))));
 }
 template <typename Flags>
-Vc_INTRINSIC __m256d load(const schar *mem, Flags f, LoadTag<__m256d, double>)
+Vc_INTRINSIC __m256d load(const schar *mem, Flags, LoadTag<__m256d, double>)
 {
-    return AVX::convert<int, double>(load16(mem, f));
+    return AVX::convert<int, double>(
+        SSE::cvtepi8_epi32(_mm_cvtsi32_si128(*aliasing_cast<int>(mem))));
 }
 
 // float {{{2
-- 
2.43.0


From b292880df6ce89448b0cd52a34db9062dbb90524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:54 +0000
Subject: [PATCH 04/36] fix: AVX float_v load from uint rounds like static_cast

The signed conversion of (x - 2^31) followed by adding 2^31 rounds twice.
AVX::convert<uint, float> avoids that.
---
 Vc/avx/detail.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/Vc/avx/detail.h b/Vc/avx/detail.h
index 9263019..3db2460 100644
--- a/Vc/avx/detail.h
+++ b/Vc/avx/detail.h
@@ -407,12 +407,7 @@ Vc_INTRINSIC __m256 load(const double *mem, Flags f, LoadTag<__m256, float>)
 template <typename Flags>
 Vc_INTRINSIC __m256 load(const uint *mem, Flags f, LoadTag<__m256, float>)
 {
-    const auto v = load32(mem, f);
-    return _mm256_blendv_ps(
-        _mm256_cvtepi32_ps(v),
-        _mm256_add_ps(_mm256_cvtepi32_ps(AVX::sub_epi32(v, AVX::set2power31_epu32())),
-                      AVX::set2power31_ps()),
-        _mm256_castsi256_ps(AVX::cmplt_epi32(v, _mm256_setzero_si256())));
+    return AVX::convert<uint, float>(load32(mem, f));
 }
 template <typename Flags>
 Vc_INTRINSIC __m256 load(const int *mem, Flags f, LoadTag<__m256, float>)
-- 
2.43.0


From ac50a4318874c1ad7988f3fa1d8305f63acce035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:26 +0000
Subject: [PATCH 05/36] fix: SSE float_v aligned load from double must not
 require 32-byte alignment with AVX

---
 Vc/sse/detail.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/Vc/sse/detail.h b/Vc/sse/detail.h
index af29a5d..4c171e9 100644
--- a/Vc/sse/detail.h
+++ b/Vc/sse/detail.h
@@ -306,12 +306,11 @@ template <typename Flags>
 Vc_INTRINSIC __m128 load(const double *mem, Flags, LoadTag<__m128, float>)
 {
 #ifdef Vc_IMPL_AVX
-    if (Flags::IsUnaligned) {
-        return _mm256_cvtpd_ps(_mm256_loadu_pd(mem));
-    } else if (Flags::IsStreaming) {
+    if (Flags::IsStreaming && !Flags::IsUnaligned) {
         return _mm256_cvtpd_ps(AvxIntrinsics::stream_load<__m256d>(mem));
-    } else {  // Flags::IsAligned
-        return _mm256_cvtpd_ps(_mm256_load_pd(mem));
+    } else {
+        // Flags::IsAligned only implies SSE::float_v::MemoryAlignment, i.e. 16 Bytes
+        return _mm256_cvtpd_ps(_mm256_loadu_pd(mem));
     }
 #else
     return _mm_movelh_ps(_mm_cvtpd_ps(SSE::VectorHelper<__m128d>::load<Flags>(&mem[0])),
-- 
2.43.0


From 965dd21e1e826372f909c4e2cb366a33717d9c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:00 +0000
Subject: [PATCH 06/36] fix: masked increment must not turn -0 into +0 in
 unselected entries

---
 Vc/common/writemaskedvector.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Vc/common/writemaskedvector.h b/Vc/common/writemaskedvector.h
index 09541fc..6accfa5 100644
--- a/Vc/common/writemaskedvector.h
+++ b/Vc/common/writemaskedvector.h
@@ -56,9 +56,9 @@ public:
     // prefix
     Vc_INTRINSIC V &operator++()
     {
-        V one = V::One();
-        one.setZeroInverted(mask);
-        return vec += one;
+        // adding 0 to the unselected entries would turn -0. into +0.
+        vec.assign(static_cast<V>(vec + V::One()), mask);
+        return vec;
     }
     Vc_INTRINSIC V &operator--()
     {
-- 
2.43.0


From 5b51d87a5683b2fe86fac865aa06287fa9f09566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:18 +0000
Subject: [PATCH 07/36] fix: gathers of 8-bit and 16-bit integers must not read
 behind the addressed elements

---
 Vc/avx/vector.h | 58 +++----------------------------------------------
 Vc/sse/vector.h | 48 +++-------------------------------------
 2 files changed, 6 insertions(+), 100 deletions(-)

diff --git a/Vc/avx/vector.h b/Vc/avx/vector.h
index e07d4ca..1e1d95a 100644
--- a/Vc/avx/vector.h
+++ b/Vc/avx/vector.h
@@ -224,61 +224,9 @@ public:
                     .data());
         }
 
-        ////////////////////////////////////////////////////////////////////////////////
-        // converting (from 8-bit and 16-bit integers only) epi16 gather emulation via
-        // epi32 gathers
-        template <
-            class MT, class U, class A, int Scale,
-            class = enable_if<(sizeof(T) == 2 && std::is_integral<MT>::value &&
-                               (sizeof(MT) <= 2) && Vector<U, A>::size() >= size())>>
-        Vc_INTRINSIC void gatherImplementation(
-            const Common::GatherArguments<MT, Vector<U, A>, Scale> &args)
-        {
-            using AVX2::int_v;
-            const auto idx0 = simd_cast<int_v, 0>(args.indexes).data();
-            const auto idx1 = simd_cast<int_v, 1>(args.indexes).data();
-            *this = simd_cast<Vector>(int_v(AVX::gather<sizeof(MT) * Scale>(
-                                          aliasing_cast<int>(args.address), idx0)),
-                                      int_v(AVX::gather<sizeof(MT) * Scale>(
-                                          aliasing_cast<int>(args.address), idx1)));
-            if (sizeof(MT) == 1) {
-                if (std::is_signed<MT>::value) {
-                    using Signed = AVX2::Vector<typename std::make_signed<T>::type>;
-                    *this = (simd_cast<Signed>(*this) << 8) >> 8;  // sign extend
-                } else {
-                    *this &= 0xff;
-                }
-            }
-        }
-
-        // masked overload
-        template <
-            class MT, class U, class A, int Scale,
-            class = enable_if<(sizeof(T) == 2 && std::is_integral<MT>::value &&
-                               (sizeof(MT) <= 2) && Vector<U, A>::size() >= size())>>
-        Vc_INTRINSIC void gatherImplementation(
-            const Common::GatherArguments<MT, Vector<U, A>, Scale> &args, MaskArgument k)
-        {
-            using AVX2::int_v;
-            const auto idx0 = simd_cast<int_v, 0>(args.indexes).data();
-            const auto idx1 = simd_cast<int_v, 1>(args.indexes).data();
-            const auto k0 = simd_cast<AVX2::int_m, 0>(k).data();
-            const auto k1 = simd_cast<AVX2::int_m, 1>(k).data();
-            auto v = simd_cast<Vector>(
-                int_v(AVX::gather<sizeof(MT) * Scale>(
-                    _mm256_setzero_si256(), k0, aliasing_cast<int>(args.address), idx0)),
-                int_v(AVX::gather<sizeof(MT) * Scale>(
-                    _mm256_setzero_si256(), k1, aliasing_cast<int>(args.address), idx1)));
-            if (sizeof(MT) == 1) {
-                if (std::is_signed<MT>::value) {
-                    using Signed = AVX2::Vector<typename std::make_signed<T>::type>;
-                    v = (simd_cast<Signed>(v) << 8) >> 8;  // sign extend
-                } else {
-                    v &= 0xff;
-                }
-            }
-            assign(v, k);
-        }
+        // There is no gather instruction for 8-bit and 16-bit elements. Emulation via epi32
+        // gathers would read up to three bytes behind the addressed element, i.e. possibly
+        // outside of the array. The generic implementation is used for these.
 
         ////////////////////////////////////////////////////////////////////////////////
         // all remaining converting gathers
diff --git a/Vc/sse/vector.h b/Vc/sse/vector.h
index 6af4a03..8d87495 100644
--- a/Vc/sse/vector.h
+++ b/Vc/sse/vector.h
@@ -176,51 +176,9 @@ template <typename T> class Vector<T, VectorAbi::Sse>
                 simd_cast<SSE::int_v>(args.indexes).data());
         }
 
-        ////////////////////////////////////////////////////////////////////////////////
-        // converting (from 8-bit and 16-bit integers only) epi16 gather emulation via
-        // epi32 gathers
-        template <
-            class MT, class U, class A, int Scale,
-            class = enable_if<(sizeof(T) == 2 && std::is_integral<MT>::value &&
-                               (sizeof(MT) <= 2) && Vector<U, A>::size() >= size())>>
-        Vc_INTRINSIC void gatherImplementation(
-            const Common::GatherArguments<MT, Vector<U, A>, Scale> &args)
-        {
-            using AVX2::int_v;
-            const auto idx = simd_cast<int_v>(args.indexes).data();
-            *this = simd_cast<Vector>(int_v(
-                AVX::gather<sizeof(MT) * Scale>(aliasing_cast<int>(args.address), idx)));
-            if (sizeof(MT) == 1) {
-                if (std::is_signed<MT>::value) {
-                    d.v() = _mm_srai_epi16(_mm_slli_epi16(d.v(), 8), 8);
-                } else {
-                    *this &= 0xff;
-                }
-            }
-        }
-
-        // masked overload
-        template <
-            class MT, class U, class A, int Scale,
-            class = enable_if<(sizeof(T) == 2 && std::is_integral<MT>::value &&
-                               (sizeof(MT) <= 2) && Vector<U, A>::size() >= size())>>
-        Vc_INTRINSIC void gatherImplementation(
-            const Common::GatherArguments<MT, Vector<U, A>, Scale> &args, MaskArgument k)
-        {
-            using AVX2::int_v;
-            auto v = simd_cast<Vector>(int_v(AVX::gather<sizeof(MT) * Scale>(
-                _mm256_setzero_si256(), simd_cast<AVX2::int_m>(k).data(),
-                aliasing_cast<int>(args.address),
-                simd_cast<int_v>(args.indexes).data())));
-            if (sizeof(MT) == 1) {
-                if (std::is_signed<MT>::value) {
-                    v.data() = _mm_srai_epi16(_mm_slli_epi16(v.data(), 8), 8);
-                } else {
-                    v &= 0xff;
-                }
-            }
-            assign(v, k);
-        }
+        // There is no gather instruction for 8-bit and 16-bit elements. Emulation via epi32
+        // gathers would read up to three bytes behind the addressed element, i.e. possibly
+        // outside of the array. The generic implementation is used for these.
 
         ////////////////////////////////////////////////////////////////////////////////
         // all remaining converting gathers
-- 
2.43.0


From 0249d6457f358150c93503e2a76000c7e503f3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:52 +0000
Subject: [PATCH 08/36] fix: SSE2 conversion from double to uint must select
 the result per lane

---
 Vc/sse/casts.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Vc/sse/casts.h b/Vc/sse/casts.h
index 8df29df..13e009d 100644
--- a/Vc/sse/casts.h
+++ b/Vc/sse/casts.h
@@ -98,7 +98,9 @@ Vc_INTRINSIC __m128i convert(__m128d v, ConvertTag<double, uint  >) {
     return blendv_epi8(_mm_cvttpd_epi32(v),
                        _mm_xor_si128(_mm_cvttpd_epi32(_mm_sub_pd(v, _mm_set1_pd(0x80000000u))),
                                      _mm_cvtsi64_si128(0x8000000080000000ull)),
-                       _mm_castpd_si128(_mm_cmpge_pd(v, _mm_set1_pd(0x80000000u))));
+                       _mm_shuffle_epi32(_mm_castpd_si128(_mm_cmpge_pd(
+                                             v, _mm_set1_pd(0x80000000u))),
+                                         _MM_SHUFFLE(3, 1, 2, 0)));
 #endif
 }
 Vc_INTRINSIC __m128i convert(__m128i v, ConvertTag<int   , uint  >) { return v; }
-- 
2.43.0


From 7d5b8b5994d6329ce9d4fc114d9bfcfafb692c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:50 +0000
Subject: [PATCH 09/36] fix: permute of __m128d must use bit 1 of the shuffle
 immediate for the second entry

---
 Vc/sse/shuffle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Vc/sse/shuffle.h b/Vc/sse/shuffle.h
index 6652766..6318a97 100644
--- a/Vc/sse/shuffle.h
+++ b/Vc/sse/shuffle.h
@@ -106,7 +106,7 @@ namespace Mem
         template<VecPos Dst0, VecPos Dst1> static Vc_ALWAYS_INLINE Vc_CONST __m128d permute(__m128d x) {
             static_assert(Dst0 >= X0 && Dst1 >= X0, "Incorrect_Range");
             static_assert(Dst0 <= X1 && Dst1 <= X1, "Incorrect_Range");
-            return _mm_shuffle_pd(x, x, Dst0 + Dst1 * 4);
+            return _mm_shuffle_pd(x, x, Dst0 + Dst1 * 2);
         }
 
         template<VecPos Dst0, VecPos Dst1, VecPos Dst2, VecPos Dst3> static Vc_ALWAYS_INLINE __m128i Vc_CONST permute(__m128i x) {
-- 
2.43.0


From 11ea23de36e5849d752eafd3a91a382294679347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:50 +0000
Subject: [PATCH 10/36] fix: AVX2 uint_v deinterleave from unsigned short must
 not sign-extend

---
 Vc/avx/deinterleave.tcc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Vc/avx/deinterleave.tcc b/Vc/avx/deinterleave.tcc
index 2f36825..0880ce1 100644
--- a/Vc/avx/deinterleave.tcc
+++ b/Vc/avx/deinterleave.tcc
@@ -249,11 +249,11 @@ inline void deinterleave(AVX2::uint_v &a, AVX2::uint_v &b, const unsigned short
     const AVX2::ushort_v tmp0(m, f);
     const m256i tmp = tmp0.data();
     a.data() = concat(
-                _mm_srai_epi32(_mm_slli_epi32(lo128(tmp), 16), 16),
-                _mm_srai_epi32(_mm_slli_epi32(hi128(tmp), 16), 16));
+                _mm_srli_epi32(_mm_slli_epi32(lo128(tmp), 16), 16),
+                _mm_srli_epi32(_mm_slli_epi32(hi128(tmp), 16), 16));
     b.data() = concat(
-                _mm_srai_epi32(lo128(tmp), 16),
-                _mm_srai_epi32(hi128(tmp), 16));
+                _mm_srli_epi32(lo128(tmp), 16),
+                _mm_srli_epi32(hi128(tmp), 16));
 }
 
 template <typename Flags>
-- 
2.43.0


From 17219fe023e0942e3a8a78e805b6791a6b86407f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:29 +0000
Subject: [PATCH 11/36] fix: masked min/max reductions start from the neutral
 element

Without Vc/limits numeric_limits<float_v> is the primary template and yields 0; with it max(mask) started
from the smallest positive value and min(mask) from a finite one.
---
 Vc/avx/vector.tcc | 10 ++++++++--
 Vc/sse/vector.tcc | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/Vc/avx/vector.tcc b/Vc/avx/vector.tcc
index 63d867d..abd609d 100644
--- a/Vc/avx/vector.tcc
+++ b/Vc/avx/vector.tcc
@@ -600,13 +600,19 @@ template<typename T> template<typename BinaryOperation> Vc_ALWAYS_INLINE AVX2::V
 
 template<typename T> Vc_ALWAYS_INLINE typename Vector<T, VectorAbi::Avx>::EntryType Vector<T, VectorAbi::Avx>::min(MaskArgument m) const
 {
-    AVX2::Vector<T> tmp = std::numeric_limits<AVX2::Vector<T> >::max();
+    // the neutral element: infinity, not the largest finite value, for floating point
+    AVX2::Vector<T> tmp(std::numeric_limits<T>::has_infinity
+                   ? T(std::numeric_limits<T>::infinity())
+                   : std::numeric_limits<T>::max());
     tmp(m) = *this;
     return tmp.min();
 }
 template<typename T> Vc_ALWAYS_INLINE typename Vector<T, VectorAbi::Avx>::EntryType Vector<T, VectorAbi::Avx>::max(MaskArgument m) const
 {
-    AVX2::Vector<T> tmp = std::numeric_limits<AVX2::Vector<T> >::min();
+    // the neutral element: infinity, not the largest finite value, for floating point
+    AVX2::Vector<T> tmp(std::numeric_limits<T>::has_infinity
+                   ? T(-std::numeric_limits<T>::infinity())
+                   : std::numeric_limits<T>::lowest());
     tmp(m) = *this;
     return tmp.max();
 }
diff --git a/Vc/sse/vector.tcc b/Vc/sse/vector.tcc
index d857ca1..8205f36 100644
--- a/Vc/sse/vector.tcc
+++ b/Vc/sse/vector.tcc
@@ -425,13 +425,19 @@ template<> Vc_INTRINSIC Vc_PURE unsigned int SSE::uint_v::product() const
 #endif
 template<typename T> Vc_ALWAYS_INLINE Vc_PURE typename Vector<T, VectorAbi::Sse>::EntryType Vector<T, VectorAbi::Sse>::min(MaskArg m) const
 {
-    Vector<T, VectorAbi::Sse> tmp = std::numeric_limits<Vector<T, VectorAbi::Sse> >::max();
+    // the neutral element: infinity, not the largest finite value, for floating point
+    Vector<T, VectorAbi::Sse> tmp(std::numeric_limits<T>::has_infinity
+                   ? T(std::numeric_limits<T>::infinity())
+                   : std::numeric_limits<T>::max());
     tmp(m) = *this;
     return tmp.min();
 }
 template<typename T> Vc_ALWAYS_INLINE Vc_PURE typename Vector<T, VectorAbi::Sse>::EntryType Vector<T, VectorAbi::Sse>::max(MaskArg m) const
 {
-    Vector<T, VectorAbi::Sse> tmp = std::numeric_limits<Vector<T, VectorAbi::Sse> >::min();
+    // the neutral element: infinity, not the largest finite value, for floating point
+    Vector<T, VectorAbi::Sse> tmp(std::numeric_limits<T>::has_infinity
+                   ? T(-std::numeric_limits<T>::infinity())
+                   : std::numeric_limits<T>::lowest());
     tmp(m) = *this;
     return tmp.max();
 }
-- 
2.43.0


From 1ee5c5f5e4edf21320d192efecd27488083de6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:29 +0000
Subject: [PATCH 12/36] fix: AVX float_v::minIndex returns the index, not the
 bits of a float

---
 Vc/avx/vector.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Vc/avx/vector.tcc b/Vc/avx/vector.tcc
index abd609d..746ec30 100644
--- a/Vc/avx/vector.tcc
+++ b/Vc/avx/vector.tcc
@@ -538,7 +538,7 @@ template <> Vc_INTRINSIC std::pair<AVX2::float_v, int> AVX2::float_v::minIndex()
 
     // 28 cycles Latency:
     __m256 x = d.v();
-    __m256 idx = Vector<float>::IndexesFromZero().data();
+    __m256 idx = _mm256_castsi256_ps(_mm256_setr_epi32(0, 1, 2, 3, 4, 5, 6, 7));
     __m256 y = Mem::permute128<X1, X0>(x);
     __m256 idy = Mem::permute128<X1, X0>(idx);
     __m256 less = AVX::cmplt_ps(x, y);
-- 
2.43.0


From 6311e1e75ec2ea8eb99b3be88281439521efc75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:21 +0000
Subject: [PATCH 13/36] fix: SimdArray::shifted(int) between halves of
 different sizes

The upper half took its elements from the wrong end of the lower half when the array is split unevenly, and the lower
half was filled from a shorter vector without padding.
---
 Vc/common/simdarray.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Vc/common/simdarray.h b/Vc/common/simdarray.h
index 0434560..e7d355e 100644
--- a/Vc/common/simdarray.h
+++ b/Vc/common/simdarray.h
@@ -1134,7 +1134,9 @@ public:
         }
         if (amount < 0) {
             if (amount > -SSize0) {
-                return {data0.shifted(amount), data1.shifted(amount, data0)};
+                return {data0.shifted(amount),
+                        simd_cast<storage_type1>(data0.shifted(
+                            amount + SSize0, simd_cast<storage_type0>(data1)))};
             }
             if (amount == -SSize0) {
                 return {storage_type0(0), simd_cast<storage_type1>(data0)};
@@ -1152,9 +1154,11 @@ public:
                     simd_cast<storage_type0>(data1).shifted(amount - SSize0),
                     storage_type1(0)};
             } else if (amount >= SSize1) {
-                return {data0.shifted(amount, data1), storage_type1(0)};
+                return {data0.shifted(amount, simd_cast<storage_type0>(data1)),
+                        storage_type1(0)};
             } else {
-                return {data0.shifted(amount, data1), data1.shifted(amount)};
+                return {data0.shifted(amount, simd_cast<storage_type0>(data1)),
+                        data1.shifted(amount)};
             }
         }
     }
-- 
2.43.0


From 2ef43fa91a1bf9007df1421610a7e8102831d62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 14/36] fix: scalar round() of 0.49999997f and of large odd
 values

---
 Vc/scalar/math.h | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/Vc/scalar/math.h b/Vc/scalar/math.h
index 469a35f..a9afb40 100644
--- a/Vc/scalar/math.h
+++ b/Vc/scalar/math.h
@@ -184,23 +184,14 @@ template<typename T> static Vc_ALWAYS_INLINE Scalar::Vector<T> round(const Scala
     return x;
 }
 
-namespace
-{
-    template<typename T> bool _realIsEvenHalf(T x) {
-        const T two = 2;
-        const T half = 0.5;
-        const T f = std::floor(x * half) * two;
-        return (x - f) == half;
-    }
-} // namespace
 template<> Vc_ALWAYS_INLINE Scalar::Vector<float>  round(const Scalar::Vector<float>  &x)
 {
-    return Scalar::float_v(std::floor(x.data() + 0.5f) - (_realIsEvenHalf(x.data()) ? 1.f : 0.f));
+    return Scalar::float_v(std::nearbyint(x.data()));
 }
 
 template<> Vc_ALWAYS_INLINE Scalar::Vector<double> round(const Scalar::Vector<double> &x)
 {
-    return Scalar::double_v(std::floor(x.data() + 0.5 ) - (_realIsEvenHalf(x.data()) ? 1.  : 0. ));
+    return Scalar::double_v(std::nearbyint(x.data()));
 }
 
 template<typename T> static Vc_ALWAYS_INLINE Scalar::Vector<T> reciprocal(const Scalar::Vector<T> &x)
-- 
2.43.0


From 829d8d3ed1a078c659b3024c75b9bd3fa41b01e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 15/36] fix: SSE2 round() of values beyond the int range,
 infinities and NaN

---
 Vc/sse/vectorhelper.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/Vc/sse/vectorhelper.h b/Vc/sse/vectorhelper.h
index 1b51646..e25d665 100644
--- a/Vc/sse/vectorhelper.h
+++ b/Vc/sse/vectorhelper.h
@@ -211,7 +211,12 @@ namespace SSE
                 return _mm_round_pd(a, _MM_FROUND_NINT);
 #else
                 //XXX: slow: _MM_SET_ROUNDING_MODE(_MM_ROUND_NEAREST);
-                return _mm_cvtepi32_pd(_mm_cvtpd_epi32(a));
+                // adding 2^52 leaves no fractional bits, larger values don't have any
+                const VectorType limit = _mm_set1_pd(4503599627370496.);
+                const VectorType abs_a = abs(a);
+                const VectorType mask = _mm_and_pd(_mm_cmplt_pd(abs_a, limit), _mm_setabsmask_pd());
+                return _mm_or_pd(_mm_and_pd(mask, sub(add(abs_a, limit), limit)),
+                                 _mm_andnot_pd(mask, a));
 #endif
             }
         };
@@ -293,7 +298,12 @@ namespace SSE
                 return _mm_round_ps(a, _MM_FROUND_NINT);
 #else
                 //XXX slow: _MM_SET_ROUNDING_MODE(_MM_ROUND_NEAREST);
-                return _mm_cvtepi32_ps(_mm_cvtps_epi32(a));
+                // adding 2^23 leaves no fractional bits, larger values don't have any
+                const VectorType limit = _mm_set1_ps(8388608.f);
+                const VectorType abs_a = abs(a);
+                const VectorType mask = _mm_and_ps(_mm_cmplt_ps(abs_a, limit), _mm_setabsmask_ps());
+                return _mm_or_ps(_mm_and_ps(mask, sub(add(abs_a, limit), limit)),
+                                 _mm_andnot_ps(mask, a));
 #endif
             }
         };
-- 
2.43.0


From 2aea91a64f8a192704aa36b689392074bf1f1855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 16/36] fix: AVX Vector::exponent() returns its result

---
 Vc/avx/vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Vc/avx/vector.h b/Vc/avx/vector.h
index 1e1d95a..d74d877 100644
--- a/Vc/avx/vector.h
+++ b/Vc/avx/vector.h
@@ -440,7 +440,7 @@ public:
 
         Vc_DEPRECATED("use exponent(x) instead") Vc_INTRINSIC Vector exponent() const
         {
-            Vc::exponent(*this);
+            return Vc::exponent(*this);
         }
 
         Vc_INTRINSIC_L Vector interleaveLow(Vector x) const Vc_INTRINSIC_R;
-- 
2.43.0


From 8647580b751ae30cdf48190a3b4e825e4d61bec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 17/36] fix: ldexp of infinities and NaN

---
 Vc/avx/math.h | 4 ++--
 Vc/sse/math.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Vc/avx/math.h b/Vc/avx/math.h
index d5f8491..b92626d 100644
--- a/Vc/avx/math.h
+++ b/Vc/avx/math.h
@@ -248,7 +248,7 @@ inline AVX2::float_v frexp(AVX2::float_v::AsArg v, SimdArray<int, 8> *e)
 inline AVX2::double_v ldexp(AVX2::double_v::AsArg v, const SimdArray<int, 4> &_e)
 {
     SSE::int_v e = internal_data(_e);
-    e.setZero(simd_cast<SSE::int_m>(v == AVX2::double_v::Zero()));
+    e.setZero(simd_cast<SSE::int_m>(v == AVX2::double_v::Zero() || !isfinite(v)));
     const __m256i exponentBits =
         AVX::concat(_mm_slli_epi64(_mm_unpacklo_epi32(e.data(), e.data()), 52),
                     _mm_slli_epi64(_mm_unpackhi_epi32(e.data(), e.data()), 52));
@@ -257,7 +257,7 @@ inline AVX2::double_v ldexp(AVX2::double_v::AsArg v, const SimdArray<int, 4> &_e
 }
 inline AVX2::float_v ldexp(AVX2::float_v::AsArg v, SimdArray<int, 8> e)
 {
-    e.setZero(simd_cast<decltype(e == e)>(v == AVX2::float_v::Zero()));
+    e.setZero(simd_cast<decltype(e == e)>(v == AVX2::float_v::Zero() || !isfinite(v)));
     e <<= 23;
 #ifdef Vc_IMPL_AVX2
     return {AVX::avx_cast<__m256>(
diff --git a/Vc/sse/math.h b/Vc/sse/math.h
index ed399ce..bf5079f 100644
--- a/Vc/sse/math.h
+++ b/Vc/sse/math.h
@@ -93,7 +93,7 @@ inline SSE::double_v ldexp(SSE::double_v::AsArg v,
                            const SimdArray<int, 2, Scalar::int_v, 1> &_e)
 {
     SSE::int_v e = _mm_setr_epi32(_e[0], 0, _e[1], 0);
-    e.setZero((v == SSE::double_v::Zero()).dataI());
+    e.setZero((v == SSE::double_v::Zero() || !isfinite(v)).dataI());
     const __m128i exponentBits = _mm_slli_epi64(e.data(), 52);
     return _mm_castsi128_pd(_mm_add_epi64(_mm_castpd_si128(v.data()), exponentBits));
 }
@@ -101,7 +101,7 @@ inline SSE::float_v ldexp(SSE::float_v::AsArg v,
                           const SimdArray<int, 4, SSE::int_v, 4> &_e)
 {
     SSE::int_v e = internal_data(_e);
-    e.setZero(simd_cast<SSE::int_m>(v == SSE::float_v::Zero()));
+    e.setZero(simd_cast<SSE::int_m>(v == SSE::float_v::Zero() || !isfinite(v)));
     return reinterpret_components_cast<SSE::float_v>(
         reinterpret_components_cast<SSE::int_v>(v) + (e << 23));
 }
-- 
2.43.0


From 91e44cde372969a9c89634fe1dd6696b15a60e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 18/36] fix: SSE2 trunc/floor/ceil(double_v) of values at and
 beyond 2^52

---
 Vc/sse/math.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Vc/sse/math.h b/Vc/sse/math.h
index bf5079f..1de5e1e 100644
--- a/Vc/sse/math.h
+++ b/Vc/sse/math.h
@@ -138,6 +138,11 @@ inline SSE::Vector<double> trunc(SSE::Vector<double> x)
     // abs(x)` holds, so subtract 1 to truncated if `abs(x) < truncated`
     truncated = _mm_sub_pd(truncated,
                            _mm_and_pd(_mm_cmplt_pd(abs_x, truncated), _mm_set1_pd(1.)));
+    // values without fractional bits (and NaN) are returned unchanged; the addition above
+    // may have rounded them
+    const auto may_have_fraction = _mm_cmplt_pd(abs_x, min_no_fractional_bits);
+    truncated = _mm_or_pd(_mm_and_pd(may_have_fraction, truncated),
+                          _mm_andnot_pd(may_have_fraction, abs_x));
     // finally, fix the sign bit:
     return _mm_or_pd(
         _mm_and_pd(_mm_castsi128_pd(_mm_set1_epi64x(0x8000000000000000ull)), x.data()),
-- 
2.43.0


From ed3195c104b6065064e1bdcbbdc9ecda16e58724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 19/36] fix: log, log2, log10 of infinity and NaN

---
 Vc/common/logarithm.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Vc/common/logarithm.h b/Vc/common/logarithm.h
index a4a7bf9..7d9589d 100644
--- a/Vc/common/logarithm.h
+++ b/Vc/common/logarithm.h
@@ -246,6 +246,7 @@ static inline Vector<T, Abi> calc(V _x)
 
         log_series(x, exponent); // A: (ˣ⁄₂ᵉ - 1, e)  B: (ˣ⁄₂ᵉ⁺¹ - 1, e + 1)
 
+        x(!isfinite(_x)) = _x;         // ∞ → ∞, NaN → NaN
         x.setQnan(invalidMask);        // x < 0 → NaN
         x(infinityMask) = C::neginf(); // x = 0 → -∞
 
-- 
2.43.0


From 1f121e84d8556419c5cfafd6afd09e39c4fff5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:19 +0000
Subject: [PATCH 20/36] fix: extended family field of the CPUID signature
 starts at bit 20

---
 src/cpuid.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cpuid.cpp b/src/cpuid.cpp
index e93a1cb..2b7ba6d 100644
--- a/src/cpuid.cpp
+++ b/src/cpuid.cpp
@@ -147,13 +147,13 @@ void CpuId::init()
     s_processorFamily = (eax & 0x00000f00) >> 8;
     if (isAmd()) {
         if (s_processorFamily >= 0xf) {
-            const uchar processorFamilyExt = (eax & 0x0ff00000) >> 16;
+            const uchar processorFamilyExt = (eax & 0x0ff00000) >> 20;
             s_processorFamily += processorFamilyExt;
             const uchar processorModelExt = (eax & 0x000f0000) >> 12;
             s_processorModel += processorModelExt;
         }
     } else if (s_processorFamily == 0xf) {
-        const uchar processorFamilyExt = (eax & 0x0ff00000) >> 16;
+        const uchar processorFamilyExt = (eax & 0x0ff00000) >> 20;
         s_processorFamily += processorFamilyExt;
         const uchar processorModelExt = (eax & 0x000f0000) >> 12;
         s_processorModel += processorModelExt;
@@ -161,7 +161,7 @@ void CpuId::init()
         const uchar processorModelExt = (eax & 0x000f0000) >> 12;
         s_processorModel += processorModelExt;
     } else if (s_processorFamily == 0xB) {
-        const uchar processorFamilyExt = (eax & 0x0ff00000) >> 16;
+        const uchar processorFamilyExt = (eax & 0x0ff00000) >> 20;
         s_processorFamily += processorFamilyExt;
         const uchar processorModelExt = (eax & 0x000f0000) >> 12;
         s_processorModel += processorModelExt;
-- 
2.43.0


From 00225a60c5433adffded6d85439ceb9f8d89c3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:19 +0000
Subject: [PATCH 21/36] fix: AMD L3 associativity is in EDX of CPUID leaf
 80000006h

---
 src/cpuid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpuid.cpp b/src/cpuid.cpp
index 2b7ba6d..f477fed 100644
--- a/src/cpuid.cpp
+++ b/src/cpuid.cpp
@@ -198,7 +198,7 @@ void CpuId::init()
         s_L2Associativity = CpuIdAmdAssociativityTable((ecx >> 12) & 0xf);
         s_L3DataLineSize = edx & 0xff;
         s_L3Data = (edx >> 18) * 512 * 1024;
-        s_L3Associativity = CpuIdAmdAssociativityTable((ecx >> 12) & 0xf);
+        s_L3Associativity = CpuIdAmdAssociativityTable((edx >> 12) & 0xf);
         return;
     }
 
-- 
2.43.0


From f74c77d25312547f943ef5afb81c64619bc6c304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:19 +0000
Subject: [PATCH 22/36] fix: CPUID cache descriptor 30h is an instruction cache

---
 src/cpuid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpuid.cpp b/src/cpuid.cpp
index f477fed..dd226ec 100644
--- a/src/cpuid.cpp
+++ b/src/cpuid.cpp
@@ -380,8 +380,8 @@ void CpuId::interpret(uchar byte, bool *checkLeaf4)
         s_L1Associativity = 8;
         break;
     case 0x30:
-        s_L1Data = 32 * 1024;
-        s_L1DataLineSize = 64;
+        s_L1Instruction = 32 * 1024;
+        s_L1InstructionLineSize = 64;
         s_L1Associativity = 8;
         break;
     case 0x40:
-- 
2.43.0


From 0998aec9fe864a52126f12bbddd818a70b542962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:45 +0000
Subject: [PATCH 23/36] fix: CurrentImplementation includes F16C

---
 Vc/global.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Vc/global.h b/Vc/global.h
index d19dc45..9b823d1 100644
--- a/Vc/global.h
+++ b/Vc/global.h
@@ -605,6 +605,9 @@ using CurrentImplementation = ImplementationT<
 #endif
 #endif
 #endif
+#ifdef Vc_IMPL_F16C
+    + Vc::Float16cInstructions
+#endif
 #ifdef Vc_IMPL_POPCNT
     + Vc::PopcntInstructions
 #endif
-- 
2.43.0


From 78cb9fc8cd96db363fc787635adcfe2a5baf6e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:17 +0000
Subject: [PATCH 24/36] fix: AVX::_IndexesFromZero16 is loaded with 32-byte
 alignment

short_v::IndexesFromZero() and ushort_v::IndexesFromZero() of AVX2 read the
table with an aligned 32-byte load, but the table was declared with an
alignment of only 16.
---
 Vc/avx/const_data.h | 2 +-
 src/const.cpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Vc/avx/const_data.h b/Vc/avx/const_data.h
index 9d0a0c1..2c74e78 100644
--- a/Vc/avx/const_data.h
+++ b/Vc/avx/const_data.h
@@ -37,7 +37,7 @@ namespace AVX
 {
 
 alignas(64) extern const unsigned int   _IndexesFromZero32[ 8];
-alignas(16) extern const unsigned short _IndexesFromZero16[16];
+alignas(32) extern const unsigned short _IndexesFromZero16[16];
 alignas(16) extern const unsigned char  _IndexesFromZero8 [32];
 
 struct alignas(64) c_general
diff --git a/src/const.cpp b/src/const.cpp
index 94dd65a..b39949f 100644
--- a/src/const.cpp
+++ b/src/const.cpp
@@ -45,7 +45,7 @@ namespace AVX
 
     // cacheline 1
     alignas(64) extern const unsigned int   _IndexesFromZero32[ 8] = { 0, 1, 2, 3, 4, 5, 6, 7 };
-    alignas(16) extern const unsigned short _IndexesFromZero16[16] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15 };
+    alignas(32) extern const unsigned short _IndexesFromZero16[16] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15 };
     alignas(16) extern const unsigned char  _IndexesFromZero8 [32] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31 };
 
     template <>
-- 
2.43.0


From 4f869a93c3a9890bba976d9697b9e8f6e13d1c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:55 +0000
Subject: [PATCH 25/36] fix: deprecated member exponent() calls the implemented
 overload

The qualified call is bound to the declaration of the function template, which
has no definition, when the class is parsed.
---
 Vc/avx/vector.h    | 3 ++-
 Vc/scalar/vector.h | 3 ++-
 Vc/sse/vector.h    | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/Vc/avx/vector.h b/Vc/avx/vector.h
index d74d877..ca3c0c3 100644
--- a/Vc/avx/vector.h
+++ b/Vc/avx/vector.h
@@ -440,7 +440,8 @@ public:
 
         Vc_DEPRECATED("use exponent(x) instead") Vc_INTRINSIC Vector exponent() const
         {
-            return Vc::exponent(*this);
+            using Vc::exponent;
+            return exponent(*this);
         }
 
         Vc_INTRINSIC_L Vector interleaveLow(Vector x) const Vc_INTRINSIC_R;
diff --git a/Vc/scalar/vector.h b/Vc/scalar/vector.h
index c6d979a..8781743 100644
--- a/Vc/scalar/vector.h
+++ b/Vc/scalar/vector.h
@@ -294,7 +294,8 @@ template <typename T> class Vector<T, VectorAbi::Scalar>
 
         Vc_DEPRECATED("use exponent(x) instead") Vc_INTRINSIC Vector exponent() const
         {
-            return Vc::exponent(*this);
+            using Vc::exponent;
+            return exponent(*this);
         }
 
         Vc_INTRINSIC Vector Vc_VDECL interleaveLow(Vector) const { return *this; }
diff --git a/Vc/sse/vector.h b/Vc/sse/vector.h
index 8d87495..e6ef5ed 100644
--- a/Vc/sse/vector.h
+++ b/Vc/sse/vector.h
@@ -376,7 +376,8 @@ template <typename T> class Vector<T, VectorAbi::Sse>
 
         Vc_DEPRECATED("use exponent(x) instead") Vc_INTRINSIC Vector exponent() const
         {
-            return Vc::exponent(*this);
+            using Vc::exponent;
+            return exponent(*this);
         }
 
         Vc_INTRINSIC_L Vector interleaveLow(Vector x) const Vc_INTRINSIC_R;
-- 
2.43.0


From 5b6c44692888d304750764373f7d3143d733ce58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:30 +0000
Subject: [PATCH 26/36] fix: Memory::operator!= is the negation of operator==

It returned true only if all entries (and the padding, which is zero in both
objects) were different.
---
 Vc/common/memorybase.h | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/Vc/common/memorybase.h b/Vc/common/memorybase.h
index 9e96e88..bb7f579 100644
--- a/Vc/common/memorybase.h
+++ b/Vc/common/memorybase.h
@@ -716,13 +716,7 @@ template<typename V, typename Parent, int Dimension, typename RowMemory> class M
          */
         template<typename P2, typename RM>
         inline bool operator!=(const MemoryBase<V, P2, Dimension, RM> &rhs) const {
-            assert(vectorsCount() == rhs.vectorsCount());
-            for (size_t i = 0; i < vectorsCount(); ++i) {
-                if (!(V(vector(i)) == V(rhs.vector(i))).isEmpty()) {
-                    return false;
-                }
-            }
-            return true;
+            return !(*this == rhs);
         }
 
         /**
-- 
2.43.0


From 49283089334cdabee99b9cda4456f5cd649af31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:30 +0000
Subject: [PATCH 27/36] fix: Memory<V>(0) wrote in front of the allocated
 memory

---
 Vc/common/memory.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Vc/common/memory.h b/Vc/common/memory.h
index 8275dfd..5ebba5f 100644
--- a/Vc/common/memory.h
+++ b/Vc/common/memory.h
@@ -397,7 +397,9 @@ class Memory<V, Size, 0u, InitPadding> :
             m_mem(Vc::malloc<EntryType, Vc::AlignOnVector>(m_vectorsCount))
         {
             m_vectorsCount /= V::Size;
-            Base::lastVector() = V::Zero();
+            if (m_vectorsCount > 0) {
+                Base::lastVector() = V::Zero();
+            }
         }
 
         /**
-- 
2.43.0


From 42546d8fdca4911fd4a483ec35222bcdf2d6e1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:25 +0000
Subject: [PATCH 28/36] fix: Allocator::max_size() takes the extra bytes into
 account

allocate(n) with n close to max_size() overflowed and returned a block of a few
bytes instead of throwing bad_alloc.
---
 Vc/Allocator | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Vc/Allocator b/Vc/Allocator
index 60febff..3c3a19d 100644
--- a/Vc/Allocator
+++ b/Vc/Allocator
@@ -207,7 +207,7 @@ namespace Vc_VERSIONED_NAMESPACE
             ::operator delete(p);
         }
 
-        size_type max_size() const throw() { return size_t(-1) / sizeof(T); }
+        size_type max_size() const throw() { return (size_t(-1) - ExtraBytes) / sizeof(T); }
 
 #ifdef Vc_MSVC
         // MSVC brokenness: the following function is optional - just doesn't compile without it
-- 
2.43.0


From 81d522c48c024169ddd08daa4e20eab180d5c7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:16 +0000
Subject: [PATCH 29/36] fix: load_interleaved/store_interleaved exchanged the
 members of std::tuple

libstdc++ stores the members of std::tuple in reverse order, but
InterleavedMemoryWrapper numbers them in the order of their addresses.
---
 Vc/common/simdize.h | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/Vc/common/simdize.h b/Vc/common/simdize.h
index 5fa34d0..3d5dcfd 100644
--- a/Vc/common/simdize.h
+++ b/Vc/common/simdize.h
@@ -1162,6 +1162,26 @@ template <typename A> inline void swap(Scalar<A> &&a, Scalar<A> &&b)
     swap_impl(a.a, a.i, b.a, b.i, typename Scalar<A>::IndexSeq());
 }
 // }}}
+// is_stored_in_order {{{
+/**\internal
+ * Returns whether the members of \p x are stored without gaps in the order of their
+ * indexes. InterleavedMemoryWrapper relies on this, but it is not given for all types:
+ * e.g. libstdc++ stores the members of std::tuple in reverse order.
+ */
+template <class S, size_t... I>
+inline bool is_stored_in_order(const S &x, Vc::index_sequence<I...>)
+{
+    const auto address = [](const void *p) { return static_cast<const char *>(p); };
+    const char *const base = address(std::addressof(x));
+    for (bool in_order : {address(std::addressof(get_dispatcher<I>(x))) ==
+                          base + I * (sizeof(S) / sizeof...(I))...}) {
+        if (!in_order) {
+            return false;
+        }
+    }
+    return true;
+}
+// }}}
 // load_interleaved_impl {{{
 template <class S, class T, size_t N, size_t... I>
 inline void load_interleaved_impl(Vc::index_sequence<I...>, Adapter<S, T, N> &a,
@@ -1256,11 +1276,12 @@ Vc_INTRINSIC typename V::EntryType extract(const V &v, size_t i)
 template <class S, class T, size_t N>
 inline void load_interleaved(SimdizeDetail::Adapter<S, T, N> &a, const S *mem)
 {
-    if (SimdizeDetail::homogeneous_sizeof<S>::value == 0) {
+    constexpr size_t TupleSize = SimdizeDetail::determine_tuple_size_<S>::value;
+    if (SimdizeDetail::homogeneous_sizeof<S>::value == 0 ||
+        !SimdizeDetail::is_stored_in_order(*mem, Vc::make_index_sequence<TupleSize>())) {
         Common::unrolled_loop<std::size_t, 0, N>(
             [&](std::size_t i) { assign(a, i, mem[i]); });
     } else {
-        constexpr size_t TupleSize = SimdizeDetail::determine_tuple_size_<S>::value;
         SimdizeDetail::load_interleaved_impl(Vc::make_index_sequence<TupleSize>(), a,
                                              mem);
     }
@@ -1277,11 +1298,12 @@ Vc_INTRINSIC void load_interleaved(V &a, const T *mem)
 template <class S, class T, size_t N>
 inline void store_interleaved(const SimdizeDetail::Adapter<S, T, N> &a, S *mem)
 {
-    if (SimdizeDetail::homogeneous_sizeof<S>::value == 0) {
+    constexpr size_t TupleSize = SimdizeDetail::determine_tuple_size_<S>::value;
+    if (SimdizeDetail::homogeneous_sizeof<S>::value == 0 ||
+        !SimdizeDetail::is_stored_in_order(*mem, Vc::make_index_sequence<TupleSize>())) {
         Common::unrolled_loop<std::size_t, 0, N>(
             [&](std::size_t i) { mem[i] = extract(a, i); });
     } else {
-        constexpr size_t TupleSize = SimdizeDetail::determine_tuple_size_<S>::value;
         SimdizeDetail::store_interleaved_impl(Vc::make_index_sequence<TupleSize>(), a,
                                               mem);
     }
-- 
2.43.0


From 892442aea9a34e32a740144fdca62fb5f7f5883c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:28 +0000
Subject: [PATCH 30/36] fix: decorate(v).load and store compile

---
 Vc/common/simdize.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Vc/common/simdize.h b/Vc/common/simdize.h
index 3d5dcfd..8756ebe 100644
--- a/Vc/common/simdize.h
+++ b/Vc/common/simdize.h
@@ -1225,8 +1225,8 @@ public:
         return shifted_impl(a, amount, IndexSeq());
     }
 
-    void load(const typename A::scalar_type *mem) { load_interleaved(*this, mem); }
-    void store(typename A::scalar_type *mem) { store_interleaved(*this, mem); }
+    void load(const typename A::scalar_type *mem) { load_interleaved(a, mem); }
+    void store(typename A::scalar_type *mem) { store_interleaved(a, mem); }
 
 private:
     reference a;
-- 
2.43.0


From 424a29908ae1b8ac7929cb5611f5ef827ce83357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:38 +0000
Subject: [PATCH 31/36] fix: simdized iterators over structures with
 Vc_SIMDIZE_INTERFACE compile

---
 Vc/common/simdize.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Vc/common/simdize.h b/Vc/common/simdize.h
index 8756ebe..bb17ce5 100644
--- a/Vc/common/simdize.h
+++ b/Vc/common/simdize.h
@@ -1371,7 +1371,7 @@ Vc_INTRINSIC V fromIteratorImpl(enable_if<(I < End), It> it)
 template <typename It, typename V>
 Vc_INTRINSIC V fromIterator(enable_if<!Traits::is_simd_vector<V>::value, const It &> it)
 {
-    return fromIteratorImpl<It, V, 0, determine_tuple_size<V>()>(it);
+    return fromIteratorImpl<It, V, 0, determine_tuple_size<typename V::scalar_type>()>(it);
 }
 
 template <typename It, typename V>
-- 
2.43.0


From 4f690190e79f5226c31e24680c4b264acb27163e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:01 +0000
Subject: [PATCH 32/36] fix: operator[] of constant simdized iterators compiles

---
 Vc/common/simdize.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Vc/common/simdize.h b/Vc/common/simdize.h
index bb17ce5..da5900a 100644
--- a/Vc/common/simdize.h
+++ b/Vc/common/simdize.h
@@ -1832,7 +1832,11 @@ public:
     }
 
     reference operator[](difference_type i) { return *(*this + i); }
-    const_reference operator[](difference_type i) const { return *(*this + i); }
+    const_reference operator[](difference_type i) const
+    {
+        const Iterator it = *this + i;
+        return *it;
+    }
 };
 
 template <typename T, size_t N, IteratorDetails::Mutable M, typename V, size_t Size>
-- 
2.43.0


From 827eb20df03320fa133423daf6a4aa94b2d309a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:03 +0000
Subject: [PATCH 33/36] fix: assignment to operator[] of simdized iterators
 used a destroyed temporary

---
 Vc/common/simdize.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/Vc/common/simdize.h b/Vc/common/simdize.h
index da5900a..c647708 100644
--- a/Vc/common/simdize.h
+++ b/Vc/common/simdize.h
@@ -1501,13 +1501,12 @@ class Reference<T, value_vector, Mutable::Yes> : public value_vector
 {
     static constexpr auto Size = value_vector::size();
 
-    using reference = typename std::add_lvalue_reference<T>::type;
-    reference scalar_it;
+    T scalar_it;
 
 public:
-    /// Construct the reference from the given iterator \p first_it and store a reference
-    /// to the iterator for write back in the assignment operator.
-    Reference(reference first_it)
+    /// Construct the reference from the given iterator \p first_it and store a copy of the
+    /// iterator (which may be a temporary object) for write back in the assignment operator.
+    Reference(const T &first_it)
         : value_vector(fromIterator<T, value_vector>(first_it)), scalar_it(first_it)
     {
     }
-- 
2.43.0


From 39ab91818e17175d7816e5150fc066d63df2bff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:25 +0000
Subject: [PATCH 34/36] fix: transpose() returned references to its by-value
 parameters

---
 Vc/common/transpose.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Vc/common/transpose.h b/Vc/common/transpose.h
index f8928f9..8b18f2c 100644
--- a/Vc/common/transpose.h
+++ b/Vc/common/transpose.h
@@ -39,7 +39,7 @@ template <typename... Inputs> struct TransposeProxy
 {
     TransposeProxy(const Inputs &... inputs) : in{inputs...} {}
 
-    std::tuple<const Inputs &...> in;
+    std::tuple<Inputs...> in;
 };
 
 template <int LhsLength, size_t RhsLength> struct TransposeTag {
-- 
2.43.0


From e6e13a86e385a1e42d6a5ccba7b4e8081e064cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:18 +0000
Subject: [PATCH 35/36] fix: makeContainer of an empty list read and wrote out
 of bounds

---
 Vc/common/makeContainer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Vc/common/makeContainer.h b/Vc/common/makeContainer.h
index 4065985..8f310c0 100644
--- a/Vc/common/makeContainer.h
+++ b/Vc/common/makeContainer.h
@@ -54,7 +54,7 @@ namespace Vc_VERSIONED_NAMESPACE
                 auto containerIt = v.begin();
                 auto init = std::begin(list);
                 const auto initEnd = std::end(list);
-                for (std::size_t i = 0; i < size - 1; ++i) {
+                for (std::size_t i = 0; i + 1 < size; ++i) {
                     *containerIt++ = V(init, Vc::Unaligned);
                     init += V::Size;
                 }
@@ -90,7 +90,7 @@ namespace Vc_VERSIONED_NAMESPACE
                 auto containerIt = v.begin();
                 auto init = std::begin(list);
                 const auto initEnd = std::end(list);
-                for (std::size_t i = 0; i < size - 1; ++i) {
+                for (std::size_t i = 0; i + 1 < size; ++i) {
                     *containerIt++ = V(init, Vc::Unaligned);
                     init += V::Size;
                 }
-- 
2.43.0


From 9f981e75ae1c30587bd7af95245a38fffd4cbf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:09 +0000
Subject: [PATCH 36/36] fix: == and != of MaskBool hijacked comparisons of
 other types convertible to bool

---
 Vc/common/maskbool.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/Vc/common/maskbool.h b/Vc/common/maskbool.h
index 5756974..b0ac27e 100644
--- a/Vc/common/maskbool.h
+++ b/Vc/common/maskbool.h
@@ -73,10 +73,19 @@ public:
     }
 } Vc_MAY_ALIAS;
 
+// the operators must not apply to other types that are convertible to bool
+template <typename T> struct is_mask_bool_impl : public std::false_type {};
+template <size_t N> struct is_mask_bool_impl<MaskBool<N>> : public std::true_type {};
+template <typename T>
+struct is_mask_bool
+    : public is_mask_bool_impl<
+          typename std::remove_cv<typename std::remove_reference<T>::type>::type> {};
+
 template <typename A,
           typename B,
           typename std::enable_if<
-              std::is_convertible<A, bool>::value &&std::is_convertible<B, bool>::value,
+              (is_mask_bool<A>::value || is_mask_bool<B>::value) &&
+                  std::is_convertible<A, bool>::value &&std::is_convertible<B, bool>::value,
               int>::type = 0>
 constexpr bool operator==(A &&a, B &&b)
 {
@@ -85,7 +94,8 @@ constexpr bool operator==(A &&a, B &&b)
 template <typename A,
           typename B,
           typename std::enable_if<
-              std::is_convertible<A, bool>::value &&std::is_convertible<B, bool>::value,
+              (is_mask_bool<A>::value || is_mask_bool<B>::value) &&
+                  std::is_convertible<A, bool>::value &&std::is_convertible<B, bool>::value,
               int>::type = 0>
 constexpr bool operator!=(A &&a, B &&b)
 {
-- 
2.43.0

