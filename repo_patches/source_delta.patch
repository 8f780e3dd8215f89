From 86262f1050e2ccfc98a79733c9c0bc0b193068f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:50 +0000
Subject: [PATCH 01/31] fix: order unsigned SIMD vectors as unsigned numbers

u32x4 comparisons and the SSE4.1 min/max compared the components as signed
integers, so values above INT32_MAX were ordered below zero.
---
 include/math/simd/vector/uint.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/math/simd/vector/uint.hpp b/include/math/simd/vector/uint.hpp
index 9468203..53dedd0 100644
--- a/include/math/simd/vector/uint.hpp
+++ b/include/math/simd/vector/uint.hpp
@@ -555,7 +555,8 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) u32x4
 	u32x4 operator<(u32x4 v) const noexcept
 	{
 		#if defined(MATH_SIMD_SUPPORT_SSE)
-		return _mm_cmplt_epi32(data, v.data);
+		auto sign = _mm_set1_epi32(INT32_MIN);
+		return _mm_cmplt_epi32(_mm_xor_si128(data, sign), _mm_xor_si128(v.data, sign));
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vcltq_u32(data, v.data);
 		#else
@@ -565,7 +566,8 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) u32x4
 	u32x4 operator>(u32x4 v) const noexcept
 	{
 		#if defined(MATH_SIMD_SUPPORT_SSE)
-		return _mm_cmpgt_epi32(data, v.data);
+		auto sign = _mm_set1_epi32(INT32_MIN);
+		return _mm_cmpgt_epi32(_mm_xor_si128(data, sign), _mm_xor_si128(v.data, sign));
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vcgtq_u32(data, v.data);
 		#else
@@ -575,7 +577,9 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) u32x4
 	u32x4 operator<=(u32x4 v) const noexcept
 	{
 		#if defined(MATH_SIMD_SUPPORT_SSE)
-		return _mm_or_si128(_mm_cmplt_epi32(data, v.data), _mm_cmpeq_epi32(data, v.data));
+		auto sign = _mm_set1_epi32(INT32_MIN);
+		return _mm_or_si128(_mm_cmplt_epi32(_mm_xor_si128(data, sign), _mm_xor_si128(v.data, sign)),
+			_mm_cmpeq_epi32(data, v.data));
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vcleq_u32(data, v.data);
 		#else
@@ -585,7 +589,9 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) u32x4
 	u32x4 operator>=(u32x4 v) const noexcept
 	{
 		#if defined(MATH_SIMD_SUPPORT_SSE)
-		return _mm_or_si128(_mm_cmpgt_epi32(data, v.data), _mm_cmpeq_epi32(data, v.data));
+		auto sign = _mm_set1_epi32(INT32_MIN);
+		return _mm_or_si128(_mm_cmpgt_epi32(_mm_xor_si128(data, sign), _mm_xor_si128(v.data, sign)),
+			_mm_cmpeq_epi32(data, v.data));
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vcgeq_u32(data, v.data);
 		#else
@@ -795,7 +801,7 @@ static u32x4 select(u32x4 c, u32x4 t, u32x4 f) noexcept
 static u32x4 min(u32x4 a, u32x4 b) noexcept
 {
 	#if defined(MATH_SIMD_SUPPORT_SSE4_1)
-	return _mm_min_epi32(a.data, b.data);
+	return _mm_min_epu32(a.data, b.data);
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return vminq_u32(a.data, b.data);
 	#else
@@ -811,7 +817,7 @@ static u32x4 min(u32x4 a, u32x4 b) noexcept
 static u32x4 max(u32x4 a, u32x4 b) noexcept
 {
 	#if defined(MATH_SIMD_SUPPORT_SSE4_1)
-	return _mm_max_epi32(a.data, b.data);
+	return _mm_max_epu32(a.data, b.data);
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return vmaxq_u32(a.data, b.data);
 	#else
-- 
2.43.0


From 7b55ace667487bf9e448788b35eb5fa873b27f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:50 +0000
Subject: [PATCH 02/31] fix: int3(int2, int32) stores the given z component

---
 include/math/vector/int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/vector/int.hpp b/include/math/vector/int.hpp
index 5f60ace..415e5ce 100644
--- a/include/math/vector/int.hpp
+++ b/include/math/vector/int.hpp
@@ -193,7 +193,7 @@ struct [[nodiscard]] int3
 	 * @param xy first and second vector components value
 	 * @param z third vector component value
 	 */
-	constexpr int3(int2 xy, int32 z) noexcept : x(xy.x), y(xy.y), z(x) { }
+	constexpr int3(int2 xy, int32 z) noexcept : x(xy.x), y(xy.y), z(z) { }
 	/**
 	 * @brief Creates a new signed integer 3 component vector structure.
 	 *
-- 
2.43.0


From 7b972ab2582af462e1d675f41b852b6d17b42b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 03/31] fix: compare float2 with float2 in equal() and
 notEqual()

---
 include/math/vector/float.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/vector/float.hpp b/include/math/vector/float.hpp
index 413ca3d..cdec884 100644
--- a/include/math/vector/float.hpp
+++ b/include/math/vector/float.hpp
@@ -562,7 +562,7 @@ static string toString(float2 v) { return to_string(v.x) + " " + to_string(v.y);
  * @param a first vector to compare
  * @param b second vector to compare
  */
-static uint2 equal(float2 a, float4 b) noexcept
+static uint2 equal(float2 a, float2 b) noexcept
 {
 	return uint2(a.x == b.x ? UINT32_MAX : 0, a.y == b.y ? UINT32_MAX : 0);
 }
@@ -572,7 +572,7 @@ static uint2 equal(float2 a, float4 b) noexcept
  * @param a first vector to compare
  * @param b second vector to compare
  */
-static uint2 notEqual(float2 a, float4 b) noexcept
+static uint2 notEqual(float2 a, float2 b) noexcept
 {
 	return uint2(a.x != b.x ? UINT32_MAX : 0, a.y != b.y ? UINT32_MAX : 0);
 }
-- 
2.43.0


From f14a0ac01ed3606df7f3fbaf1618a4f7eab5bccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 04/31] fix: convert unsigned SIMD vectors to and from float as
 unsigned numbers

Values above INT32_MAX were converted as negative numbers (and floats above
2^31 to a single invalid value). log() relied on the signed reading of its
exponent and now says so.
---
 include/math/simd/vector/float.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index ec18d7f..001db8e 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -147,7 +147,9 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4
 	explicit f32x4(u32x4 v)
 	{
 		#if defined(MATH_SIMD_SUPPORT_SSE)
-		data = _mm_cvtepi32_ps(v.data);
+		auto low = _mm_cvtepi32_ps(_mm_and_si128(v.data, _mm_set1_epi32(0xFFFF)));
+		auto high = _mm_cvtepi32_ps(_mm_srli_epi32(v.data, 16));
+		data = _mm_add_ps(_mm_mul_ps(high, _mm_set1_ps(65536.0f)), low);
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		data = vcvtq_f32_u32(v.data);
 		#else
@@ -393,7 +395,10 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4
 	explicit operator u32x4() const noexcept
 	{
 		#if defined(MATH_SIMD_SUPPORT_SSE)
-		return _mm_cvttps_epi32(data);
+		auto half = _mm_set1_ps(2147483648.0f);
+		auto isBig = _mm_cmpge_ps(data, half);
+		auto ints = _mm_cvttps_epi32(_mm_sub_ps(data, _mm_and_ps(isBig, half)));
+		return _mm_xor_si128(ints, _mm_slli_epi32(_mm_castps_si128(isBig), 31));
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vcvtq_u32_f32(data);
 		#else
@@ -1208,7 +1213,7 @@ static f32x4 log(f32x4 v) noexcept
 		t = fma(t, x2, f32x4(0.666666686534881591796875f));
 		t = fma(t, x2, f32x4(2.0f));
 
-		x = fma(x, t, f32x4(0.693147180559945286226764f) * (f32x4)e);
+		x = fma(x, t, f32x4(0.693147180559945286226764f) * (f32x4)uintAsInt(e));
 		x = select(equal(v, f32x4::inf) | equal(v, f32x4::minusInf), f32x4::minusInf, x);
 		x = select((v < f32x4::zero) | equal(v, f32x4::nan), f32x4::nan, x);
 		x = select(equal(v, f32x4::zero), f32x4::minusInf, x);
-- 
2.43.0


From 42a76cce5fb865283bebfe8cc9e5c4e17dcb2967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:57 +0000
Subject: [PATCH 05/31] fix: multiply a row vector by a matrix as a
 vector-matrix product

---
 include/math/matrix/float.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/math/matrix/float.hpp b/include/math/matrix/float.hpp
index 95a2233..dc4e2b1 100644
--- a/include/math/matrix/float.hpp
+++ b/include/math/matrix/float.hpp
@@ -575,8 +575,8 @@ static constexpr float2x2 operator/(float n, const float2x2& m) noexcept { retur
 static constexpr float2 operator*(float2 v, float2x2 m) noexcept
 {
 	return float2(
-		m.c0.x * v.x + m.c1.x * v.x,
-		m.c0.y * v.y + m.c1.y * v.y);
+		m.c0.x * v.x + m.c0.y * v.y,
+		m.c1.x * v.x + m.c1.y * v.y);
 }
 /**
  * @brief Calculates dot product between vector and matrix.
@@ -587,9 +587,9 @@ static constexpr float2 operator*(float2 v, float2x2 m) noexcept
 static constexpr float3 operator*(float3 v, const float3x3& m) noexcept
 {
 	return float3(
-		m.c0.x * v.x + m.c1.x * v.x + m.c2.x * v.x,
-		m.c0.y * v.y + m.c1.y * v.y + m.c2.y * v.y,
-		m.c0.z * v.z + m.c1.z * v.z + m.c2.z * v.z);
+		m.c0.x * v.x + m.c0.y * v.y + m.c0.z * v.z,
+		m.c1.x * v.x + m.c1.y * v.y + m.c1.z * v.z,
+		m.c2.x * v.x + m.c2.y * v.y + m.c2.z * v.z);
 }
 /**
  * @brief Calculates dot product between vector and matrix.
@@ -600,10 +600,10 @@ static constexpr float3 operator*(float3 v, const float3x3& m) noexcept
 static constexpr float4 operator*(float4 v, const float4x4& m) noexcept
 {
 	return float4(
-		m.c0.x * v.x + m.c1.x * v.x + m.c2.x * v.x + m.c3.x * v.x,
-		m.c0.y * v.y + m.c1.y * v.y + m.c2.y * v.y + m.c3.y * v.y,
-		m.c0.z * v.z + m.c1.z * v.z + m.c2.z * v.z + m.c3.z * v.z,
-		m.c0.w * v.w + m.c1.w * v.w + m.c2.w * v.w + m.c3.w * v.w);
+		m.c0.x * v.x + m.c0.y * v.y + m.c0.z * v.z + m.c0.w * v.w,
+		m.c1.x * v.x + m.c1.y * v.y + m.c1.z * v.z + m.c1.w * v.w,
+		m.c2.x * v.x + m.c2.y * v.y + m.c2.z * v.z + m.c2.w * v.w,
+		m.c3.x * v.x + m.c3.y * v.y + m.c3.z * v.z + m.c3.w * v.w);
 }
 
 /***********************************************************************************************************************
-- 
2.43.0


From b1af965dfa6505dc4382058d6ec8abc44a2868bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:57 +0000
Subject: [PATCH 06/31] fix: allow indexing the fourth column of float4x3

---
 include/math/matrix/float.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/matrix/float.hpp b/include/math/matrix/float.hpp
index dc4e2b1..01dc690 100644
--- a/include/math/matrix/float.hpp
+++ b/include/math/matrix/float.hpp
@@ -306,7 +306,7 @@ struct [[nodiscard]] float4x3
 	 */
 	float3& operator[](psize i) noexcept
 	{
-		assert(i <= 2);
+		assert(i <= 3);
 		return ((float3*)this)[i];
 	}
 	/**
@@ -315,7 +315,7 @@ struct [[nodiscard]] float4x3
 	 */
 	float3 operator[](psize i) const noexcept
 	{
-		assert(i <= 2);
+		assert(i <= 3);
 		return ((float3*)this)[i];
 	}
 
-- 
2.43.0


From 5e5a91f7a19c6c141528cef53d15c2007acf571e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:57 +0000
Subject: [PATCH 07/31] fix: place the off-diagonal elements of the 2x2 matrix
 inverse

---
 include/math/matrix/float.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/matrix/float.hpp b/include/math/matrix/float.hpp
index 01dc690..21639a9 100644
--- a/include/math/matrix/float.hpp
+++ b/include/math/matrix/float.hpp
@@ -647,8 +647,8 @@ static constexpr float4x4 transpose(float4x4 m) noexcept
 static constexpr float2x2 inverse(float2x2 m) noexcept
 {
 	auto oneOverDeterminant = 1.0f / (m.c0.x * m.c1.y - m.c1.x * m.c0.y);
-	return float2x2(m.c1.y * oneOverDeterminant, -m.c0.y * oneOverDeterminant,
-		-m.c1.x * oneOverDeterminant, m.c0.x * oneOverDeterminant);
+	return float2x2(m.c1.y * oneOverDeterminant, -m.c1.x * oneOverDeterminant,
+		-m.c0.y * oneOverDeterminant, m.c0.x * oneOverDeterminant);
 }
 /**
  * @brief Calculates matrix inverse. (Usefull for undoing transformations)
-- 
2.43.0


From 32b4a84e1ad37defd0cff49abd82831038b038b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:57 +0000
Subject: [PATCH 08/31] fix: use the correct cofactors in the 3x3 matrix
 inverse

---
 include/math/matrix/float.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/math/matrix/float.hpp b/include/math/matrix/float.hpp
index 21639a9..143124a 100644
--- a/include/math/matrix/float.hpp
+++ b/include/math/matrix/float.hpp
@@ -662,14 +662,14 @@ static constexpr float3x3 inverse(float3x3 m) noexcept
 		m.c2.x * (m.c0.y * m.c1.z - m.c1.y * m.c0.z));
 	return float3x3(
 		(m.c1.y * m.c2.z - m.c2.y * m.c1.z) * oneOverDeterminant,
-		-(m.c0.y * m.c2.z - m.c2.y * m.c0.z) * oneOverDeterminant,
-		(m.c0.y * m.c2.z - m.c1.y * m.c0.z) * oneOverDeterminant,
 		-(m.c1.x * m.c2.z - m.c2.x * m.c1.z) * oneOverDeterminant,
-		(m.c0.x * m.c2.z - m.c2.x * m.c0.z) * oneOverDeterminant,
-		-(m.c0.x * m.c2.z - m.c1.x * m.c0.z) * oneOverDeterminant,
 		(m.c1.x * m.c2.y - m.c2.x * m.c1.y) * oneOverDeterminant,
+		-(m.c0.y * m.c2.z - m.c2.y * m.c0.z) * oneOverDeterminant,
+		(m.c0.x * m.c2.z - m.c2.x * m.c0.z) * oneOverDeterminant,
 		-(m.c0.x * m.c2.y - m.c2.x * m.c0.y) * oneOverDeterminant,
-		(m.c0.x * m.c2.y - m.c1.x * m.c0.y) * oneOverDeterminant);
+		(m.c0.y * m.c1.z - m.c1.y * m.c0.z) * oneOverDeterminant,
+		-(m.c0.x * m.c1.z - m.c1.x * m.c0.z) * oneOverDeterminant,
+		(m.c0.x * m.c1.y - m.c1.x * m.c0.y) * oneOverDeterminant);
 }
 /**
  * @brief Calculates matrix inverse. (Usefull for undoing transformations)
-- 
2.43.0


From 2044da769d51a0fb2c1130c1bad743ea577cc72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:57 +0000
Subject: [PATCH 09/31] fix: convert float4x4 to f32x4x4 without assuming 16
 byte alignment

---
 include/math/simd/matrix/float.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/simd/matrix/float.hpp b/include/math/simd/matrix/float.hpp
index c93990a..eb77f86 100644
--- a/include/math/simd/matrix/float.hpp
+++ b/include/math/simd/matrix/float.hpp
@@ -77,7 +77,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4x4
 	 * @brief Creates a new SIMD 32bit floating point 4x4 matrix structure. (float4x4)
 	 * @param[in] m target 4x4 matrix value
 	 */
-	explicit f32x4x4(const float4x4& m) noexcept { *this = *((const f32x4x4*)&m); }
+	explicit f32x4x4(const float4x4& m) noexcept : c0(m.c0), c1(m.c1), c2(m.c2), c3(m.c3) { }
 	/**
 	 * @brief Creates a new SIMD 32bit floating point 4x4 matrix structure. (float4x4)
 	 * 
-- 
2.43.0


From 2e754dfd150b093f0d25920f6282d431f8e64c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:21 +0000
Subject: [PATCH 10/31] fix: extract the scale of a model matrix as a length,
 not its square

---
 include/math/matrix/transform.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/matrix/transform.hpp b/include/math/matrix/transform.hpp
index 6f51f71..ed00aa7 100644
--- a/include/math/matrix/transform.hpp
+++ b/include/math/matrix/transform.hpp
@@ -110,7 +110,7 @@ static f32x4x4 scale(f32x4 s, const f32x4x4& m) noexcept
  */
 static f32x4 extractScale(const f32x4x4& m) noexcept
 {
-	return f32x4(lengthSq3(m.c0), lengthSq3(m.c1), lengthSq3(m.c2));
+	return f32x4(length3(m.c0), length3(m.c1), length3(m.c2));
 }
 /**
  * @brief Extracts total SIMD matrix 2D scale transformation of an object in 3D space.
@@ -118,7 +118,7 @@ static f32x4 extractScale(const f32x4x4& m) noexcept
  */
 static float2 extractScale2(const f32x4x4& m) noexcept
 {
-	return float2(lengthSq3(m.c0), length3(m.c1));
+	return float2(length3(m.c0), length3(m.c1));
 }
 
 /***********************************************************************************************************************
-- 
2.43.0


From d06865ab374489a78d33c673882da6fc6296bfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:21 +0000
Subject: [PATCH 11/31] fix: build an orthonormal basis in lookAtQuat()

---
 include/math/matrix/transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/matrix/transform.hpp b/include/math/matrix/transform.hpp
index ed00aa7..664a1a4 100644
--- a/include/math/matrix/transform.hpp
+++ b/include/math/matrix/transform.hpp
@@ -307,7 +307,7 @@ static quat lookAtQuat(f32x4 direction, f32x4 up = f32x4::top) noexcept
 {
 	auto right = cross3(up, direction);
 	auto c0 = right * (1.0f / std::sqrt(std::max(0.00001f, dot3(right, right))));
-	auto c1 = cross3(right, c0);
+	auto c1 = cross3(direction, c0);
 	auto m = f32x4x4(c0, c1, direction);
 	return extractQuat(m);
 }
-- 
2.43.0


From 5034db21b1d94ca93cdca7899c1b5f487024c29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:21 +0000
Subject: [PATCH 12/31] fix: keep the last row of the inverted
 translation-rotation matrix

---
 include/math/matrix/transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/matrix/transform.hpp b/include/math/matrix/transform.hpp
index 664a1a4..78ca001 100644
--- a/include/math/matrix/transform.hpp
+++ b/include/math/matrix/transform.hpp
@@ -319,7 +319,7 @@ static quat lookAtQuat(f32x4 direction, f32x4 up = f32x4::top) noexcept
  */
 static f32x4x4 inverseTransRot(const f32x4x4& m)
 {
-	auto t = transpose4x4(m);
+	auto t = transpose3x3(m);
 	setTranslation(t, -multiply3x3(t, getTranslation(m)));
 	return t;
 }
-- 
2.43.0


From b7e0879f53c816da70f0b04e4521718e14fbe7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:21 +0000
Subject: [PATCH 13/31] fix: extract the pitch when only one atan2 argument
 vanishes

---
 include/math/quaternion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/quaternion.hpp b/include/math/quaternion.hpp
index e881444..d8cc435 100644
--- a/include/math/quaternion.hpp
+++ b/include/math/quaternion.hpp
@@ -112,7 +112,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) quat : public f32x4
 		auto xx = w * w - x * x - y * y + z * z;
 
 		// Avoid atan2(0, 0) - handle singularity - Matiis
-		if (std::abs(xx) <= FLT_EPSILON || std::abs(yy) <= FLT_EPSILON)
+		if (std::abs(xx) <= FLT_EPSILON && std::abs(yy) <= FLT_EPSILON)
 			return 2.0f * std::atan2(x, w);
 		return std::atan2(yy, xx);
 	}
-- 
2.43.0


From d31971c32382e3de38adbba1d9223ba27fe33111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:44 +0000
Subject: [PATCH 14/31] fix: compare the minimum of one AABB with the maximum
 of the other in isIntersected()

---
 include/math/aabb.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index 11b56a4..3638530 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -424,7 +424,8 @@ static bool raycastI(const Aabb& aabb, const Ray& ray) noexcept
  */
 static bool isIntersected(const Aabb& a, const Aabb& b) noexcept
 {
-	return areAllTrue(a.getMin() <= b.getMax() & a.getMin() >= b.getMax());
+	return areAllTrue(f32x4(a.getMin(), 0.0f) <= f32x4(b.getMax(), 0.0f) & 
+		f32x4(a.getMax(), 0.0f) >= f32x4(b.getMin(), 0.0f));
 }
 
 /**
-- 
2.43.0


From f685a83eacfdd83210692af3749eee575d281f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:44 +0000
Subject: [PATCH 15/31] fix: ignore the w component in AABB isInside()

---
 include/math/aabb.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index 3638530..302fd3f 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -284,7 +284,8 @@ static bool isBinaryLess(const Aabb& a, const Aabb& b) noexcept { return memcmp(
  */
 static bool isInside(const Aabb& aabb, f32x4 point) noexcept
 {
-	return areAllTrue(aabb.getMin() <= point & aabb.getMax() >= point);
+	return areAllTrue(f32x4(aabb.getMin(), 0.0f) <= f32x4(point, 0.0f) & 
+		f32x4(aabb.getMax(), 0.0f) >= f32x4(point, 0.0f));
 }
 /**
  * @brief Returns true if other AABB is inside this AABB in 3D space.
@@ -294,7 +295,8 @@ static bool isInside(const Aabb& aabb, f32x4 point) noexcept
  */
 static bool isInside(const Aabb& aabb, const Aabb& other) noexcept
 {
-	return areAllTrue(aabb.getMin() <= other.getMin() & aabb.getMax() >= other.getMax());
+	return areAllTrue(f32x4(aabb.getMin(), 0.0f) <= f32x4(other.getMin(), 0.0f) & 
+		f32x4(aabb.getMax(), 0.0f) >= f32x4(other.getMax(), 0.0f));
 }
 
 /**
-- 
2.43.0


From 7ac36a50b64efe2dfc828722b051fe6b69c54354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:44 +0000
Subject: [PATCH 16/31] fix: refuse corners that are unordered on any axis in
 Aabb::trySet()

---
 include/math/aabb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index 302fd3f..211b1a4 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -107,7 +107,7 @@ public:
 	 */
 	bool trySet(f32x4 min, f32x4 max) noexcept
 	{
-		if (areAllTrue(f32x4(min, 0.0f) > f32x4(max, 1.0f)))
+		if (!areAllTrue(f32x4(min, 0.0f) <= f32x4(max, 1.0f)))
 			return false;
 		this->min = min; this->max = max;
 		return true;
-- 
2.43.0


From f9d14b6c3be8c0c3e35a5d28f3efe58d1a36db1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:44 +0000
Subject: [PATCH 17/31] fix: check all three edges in triangle isInside()

---
 include/math/triangle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/triangle.hpp b/include/math/triangle.hpp
index cb81804..d5e1fc6 100644
--- a/include/math/triangle.hpp
+++ b/include/math/triangle.hpp
@@ -74,7 +74,7 @@ static bool isInside(const Triangle& triangle, f32x4 point) noexcept
 {
 	auto p0 = triangle.p0 - point, p1 = triangle.p1 - point, p2 = triangle.p2 - point;
 	auto u = cross3(p1, p2), v = cross3(p2, p0), w = cross3(p0, p1);
-	if (dot3(u, v) < 0.0f || dot3(u, w) < 0.0f)
+	if (dot3(u, v) < 0.0f || dot3(u, w) < 0.0f || dot3(v, w) < 0.0f)
 		return false;
 	return true;
 }
-- 
2.43.0


From 757a57925ee1016fc88e592a67a116e3c0d1be0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:44 +0000
Subject: [PATCH 18/31] fix: compute a triangle plane that contains the
 triangle

---
 include/math/plane.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/plane.hpp b/include/math/plane.hpp
index 174b988..0204986 100644
--- a/include/math/plane.hpp
+++ b/include/math/plane.hpp
@@ -64,7 +64,7 @@ public:
 		auto normal = cross3(triangle.p1 - triangle.p0, triangle.p2 - triangle.p0);
 		if (length3(normal) > 0.0f)
 			normal = normalize3(normal);
-		auto distance = dot3(normal, triangle.p0);
+		auto distance = -dot3(normal, triangle.p0);
 		normDist = f32x4(normal, distance);
 	}
 
-- 
2.43.0


From 869abcc2409aaa1de05a7328e252fa327380269b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:44 +0000
Subject: [PATCH 19/31] fix: initialize the parallel axes of a ray in its
 constructor

---
 include/math/ray.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/ray.hpp b/include/math/ray.hpp
index ef832bc..5210e70 100644
--- a/include/math/ray.hpp
+++ b/include/math/ray.hpp
@@ -47,7 +47,7 @@ public:
 	 * @param normalize is direction vector should be normalized
 	 */
 	Ray(f32x4 origin, f32x4 direction, bool normalize = true) noexcept : 
-		direction(normalize ? normalize3(direction) : direction), origin(origin) { }
+		origin(origin) { setDirection(direction, normalize); }
 	/**
 	 * @brief Creates a new empty ray structure.
 	 */
@@ -66,7 +66,7 @@ public:
 	void setDirection(f32x4 direction, bool normalize = true) noexcept
 	{
 		this->direction = normalize ? normalize3(direction) : direction;
-		isParallel = abs(direction) <= f32x4(1.0e-20f);
+		isParallel = abs(this->direction) <= f32x4(1.0e-20f);
 	}
 
 	/**
-- 
2.43.0


From 4b7f368b0a2ce17fb0872b20ffb2d1d528ac0b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:44 +0000
Subject: [PATCH 20/31] fix: keep scale and parallel axes of the inversed ray
 in raycast1() and raycast2()

---
 include/math/aabb.hpp | 4 ++--
 include/math/ray.hpp  | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index 211b1a4..535bec3 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -346,7 +346,7 @@ static float2 raycast2I(Aabb aabb, Ray ray) noexcept
  */
 static float2 raycast2(const Aabb& aabb, Ray ray) noexcept
 {
-	ray.setDirection(f32x4::one / ray.getDirection());
+	ray.inverse();
 	return raycast2I(aabb, ray);
 }
 
@@ -383,7 +383,7 @@ static float raycast1I(const Aabb& aabb, const Ray& ray) noexcept
  */
 static float raycast1(const Aabb& aabb, Ray ray) noexcept
 {
-	ray.setDirection(f32x4::one / ray.getDirection());
+	ray.inverse();
 	return raycast1I(aabb, ray);
 }
 
diff --git a/include/math/ray.hpp b/include/math/ray.hpp
index 5210e70..14a3d4b 100644
--- a/include/math/ray.hpp
+++ b/include/math/ray.hpp
@@ -79,6 +79,12 @@ public:
 	 */
 	void normalize() noexcept { direction /= length3(direction);  }
 
+	/**
+	 * @brief Inverses ray direction vector. (1.0 / direction)
+	 * @note Parallel axes of the ray stay the same.
+	 */
+	void inverse() noexcept { direction = f32x4::one / direction; }
+
 	Ray operator*(f32x4 v) const noexcept { return Ray(origin * v, direction * v); }
 	Ray operator/(f32x4 v) const noexcept { return Ray(origin / v, direction / v); }
 	Ray operator+(f32x4 v) const noexcept { return Ray(origin + v, direction + v); }
-- 
2.43.0


From aaf3686f784d6ba3002d5b86de865819b185a113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 21/31] fix: round normalized color channels to the nearest
 value

---
 include/math/color.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/math/color.hpp b/include/math/color.hpp
index 1ce9c58..842c8c5 100644
--- a/include/math/color.hpp
+++ b/include/math/color.hpp
@@ -147,19 +147,19 @@ struct [[nodiscard]] Color
 	/**
 	 * @brief Sets sRGB color normalizer R channel. (Red)
 	 */
-	constexpr void setNormR(float r) noexcept { this->r = std::clamp(r, 0.0f, 1.0f) * 255.0f; }
+	constexpr void setNormR(float r) noexcept { this->r = std::clamp(r, 0.0f, 1.0f) * 255.0f + 0.5f; }
 	/**
 	 * @brief Sets sRGB color normalizer G channel. (Green)
 	 */
-	constexpr void setNormG(float g) noexcept { this->g = std::clamp(g, 0.0f, 1.0f) * 255.0f; }
+	constexpr void setNormG(float g) noexcept { this->g = std::clamp(g, 0.0f, 1.0f) * 255.0f + 0.5f; }
 	/**
 	 * @brief Sets sRGB color normalizer B channel. (Blue)
 	 */
-	constexpr void setNormB(float b) noexcept { this->b = std::clamp(b, 0.0f, 1.0f) * 255.0f; }
+	constexpr void setNormB(float b) noexcept { this->b = std::clamp(b, 0.0f, 1.0f) * 255.0f + 0.5f; }
 	/**
 	 * @brief Sets sRGB color normalizer A channel. (Alpha)
 	 */
-	constexpr void setNormA(float a) noexcept { this->a = std::clamp(a, 0.0f, 1.0f) * 255.0f; }
+	constexpr void setNormA(float a) noexcept { this->a = std::clamp(a, 0.0f, 1.0f) * 255.0f + 0.5f; }
 
 	/*******************************************************************************************************************
 	 * @brief Converts sRGB color to the string. (Space separated)
-- 
2.43.0


From 0f25d83c438147aaf9c1574514f08d8df80a6a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 22/31] fix: compute mip counts and sizes with exact integer
 arithmetic

---
 include/math/simd/vector/uint.hpp |  4 ++--
 include/math/vector/uint.hpp      | 15 +++++++++------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/math/simd/vector/uint.hpp b/include/math/simd/vector/uint.hpp
index 53dedd0..10fa90e 100644
--- a/include/math/simd/vector/uint.hpp
+++ b/include/math/simd/vector/uint.hpp
@@ -903,11 +903,11 @@ static u32x4 clamp(u32x4 v, u32x4 min, u32x4 max) noexcept
 //**********************************************************************************************************************
 static uint8 calcMipCount3(u32x4 size) noexcept
 {
-	return (uint8)(std::floor(std::log2((float)max3(size)))) + 1u;
+	return calcMipCount(max3(size));
 }
 static u32x4 calcSizeAtMip3(u32x4 sizeAt0, uint8 mip) noexcept
 {
-	return max(sizeAt0 / (uint32)std::exp2((float)mip), u32x4(1u));
+	return mip < 32u ? max(sizeAt0 >> mip, u32x4(1u)) : u32x4(1u);
 }
 
 } // namespace math
\ No newline at end of file
diff --git a/include/math/vector/uint.hpp b/include/math/vector/uint.hpp
index cba2dbf..8085e73 100644
--- a/include/math/vector/uint.hpp
+++ b/include/math/vector/uint.hpp
@@ -903,28 +903,31 @@ static constexpr uint4 clamp(uint4 v, uint4 min, uint4 max) noexcept
 //**********************************************************************************************************************
 static uint8 calcMipCount(uint32 size) noexcept
 {
-	return (uint8)(std::floor(std::log2((float)size))) + 1u;
+	uint8 count = 0u;
+	for (; size > 0u; size >>= 1u)
+		count++;
+	return count;
 }
 static uint8 calcMipCount(uint2 size) noexcept
 {
-	return (uint8)(std::floor(std::log2((float)std::max(size.x, size.y)))) + 1u;
+	return calcMipCount(std::max(size.x, size.y));
 }
 static uint8 calcMipCount(uint3 size) noexcept
 {
-	return (uint8)(std::floor(std::log2((float)std::max(std::max(size.x, size.y), size.z)))) + 1u;
+	return calcMipCount(std::max(std::max(size.x, size.y), size.z));
 }
 
 static uint32 calcSizeAtMip(uint32 sizeAt0, uint8 mip) noexcept
 {
-	return std::max(sizeAt0 / (uint32)std::exp2((float)mip), 1u);
+	return mip < 32u ? std::max(sizeAt0 >> mip, 1u) : 1u;
 }
 static uint2 calcSizeAtMip(uint2 sizeAt0, uint8 mip) noexcept
 {
-	return max(sizeAt0 / (uint32)std::exp2((float)mip), uint2(1u));
+	return mip < 32u ? max(sizeAt0 >> mip, uint2(1u)) : uint2(1u);
 }
 static uint3 calcSizeAtMip(const uint3& sizeAt0, uint8 mip) noexcept
 {
-	return max(sizeAt0 / (uint32)std::exp2((float)mip), uint3(1u));
+	return mip < 32u ? max(sizeAt0 >> mip, uint3(1u)) : uint3(1u);
 }
 
 } // namespace math
\ No newline at end of file
-- 
2.43.0


From c8c4631d4ae5b1ebbc351816fb7b243c30c882c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:06 +0000
Subject: [PATCH 23/31] fix: do not shift by more than the value width in
 toHex()

---
 include/math/hex.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/math/hex.hpp b/include/math/hex.hpp
index 807e764..e63e2c2 100644
--- a/include/math/hex.hpp
+++ b/include/math/hex.hpp
@@ -34,7 +34,9 @@ static string toHex(T value, psize length = sizeof(T) << 1) noexcept
 	constexpr const char* digits = "0123456789ABCDEF";
 	string hex(length, '0');
 	for (psize i = 0, j = (length - 1) * 4; i < length; i++, j -= 4)
-		hex[i] = digits[(value >> j) & 0x0f];
+	{
+		if (j < sizeof(T) * 8) hex[i] = digits[(value >> j) & 0x0f];
+	}
 	return hex;
 }
 
-- 
2.43.0


From 57539ad12e4ee258063cc180e81f9639c6d3d242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:46 +0000
Subject: [PATCH 24/31] fix: make PackedVector::set() compile and check the
 bounds of 4 bit elements

---
 include/math/packed-vector.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/math/packed-vector.hpp b/include/math/packed-vector.hpp
index 335ecd5..3372e2c 100644
--- a/include/math/packed-vector.hpp
+++ b/include/math/packed-vector.hpp
@@ -63,7 +63,7 @@ public:
 		else if constexpr (Bits == 2)
 			assert(i / 4 < size());
 		else if constexpr (Bits == 4)
-			assert(i / 8 < size());
+			assert(i / 2 < size());
 		return unsafeGet(i);
 	}
 
@@ -85,15 +85,15 @@ public:
 			byte = (byte & ~((uint8)0x0F << shift)) | ((value & (uint8)0x0F) << shift);
 		}
 	}
-	uint8 set(psize i, uint8 value) noexcept
+	void set(psize i, uint8 value) noexcept
 	{
 		if constexpr (Bits == 1)
 			assert(i / 8 < size());
 		else if constexpr (Bits == 2)
 			assert(i / 4 < size());
 		else if constexpr (Bits == 4)
-			assert(i / 8 < size());
-		return unsafeSet(i, value);
+			assert(i / 2 < size());
+		unsafeSet(i, value);
 	}
 
 	void resize(psize elementCount)
-- 
2.43.0


From f7f50a355b42b0db65589a50403f46d7340364a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:46 +0000
Subject: [PATCH 25/31] fix: do not share the storage pointer between copies of
 a PackedVector

---
 include/math/packed-vector.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/math/packed-vector.hpp b/include/math/packed-vector.hpp
index 3372e2c..f3958e5 100644
--- a/include/math/packed-vector.hpp
+++ b/include/math/packed-vector.hpp
@@ -27,8 +27,6 @@ namespace math
 template<int Bits = 1>
 class PackedVector final : public std::vector<uint8>
 {
-private:
-	uint8* ptr = nullptr;
 public:
 	PackedVector()
 	{
@@ -44,15 +42,15 @@ public:
 	{
 		if constexpr (Bits == 1)
 		{
-			return (ptr[i / 8] >> (uint8)(i % 8)) & (uint8)0x01;
+			return (data()[i / 8] >> (uint8)(i % 8)) & (uint8)0x01;
 		}
 		else if constexpr (Bits == 2)
 		{
-			return (ptr[i / 4] >> (uint8)((i % 4) * 2)) & (uint8)0x03;
+			return (data()[i / 4] >> (uint8)((i % 4) * 2)) & (uint8)0x03;
 		}
 		else if constexpr (Bits == 4)
 		{
-			return (ptr[i / 2] >> (uint8)((i % 2) * 4)) & (uint8)0x0F;
+			return (data()[i / 2] >> (uint8)((i % 2) * 4)) & (uint8)0x0F;
 		}
 		abort();
 	}
@@ -71,17 +69,17 @@ public:
 	{
 		if constexpr (Bits == 1)
 		{
-			auto& byte = ptr[i / 8]; auto shift = (uint8)(i % 8);
+			auto& byte = data()[i / 8]; auto shift = (uint8)(i % 8);
 			byte = (byte & ~((uint8)0x01 << shift)) | ((value & (uint8)0x01) << shift);
 		}
 		else if constexpr (Bits == 2)
 		{
-			auto& byte = ptr[i / 4]; auto shift = (uint8)((i % 4) * 2);
+			auto& byte = data()[i / 4]; auto shift = (uint8)((i % 4) * 2);
 			byte = (byte & ~((uint8)0x03 << shift)) | ((value & (uint8)0x03) << shift);
 		}
 		else if constexpr (Bits == 4)
 		{
-			auto& byte = ptr[i / 2]; auto shift = (uint8)((i % 2) * 4);
+			auto& byte = data()[i / 2]; auto shift = (uint8)((i % 2) * 4);
 			byte = (byte & ~((uint8)0x0F << shift)) | ((value & (uint8)0x0F) << shift);
 		}
 	}
@@ -104,7 +102,6 @@ public:
 			std::vector<uint8>::resize(elementCount / 4 + (elementCount % 4 != 0 ? 1 : 0));
 		else if constexpr (Bits == 4)
 			std::vector<uint8>::resize(elementCount / 2 + (elementCount % 2 != 0 ? 1 : 0));
-		ptr = data();
 	}
 };
 
-- 
2.43.0


From 01d5945c801124f4b62fc6855bf01f43fd3d9b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:38 +0000
Subject: [PATCH 26/31] fix: use the RGB to XYZ matrices instead of their
 transposes

---
 include/math/color-space.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/math/color-space.hpp b/include/math/color-space.hpp
index 3086789..b8e57f7 100644
--- a/include/math/color-space.hpp
+++ b/include/math/color-space.hpp
@@ -58,9 +58,9 @@ static f32x4 rgbToXyz(f32x4 rgb) noexcept
 {
 	static const auto m = f32x4x4
 	(
-		0.4124564f, 0.2126729f, 0.0193339f, 0.0f,
-		0.3575761f, 0.7151522f, 0.1191920f, 0.0f,
-		0.1804375f, 0.0721750f, 0.9503041f, 0.0f,
+		0.4124564f, 0.3575761f, 0.1804375f, 0.0f,
+		0.2126729f, 0.7151522f, 0.0721750f, 0.0f,
+		0.0193339f, 0.1191920f, 0.9503041f, 0.0f,
 		0.0f      , 0.0f      , 0.0f      , 0.0f
 	);
 	return multiply3x3(m, rgb);
@@ -73,9 +73,9 @@ static f32x4 xyzToRgb(f32x4 xyz) noexcept
 {
 	static const auto m = f32x4x4
 	(
-		 3.2404542f, -0.9692660f,  0.0556434f, 0.0f,
-		-1.5371385f,  1.8760108f, -0.2040259f, 0.0f,
-		-0.4985314f,  0.0415560f,  1.0572252f, 0.0f,
+		 3.2404542f, -1.5371385f, -0.4985314f, 0.0f,
+		-0.9692660f,  1.8760108f,  0.0415560f, 0.0f,
+		 0.0556434f, -0.2040259f,  1.0572252f, 0.0f,
 		 0.0f      ,  0.0f      ,  0.0f      , 0.0f
 	);
 	return multiply3x3(m, xyz);
-- 
2.43.0


From cbc05948acdb015c026ae38eda5833f5b0d45ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:38 +0000
Subject: [PATCH 27/31] fix: use column vectors in the SH band 1 rotation
 matrices

---
 include/math/sh.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/sh.hpp b/include/math/sh.hpp
index 1e5a41b..f274de6 100644
--- a/include/math/sh.hpp
+++ b/include/math/sh.hpp
@@ -140,9 +140,9 @@ static void multiply(const float m[25], const float v[5], float r[5]) noexcept
 //**********************************************************************************************************************
 static float3 rotateSphericalHarmonicBand1(float3 band1, const float3x3& m) noexcept
 {
-	constexpr auto invA1TimesK = float3x3(0.0f, -1.0f, 0.0f, 0.0f, 0.0f, 1.0f, -1.0f, 0.0f, 0.0f);
+	constexpr auto invA1TimesK = float3x3(float3(0.0f, -1.0f, 0.0f), float3(0.0f, 0.0f, 1.0f), float3(-1.0f, 0.0f, 0.0f));
     auto mn0 = m[0], mn1 = m[1], mn2 = m[2];
-	auto r1OverK = float3x3(-mn0.y, mn0.z, -mn0.x, -mn1.y, mn1.z, -mn1.x, -mn2.y, mn2.z, -mn2.x);
+	auto r1OverK = float3x3(float3(-mn0.y, mn0.z, -mn0.x), float3(-mn1.y, mn1.z, -mn1.x), float3(-mn2.y, mn2.z, -mn2.x));
 	return r1OverK * (invA1TimesK * band1);
 }
 static void rotateSphericalHarmonicBand2(const float band2[5], const float3x3& m, float r[5]) noexcept
-- 
2.43.0


From aba86eb2e8755f687fd14e232312b474df6c3963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:38 +0000
Subject: [PATCH 28/31] fix: remove the duplicated polynomial term of the SIMD
 log()

---
 include/math/simd/vector/float.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index 001db8e..012bed9 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -1209,7 +1209,6 @@ static f32x4 log(f32x4 v) noexcept
 		auto t = f32x4(0.2392828464508056640625f);
 		t = fma(t, x2, f32x4(0.28518211841583251953125f));
 		t = fma(t, x2, f32x4(0.400005877017974853515625f));
-		t = fma(t, x2, f32x4(0.28518211841583251953125f));
 		t = fma(t, x2, f32x4(0.666666686534881591796875f));
 		t = fma(t, x2, f32x4(2.0f));
 
-- 
2.43.0


From 2b066cba3713e9049948507134ee7790f8d58a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:38 +0000
Subject: [PATCH 29/31] fix: return infinity and NaN from the SIMD log()

---
 include/math/simd/vector/float.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index 012bed9..c73db74 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -1213,8 +1213,8 @@ static f32x4 log(f32x4 v) noexcept
 		t = fma(t, x2, f32x4(2.0f));
 
 		x = fma(x, t, f32x4(0.693147180559945286226764f) * (f32x4)uintAsInt(e));
-		x = select(equal(v, f32x4::inf) | equal(v, f32x4::minusInf), f32x4::minusInf, x);
-		x = select((v < f32x4::zero) | equal(v, f32x4::nan), f32x4::nan, x);
+		x = select(equal(v, f32x4::inf), f32x4::inf, x);
+		x = select((v < f32x4::zero) | notEqual(v, v), f32x4::nan, x);
 		x = select(equal(v, f32x4::zero), f32x4::minusInf, x);
 		return x;
 	}
-- 
2.43.0


From 929dc0b5f339ffb0c7d9fb32384fbada3b705235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:22 +0000
Subject: [PATCH 30/31] fix: keep the BVH partition inside the primitive range
 of the node

---
 source/bvh.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/bvh.cpp b/source/bvh.cpp
index 9b8a83c..44788a8 100644
--- a/source/bvh.cpp
+++ b/source/bvh.cpp
@@ -326,13 +326,13 @@ void Bvh::recreate(const uint8* vertices, const uint8* indices, const Aabb& root
 			}
 		}
 
-		auto i = firstPrimitive, j = i + primitiveCount - 1;
-		while (i <= j)
+		auto i = firstPrimitive, j = i + primitiveCount;
+		while (i < j)
 		{
 			if (centroidData[primitives[i]][axis] < split)
 				i++;
 			else
-				std::swap(primitives[i], primitives[j--]);
+				std::swap(primitives[i], primitives[--j]);
 		}
 
 		auto count1 = i - firstPrimitive;
@@ -459,13 +459,13 @@ void Bvh::recreate(const Aabb* aabbs, const Aabb& rootAabb, uint32 aabbCount, co
 			}
 		}
 
-		auto i = firstPrimitive, j = i + primitiveCount - 1;
-		while (i <= j)
+		auto i = firstPrimitive, j = i + primitiveCount;
+		while (i < j)
 		{
 			if (centroidData[primitiveData[i]][axis] < split)
 				i++;
 			else
-				std::swap(primitiveData[i], primitiveData[j--]);
+				std::swap(primitiveData[i], primitiveData[--j]);
 		}
 
 		auto count1 = i - firstPrimitive;
-- 
2.43.0


From f61431c1706b7f9b8bb882b138214a6cbcf4e86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:22 +0000
Subject: [PATCH 31/31] fix: clamp the BVH bin index of degenerate centroid
 bounds

---
 source/bvh.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/bvh.cpp b/source/bvh.cpp
index 44788a8..b2944bd 100644
--- a/source/bvh.cpp
+++ b/source/bvh.cpp
@@ -80,6 +80,11 @@ static float calcArea(f32x4 min, f32x4 max) // Faster than native Aabb calcArea.
 	return dot3(extentXXY, extentYZZ);
 }
 
+static int32 calcBinIndex(float value) noexcept // Note: value can be NaN or infinite.
+{
+	return value > 0.0f ? (int32)std::min(value, (float)(BIN_COUNT - 1)) : 0;
+}
+
 static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, uint32 vertexSize, uint32 indexSize,
 	const uint8* vertices, const uint8* indices, const uint32* primitives, const f32x4* centroids,
 	const function<uint32(const uint8*)>& getIndex, int32& axis, float& split, float& cost)
@@ -114,8 +119,7 @@ static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, uint
 			auto v1 = f32x4(*(const float3*)(vertices + i1 * vertexSize));
 			auto v2 = f32x4(*(const float3*)(vertices + i2 * vertexSize));
 
-			auto binIndex = std::min((int32)(BIN_COUNT - 1), (int32)((
-				centroids[index][a] - boundsMin) * scale));
+			auto binIndex = calcBinIndex((centroids[index][a] - boundsMin) * scale);
 			auto& bin = bins[binIndex];
 			bin.min = min(min(min(bin.min, v0), v1), v2);
 			bin.max = max(max(max(bin.max, v0), v1), v2);
@@ -188,8 +192,7 @@ static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, cons
 		{
 			auto index = primitives[i];
 			auto aabb = aabbs[index];
-			auto binIndex = std::min((int32)(BIN_COUNT - 1), (int32)((
-				centroids[index][a] - boundsMin) * scale));
+			auto binIndex = calcBinIndex((centroids[index][a] - boundsMin) * scale);
 			auto& bin = bins[binIndex];
 			bin.min = min(bin.min, aabb.getMin());
 			bin.max = max(bin.max, aabb.getMax());
-- 
2.43.0

