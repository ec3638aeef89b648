From b99be8c15878b4cf4dfc2edbcdbd02e870889420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:52 +0000
Subject: [PATCH 01/35] fix: trunc (and floor, ceil, round, mod, snap)
 overflowed the integer conversion for large values

---
 include/vecmath/scalar.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/vecmath/scalar.h b/include/vecmath/scalar.h
index 06245e3..ff924d7 100644
--- a/include/vecmath/scalar.h
+++ b/include/vecmath/scalar.h
@@ -364,6 +364,13 @@ template <typename T> constexpr T smoothstep(const T e0, const T e1, const T v)
  * @return the truncated value
  */
 template <typename T> constexpr T trunc(const T v) {
+  if constexpr (std::is_floating_point<T>::value) {
+    // Values of this magnitude have no fractional part and may not be representable as an integer.
+    constexpr T l = static_cast<T>(1.0) / std::numeric_limits<T>::epsilon();
+    if (!(abs(v) < l)) {
+      return v;
+    }
+  }
   return static_cast<T>(static_cast<int64_t>(v));
 }
 
-- 
2.43.0


From 2ecf2d46316025e86ac260fede12a4ded502a236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:12 +0000
Subject: [PATCH 02/35] fix: round returned the wrong integer for the
 predecessor of 0.5 and for large odd values

---
 include/vecmath/scalar.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/vecmath/scalar.h b/include/vecmath/scalar.h
index ff924d7..7bf1f09 100644
--- a/include/vecmath/scalar.h
+++ b/include/vecmath/scalar.h
@@ -449,7 +449,9 @@ template <typename T> constexpr T fract(const T v) {
  */
 template <typename T> constexpr T round(const T v) {
   static_assert(std::is_floating_point<T>::value, "T must be a floating point type");
-  return v > static_cast<T>(0.0) ? floor(v + static_cast<T>(0.5)) : ceil(v - static_cast<T>(0.5));
+  // adding 0.5 to the value and truncating would round the sum, so look at the fraction instead
+  const auto r = trunc(v);
+  return abs(v - r) < static_cast<T>(0.5) ? r : r + sign(v);
 }
 
 /**
-- 
2.43.0


From 6363f884e945ce1919562281f378a033ce36f94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:46 +0000
Subject: [PATCH 03/35] fix: correct ignored the requested number of decimals

---
 include/vecmath/scalar.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/vecmath/scalar.h b/include/vecmath/scalar.h
index 7bf1f09..0969adf 100644
--- a/include/vecmath/scalar.h
+++ b/include/vecmath/scalar.h
@@ -541,10 +541,13 @@ template <typename T>
 constexpr T correct(
   const T v, const std::size_t decimals = 0u, const T epsilon = constants<T>::correct_epsilon()) {
   static_assert(std::is_floating_point<T>::value, "T must be a floating point type");
-  const T m = static_cast<T>(1u << decimals);
-  const T r = round(v * m);
+  T m = static_cast<T>(1.0);
+  for (std::size_t i = 0u; i < decimals; ++i) {
+    m *= static_cast<T>(10.0);
+  }
+  const T r = round(v * m) / m;
   if (abs(v - r) < epsilon) {
-    return r / m;
+    return r;
   } else {
     return v;
   }
-- 
2.43.0


From 134f1764062453b3e9a39caf729b8a587052a2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:04 +0000
Subject: [PATCH 04/35] fix: normalizing large angles looped forever or left
 the interval

---
 include/vecmath/scalar.h | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/include/vecmath/scalar.h b/include/vecmath/scalar.h
index 0969adf..526cca4 100644
--- a/include/vecmath/scalar.h
+++ b/include/vecmath/scalar.h
@@ -384,7 +384,24 @@ template <typename T> constexpr T trunc(const T v) {
  */
 template <typename T> constexpr T mod(const T x, const T y) {
   static_assert(std::is_floating_point<T>::value, "T must be a floating point type");
-  return x - y * trunc(x / y);
+  const T d = abs(y);
+  T r = abs(x);
+  if (!(d > static_cast<T>(0.0)) || is_nan(r) || is_inf(r)) {
+    return nan<T>();
+  }
+
+  // Long division. Computing x - y * trunc(x / y) would round twice, and the result can be off by
+  // more than |y| if x is large.
+  T m = d;
+  while (m <= r / static_cast<T>(2.0)) {
+    m *= static_cast<T>(2.0);
+  }
+  for (; m >= d; m /= static_cast<T>(2.0)) {
+    if (r >= m) {
+      r -= m;
+    }
+  }
+  return x < static_cast<T>(0.0) ? -r : r;
 }
 
 /**
@@ -632,14 +649,16 @@ template <typename T> constexpr T to_degrees(const T r) {
  * @param angle the angle to normalize, in radians
  * @return the normalized angle
  */
-template <typename T> constexpr T normalize_radians(T angle) {
+template <typename T> constexpr T normalize_radians(const T angle) {
   static_assert(std::is_floating_point<T>::value, "T must be a floating point type");
   constexpr T z = static_cast<T>(0.0);
   constexpr T o = constants<T>::two_pi();
-  while (angle < z) {
-    angle += o;
+  const T r = mod(angle, o);
+  if (r < z) {
+    // the sum can round up to a full turn
+    return r + o < o ? r + o : z;
   }
-  return mod(angle, o);
+  return r;
 }
 
 /**
@@ -649,14 +668,16 @@ template <typename T> constexpr T normalize_radians(T angle) {
  * @param angle the angle to normalize, in degrees
  * @return the normalized angle
  */
-template <typename T> constexpr T normalize_degrees(T angle) {
+template <typename T> constexpr T normalize_degrees(const T angle) {
   static_assert(std::is_floating_point<T>::value, "T must be a floating point type");
   constexpr T z = static_cast<T>(0.0);
   constexpr T o = static_cast<T>(360.0);
-  while (angle < z) {
-    angle += o;
+  const T r = mod(angle, o);
+  if (r < z) {
+    // the sum can round up to a full turn
+    return r + o < o ? r + o : z;
   }
-  return mod(angle, o);
+  return r;
 }
 
 /**
-- 
2.43.0


From 675ce68e31c055b01af9e7964d01484c6de314a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:50 +0000
Subject: [PATCH 05/35] fix: products with, transposes and slices of non-square
 matrices had the wrong shape or did not compile

---
 include/vecmath/mat.h     | 18 +++++++++---------
 include/vecmath/mat_ext.h | 32 ++++++++++++++++----------------
 2 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/include/vecmath/mat.h b/include/vecmath/mat.h
index c511ec8..b3fc250 100644
--- a/include/vecmath/mat.h
+++ b/include/vecmath/mat.h
@@ -574,8 +574,8 @@ constexpr mat<T, R, C> operator/(const mat<T, R, C>& lhs, const T rhs) {
  * @return the product of the given vector and the given matrix
  */
 template <typename T, std::size_t R, std::size_t C>
-constexpr vec<T, R> operator*(const vec<T, R>& lhs, const mat<T, R, C>& rhs) {
-  vec<T, R> result;
+constexpr vec<T, C> operator*(const vec<T, R>& lhs, const mat<T, R, C>& rhs) {
+  vec<T, C> result;
   for (size_t c = 0; c < C; c++) {
     result[c] = dot(lhs, rhs[c]);
   }
@@ -594,7 +594,7 @@ constexpr vec<T, R> operator*(const vec<T, R>& lhs, const mat<T, R, C>& rhs) {
  */
 template <typename T, std::size_t R, std::size_t C>
 constexpr vec<T, R> operator*(const mat<T, R, C>& lhs, const vec<T, C>& rhs) {
-  vec<T, C> result;
+  vec<T, R> result;
   for (size_t r = 0; r < R; r++) {
     for (size_t c = 0; c < C; ++c) {
       result[r] += lhs[c][r] * rhs[c];
@@ -614,7 +614,7 @@ constexpr vec<T, R> operator*(const mat<T, R, C>& lhs, const vec<T, C>& rhs) {
  * @return the product of the given vector and the given matrix
  */
 template <typename T, std::size_t R, std::size_t C>
-constexpr vec<T, C - 1> operator*(const mat<T, R, C>& lhs, const vec<T, C - 1>& rhs) {
+constexpr vec<T, R - 1> operator*(const mat<T, R, C>& lhs, const vec<T, C - 1>& rhs) {
   return to_cartesian_coords(lhs * to_homogeneous_coords(rhs));
 }
 
@@ -629,7 +629,7 @@ constexpr vec<T, C - 1> operator*(const mat<T, R, C>& lhs, const vec<T, C - 1>&
  * @return the product of the given vector and the given matrix
  */
 template <typename T, std::size_t R, std::size_t C>
-constexpr vec<T, R - 1> operator*(const vec<T, R - 1>& lhs, const mat<T, R, C>& rhs) {
+constexpr vec<T, C - 1> operator*(const vec<T, R - 1>& lhs, const mat<T, R, C>& rhs) {
   return to_cartesian_coords(to_homogeneous_coords(lhs) * rhs);
 }
 
@@ -664,10 +664,10 @@ constexpr mat<T, R, C> set(mat<T, R, C> m, const std::size_t r, const std::size_
  */
 template <typename T, std::size_t R, std::size_t C>
 constexpr mat<T, C, R> transpose(const mat<T, R, C>& m) {
-  mat<T, C, R> result(m);
+  mat<T, C, R> result;
   for (std::size_t c = 0u; c < C; ++c) {
-    for (std::size_t r = c + 1u; r < R; ++r) {
-      detail::swap(result[c][r], result[r][c]);
+    for (std::size_t r = 0u; r < R; ++r) {
+      result[r][c] = m[c][r];
     }
   }
   return result;
@@ -688,7 +688,7 @@ constexpr mat<T, C, R> transpose(const mat<T, R, C>& m) {
  */
 template <std::size_t RR, std::size_t RC, typename T, std::size_t R, std::size_t C>
 constexpr mat<T, RR, RC> slice(const mat<T, R, C>& m, const size_t r, const size_t c) {
-  static_assert(RR <= R && RC <= R, "slice must not exceed matrix");
+  static_assert(RR <= R && RC <= C, "slice must not exceed matrix");
   assert(r <= R - RR && c <= C - RC);
   mat<T, RR, RC> result;
   for (std::size_t row = 0u; row < RR; ++row) {
diff --git a/include/vecmath/mat_ext.h b/include/vecmath/mat_ext.h
index 9c4bebc..f8b2ec1 100644
--- a/include/vecmath/mat_ext.h
+++ b/include/vecmath/mat_ext.h
@@ -42,8 +42,8 @@ namespace vm {
  * @return a list of the the products of the given vectors and the given matrix
  */
 template <typename T, std::size_t R, std::size_t C>
-std::vector<vec<T, C>> operator*(const mat<T, R, C>& lhs, const std::vector<vec<T, C>>& rhs) {
-  std::vector<vec<T, C>> result;
+std::vector<vec<T, R>> operator*(const mat<T, R, C>& lhs, const std::vector<vec<T, C>>& rhs) {
+  std::vector<vec<T, R>> result;
   result.reserve(rhs.size());
   for (const auto& v : rhs) {
     result.push_back(lhs * v);
@@ -63,9 +63,9 @@ std::vector<vec<T, C>> operator*(const mat<T, R, C>& lhs, const std::vector<vec<
  * @return an array of the the products of the given vectors and the given matrix
  */
 template <typename T, std::size_t N, std::size_t R, std::size_t C>
-constexpr std::array<vec<T, C>, N> operator*(
+constexpr std::array<vec<T, R>, N> operator*(
   const mat<T, R, C>& lhs, const std::array<vec<T, C>, N>& rhs) {
-  std::array<vec<T, C>, N> result{};
+  std::array<vec<T, R>, N> result{};
   for (std::size_t i = 0u; i < N; ++i) {
     result[i] = lhs * rhs[i];
   }
@@ -83,9 +83,9 @@ constexpr std::array<vec<T, C>, N> operator*(
  * @return a list of the the products of the given vectors and the given matrix
  */
 template <typename T, std::size_t R, std::size_t C>
-std::vector<vec<T, C - 1>> operator*(
+std::vector<vec<T, R - 1>> operator*(
   const mat<T, R, C>& lhs, const std::vector<vec<T, C - 1>>& rhs) {
-  std::vector<vec<T, C - 1>> result;
+  std::vector<vec<T, R - 1>> result;
   result.reserve(rhs.size());
   for (const auto& v : rhs) {
     result.push_back(lhs * v);
@@ -105,9 +105,9 @@ std::vector<vec<T, C - 1>> operator*(
  * @return an array of the the products of the given vectors and the given matrix
  */
 template <typename T, std::size_t N, std::size_t R, std::size_t C>
-constexpr std::array<vec<T, C - 1>, N> operator*(
+constexpr std::array<vec<T, R - 1>, N> operator*(
   const mat<T, R, C>& lhs, const std::array<vec<T, C - 1>, N>& rhs) {
-  std::array<vec<T, C - 1>, N> result{};
+  std::array<vec<T, R - 1>, N> result{};
   for (std::size_t i = 0u; i < N; ++i) {
     result[i] = lhs * rhs[i];
   }
@@ -125,8 +125,8 @@ constexpr std::array<vec<T, C - 1>, N> operator*(
  * @return a list of the the products of the given vectors and the given matrix
  */
 template <typename T, std::size_t R, std::size_t C>
-std::vector<vec<T, R>> operator*(const std::vector<vec<T, R>>& lhs, const mat<T, R, C>& rhs) {
-  std::vector<vec<T, R>> result;
+std::vector<vec<T, C>> operator*(const std::vector<vec<T, R>>& lhs, const mat<T, R, C>& rhs) {
+  std::vector<vec<T, C>> result;
   result.reserve(lhs.size());
   for (const auto& v : lhs) {
     result.push_back(v * rhs);
@@ -146,9 +146,9 @@ std::vector<vec<T, R>> operator*(const std::vector<vec<T, R>>& lhs, const mat<T,
  * @return an array of the the products of the given vectors and the given matrix
  */
 template <typename T, std::size_t N, std::size_t R, std::size_t C>
-constexpr std::array<vec<T, R>, N> operator*(
+constexpr std::array<vec<T, C>, N> operator*(
   const std::array<vec<T, R>, N>& lhs, const mat<T, R, C>& rhs) {
-  std::array<vec<T, R>, N> result{};
+  std::array<vec<T, C>, N> result{};
   for (std::size_t i = 0u; i < N; ++i) {
     result[i] = lhs[i] * rhs;
   }
@@ -166,9 +166,9 @@ constexpr std::array<vec<T, R>, N> operator*(
  * @return a list of the the products of the given vectors and the given matrix
  */
 template <typename T, std::size_t R, std::size_t C>
-std::vector<vec<T, R - 1>> operator*(
+std::vector<vec<T, C - 1>> operator*(
   const std::vector<vec<T, R - 1>>& lhs, const mat<T, R, C>& rhs) {
-  std::vector<vec<T, R - 1>> result;
+  std::vector<vec<T, C - 1>> result;
   result.reserve(lhs.size());
   for (const auto& v : lhs) {
     result.push_back(v * rhs);
@@ -188,9 +188,9 @@ std::vector<vec<T, R - 1>> operator*(
  * @return a list of the the products of the given vectors and the given matrix
  */
 template <typename T, std::size_t N, std::size_t R, std::size_t C>
-constexpr std::array<vec<T, R - 1>, N> operator*(
+constexpr std::array<vec<T, C - 1>, N> operator*(
   const std::array<vec<T, R - 1>, N>& lhs, const mat<T, R, C>& rhs) {
-  std::array<vec<T, R - 1>, N> result{};
+  std::array<vec<T, C - 1>, N> result{};
   for (std::size_t i = 0u; i < N; ++i) {
     result[i] = lhs[i] * rhs;
   }
-- 
2.43.0


From ba9b11e33c98d67b6ae034f4982e33ff02ec9ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:49 +0000
Subject: [PATCH 06/35] fix: invert and lup_solve accepted singular and refused
 regular matrices depending on scale and precision

---
 include/vecmath/mat.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/mat.h b/include/vecmath/mat.h
index b3fc250..f5059be 100644
--- a/include/vecmath/mat.h
+++ b/include/vecmath/mat.h
@@ -849,26 +849,37 @@ constexpr std::tuple<bool, mat<T, S, S>, vec<size_t, S>> lup_find_decomposition(
   for (std::size_t i = 0; i < S; ++i) {
     pi[i] = i;
   }
+  // magnitude of the terms that were summed up into each element of a, which bounds the rounding
+  // error of that element
+  mat<T, S, S> magnitude;
+  for (std::size_t i = 0; i < S; ++i) {
+    magnitude[i] = vm::abs(a[i]);
+  }
+  constexpr auto relativeError = static_cast<T>(4 * S) * std::numeric_limits<T>::epsilon();
   for (std::size_t k = 0; k < S; ++k) {
     T p(0);
     std::size_t kPrime = 0;
     for (std::size_t i = k; i < S; ++i) {
-      if (vm::abs(a[k][i]) > p) {
+      // ignore elements that cannot be told apart from 0
+      if (vm::abs(a[k][i]) > p && vm::abs(a[k][i]) > relativeError * magnitude[k][i]) {
         p = vm::abs(a[k][i]);
         kPrime = i;
       }
     }
-    if (p < 1.0e-15) {
+    if (!(p > T(0))) {
       return {false, mat<T, S, S>(), vec<size_t, S>()};
     }
     swap(pi[k], pi[kPrime]);
     for (std::size_t i = 0; i < S; ++i) {
       swap(a[i][k], a[i][kPrime]);
+      swap(magnitude[i][k], magnitude[i][kPrime]);
     }
     for (std::size_t i = k + 1; i < S; ++i) {
       a[k][i] = a[k][i] / a[k][k];
+      magnitude[k][i] = magnitude[k][i] / vm::abs(a[k][k]);
       for (std::size_t j = k + 1; j < S; ++j) {
         a[j][i] = a[j][i] - a[k][i] * a[j][k];
+        magnitude[j][i] = magnitude[j][i] + magnitude[k][i] * magnitude[j][k];
       }
     }
   }
-- 
2.43.0


From 91c145d4eb4f16f53ac56f79b524718465477e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:09 +0000
Subject: [PATCH 07/35] fix: euler angles of rotations at or near gimbal lock
 were wrong or NaN

---
 include/vecmath/mat_ext.h | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/include/vecmath/mat_ext.h b/include/vecmath/mat_ext.h
index f8b2ec1..8e47089 100644
--- a/include/vecmath/mat_ext.h
+++ b/include/vecmath/mat_ext.h
@@ -322,24 +322,17 @@ template <typename T> vec<T, 3> rotation_matrix_to_euler_angles(const mat<T, 4,
   // Their notation is row-major, and uses 1-based row/column indices, whereas TB is column-major
   // and 0-based. They use phi=yaw, theta=pitch, psi=roll
 
-  T theta, psi, phi;
-
-  if (abs(rotMat[0][2]) != T(1.0)) {
-    theta = -std::asin(rotMat[0][2]);
-    const auto cosTheta = std::cos(theta);
-
-    psi = std::atan2(rotMat[1][2] / cosTheta, rotMat[2][2] / cosTheta);
-    phi = std::atan2(rotMat[0][1] / cosTheta, rotMat[0][0] / cosTheta);
-  } else {
-    phi = 0.0;
-    if (rotMat[0][2] == T(-1.0)) {
-      theta = vm::constants<T>::half_pi();
-      psi = std::atan2(rotMat[1][0], rotMat[2][0]);
-    } else {
-      theta = -vm::constants<T>::half_pi();
-      psi = std::atan2(-rotMat[1][0], -rotMat[2][0]);
-    }
-  }
+  const auto cosTheta =
+    std::sqrt(rotMat[0][0] * rotMat[0][0] + rotMat[0][1] * rotMat[0][1]);
+  const auto theta = std::atan2(-rotMat[0][2], cosTheta);
+
+  // Any roll will do in (or near) gimbal lock, as long as the yaw is chosen accordingly, so the yaw
+  // is taken from what remains of the rotation after undoing the roll.
+  const auto psi = std::atan2(rotMat[1][2], rotMat[2][2]);
+  const auto sinPsi = std::sin(psi);
+  const auto cosPsi = std::cos(psi);
+  const auto phi = std::atan2(
+    sinPsi * rotMat[2][0] - cosPsi * rotMat[1][0], cosPsi * rotMat[1][1] - sinPsi * rotMat[2][1]);
 
   return vec<T, 3>(psi, theta, phi);
 }
-- 
2.43.0


From e47be203f7b32029a507fcdddd45f2fe82c33518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:37 +0000
Subject: [PATCH 08/35] fix: the angle of a quaternion whose real part exceeds
 1 by rounding was NaN

---
 include/vecmath/quat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vecmath/quat.h b/include/vecmath/quat.h
index f193588..cdb9e3d 100644
--- a/include/vecmath/quat.h
+++ b/include/vecmath/quat.h
@@ -126,7 +126,7 @@ public:
    *
    * @return the rotation angle in radians
    */
-  T angle() const { return T(2.0) * std::acos(r); }
+  T angle() const { return T(2.0) * std::acos(clamp(r, T(-1.0), T(1.0))); }
 
   /**
    * Returns the rotation axis of this quaternion.
-- 
2.43.0


From 029acf075afc580593d94acae0318cc866ff2d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:49 +0000
Subject: [PATCH 09/35] fix: multiplying a quaternion with a scalar left its
 imaginary part unscaled

---
 include/vecmath/quat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/quat.h b/include/vecmath/quat.h
index cdb9e3d..7f3187f 100644
--- a/include/vecmath/quat.h
+++ b/include/vecmath/quat.h
@@ -233,7 +233,7 @@ template <typename T> constexpr quat<T> operator-(const quat<T>& q) {
  * @return the multiplied quaternion
  */
 template <typename T> constexpr quat<T> operator*(const quat<T> lhs, const T rhs) {
-  return quat<T>(lhs.r * rhs, lhs.v);
+  return quat<T>(lhs.r * rhs, lhs.v * rhs);
 }
 
 /**
@@ -245,7 +245,7 @@ template <typename T> constexpr quat<T> operator*(const quat<T> lhs, const T rhs
  * @return the multiplied quaternion
  */
 template <typename T> constexpr quat<T> operator*(const T lhs, const quat<T>& rhs) {
-  return quat<T>(lhs * rhs.r, rhs.v);
+  return quat<T>(lhs * rhs.r, lhs * rhs.v);
 }
 
 /**
-- 
2.43.0


From 485c0fad07154d3e95ebb0c6aad79ed6a904b28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:02 +0000
Subject: [PATCH 10/35] fix: the rotation between vectors enclosing less than
 2.5 degrees was the identity

---
 include/vecmath/quat.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/vecmath/quat.h b/include/vecmath/quat.h
index 7f3187f..dd8481c 100644
--- a/include/vecmath/quat.h
+++ b/include/vecmath/quat.h
@@ -95,10 +95,14 @@ public:
     assert(is_unit(to, constants<T>::almost_zero()));
 
     const auto cos = dot(from, to);
-    if (is_equal(+cos, T(1.0), constants<T>::almost_zero())) {
+    const auto perpendicular = cross(from, to);
+    const auto sin = length(perpendicular);
+    if (!is_zero(sin, constants<T>::almost_zero())) {
+      set_rotation(perpendicular / sin, std::atan2(sin, cos));
+    } else if (cos > T(0.0)) {
       // `from` and `to` are equal.
       set_rotation(vec<T, 3>::pos_z(), T(0.0));
-    } else if (is_equal(-cos, T(1.0), constants<T>::almost_zero())) {
+    } else {
       // `from` and `to` are opposite.
       // We need to find a rotation axis that is perpendicular to `from`.
       auto axis = cross(from, vec<T, 3>::pos_z());
@@ -106,10 +110,6 @@ public:
         axis = cross(from, vec<T, 3>::pos_x());
       }
       set_rotation(normalize(axis), to_radians(T(180)));
-    } else {
-      const auto axis = normalize(cross(from, to));
-      const auto angle = std::acos(cos);
-      set_rotation(axis, angle);
     }
   }
 
-- 
2.43.0


From b48ca3abdfba9df06e9b3e6f5f4eaf0cca23b617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:12 +0000
Subject: [PATCH 11/35] fix: shear_bbox_matrix did not compile for float boxes

---
 include/vecmath/mat_ext.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/vecmath/mat_ext.h b/include/vecmath/mat_ext.h
index 8e47089..ba83d1a 100644
--- a/include/vecmath/mat_ext.h
+++ b/include/vecmath/mat_ext.h
@@ -629,22 +629,22 @@ constexpr mat<T, 4, 4> shear_bbox_matrix(
   mat<T, 4, 4> shearMat;
   if (sideToShear == vec<T, 3>::pos_x()) {
     const auto relativeDelta = delta / oldSize.x();
-    shearMat = shear_matrix(relativeDelta.y(), relativeDelta.z(), 0., 0., 0., 0.);
+    shearMat = shear_matrix(relativeDelta.y(), relativeDelta.z(), T(0), T(0), T(0), T(0));
   } else if (sideToShear == vec<T, 3>::neg_x()) {
     const auto relativeDelta = delta / oldSize.x();
-    shearMat = shear_matrix(-relativeDelta.y(), -relativeDelta.z(), 0., 0., 0., 0.);
+    shearMat = shear_matrix(-relativeDelta.y(), -relativeDelta.z(), T(0), T(0), T(0), T(0));
   } else if (sideToShear == vec<T, 3>::pos_y()) {
     const auto relativeDelta = delta / oldSize.y();
-    shearMat = shear_matrix(0., 0., relativeDelta.x(), relativeDelta.z(), 0., 0.);
+    shearMat = shear_matrix(T(0), T(0), relativeDelta.x(), relativeDelta.z(), T(0), T(0));
   } else if (sideToShear == vec<T, 3>::neg_y()) {
     const auto relativeDelta = delta / oldSize.y();
-    shearMat = shear_matrix(0., 0., -relativeDelta.x(), -relativeDelta.z(), 0., 0.);
+    shearMat = shear_matrix(T(0), T(0), -relativeDelta.x(), -relativeDelta.z(), T(0), T(0));
   } else if (sideToShear == vec<T, 3>::pos_z()) {
     const auto relativeDelta = delta / oldSize.z();
-    shearMat = shear_matrix(0., 0., 0., 0., relativeDelta.x(), relativeDelta.y());
+    shearMat = shear_matrix(T(0), T(0), T(0), T(0), relativeDelta.x(), relativeDelta.y());
   } else if (sideToShear == vec<T, 3>::neg_z()) {
     const auto relativeDelta = delta / oldSize.z();
-    shearMat = shear_matrix(0., 0., 0., 0., -relativeDelta.x(), -relativeDelta.y());
+    shearMat = shear_matrix(T(0), T(0), T(0), T(0), -relativeDelta.x(), -relativeDelta.y());
   }
 
   // grab any vertex on side that is opposite the one being sheared.
-- 
2.43.0


From c047069f8685a066b8dc7f5c720dcdd947c986cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:35 +0000
Subject: [PATCH 12/35] fix: invert and lup_solve refused some regular matrices
 whose elements differ in magnitude

---
 include/vecmath/mat.h | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/include/vecmath/mat.h b/include/vecmath/mat.h
index f5059be..5456092 100644
--- a/include/vecmath/mat.h
+++ b/include/vecmath/mat.h
@@ -849,19 +849,17 @@ constexpr std::tuple<bool, mat<T, S, S>, vec<size_t, S>> lup_find_decomposition(
   for (std::size_t i = 0; i < S; ++i) {
     pi[i] = i;
   }
-  // magnitude of the terms that were summed up into each element of a, which bounds the rounding
-  // error of that element
-  mat<T, S, S> magnitude;
+  // estimated rounding error of each element of a, initially one unit in the last place
+  mat<T, S, S> error;
   for (std::size_t i = 0; i < S; ++i) {
-    magnitude[i] = vm::abs(a[i]);
+    error[i] = vm::abs(a[i]) * std::numeric_limits<T>::epsilon();
   }
-  constexpr auto relativeError = static_cast<T>(4 * S) * std::numeric_limits<T>::epsilon();
   for (std::size_t k = 0; k < S; ++k) {
     T p(0);
     std::size_t kPrime = 0;
     for (std::size_t i = k; i < S; ++i) {
       // ignore elements that cannot be told apart from 0
-      if (vm::abs(a[k][i]) > p && vm::abs(a[k][i]) > relativeError * magnitude[k][i]) {
+      if (vm::abs(a[k][i]) > p && vm::abs(a[k][i]) > error[k][i]) {
         p = vm::abs(a[k][i]);
         kPrime = i;
       }
@@ -872,14 +870,15 @@ constexpr std::tuple<bool, mat<T, S, S>, vec<size_t, S>> lup_find_decomposition(
     swap(pi[k], pi[kPrime]);
     for (std::size_t i = 0; i < S; ++i) {
       swap(a[i][k], a[i][kPrime]);
-      swap(magnitude[i][k], magnitude[i][kPrime]);
+      swap(error[i][k], error[i][kPrime]);
     }
     for (std::size_t i = k + 1; i < S; ++i) {
       a[k][i] = a[k][i] / a[k][k];
-      magnitude[k][i] = magnitude[k][i] / vm::abs(a[k][k]);
+      error[k][i] = (error[k][i] + vm::abs(a[k][i]) * error[k][k]) / vm::abs(a[k][k]);
       for (std::size_t j = k + 1; j < S; ++j) {
         a[j][i] = a[j][i] - a[k][i] * a[j][k];
-        magnitude[j][i] = magnitude[j][i] + magnitude[k][i] * magnitude[j][k];
+        error[j][i] =
+          error[j][i] + error[k][i] * vm::abs(a[j][k]) + vm::abs(a[k][i]) * error[j][k];
       }
     }
   }
-- 
2.43.0


From 1abd4ce44ace8f9b1200d2b61dbce61c431c79a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:30 +0000
Subject: [PATCH 13/35] fix: the bounds of a bbox builder were invalid when
 nothing had been added

---
 include/vecmath/bbox.h | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/include/vecmath/bbox.h b/include/vecmath/bbox.h
index f59db5f..0f0456b 100644
--- a/include/vecmath/bbox.h
+++ b/include/vecmath/bbox.h
@@ -45,15 +45,14 @@ public:
   class builder {
   private:
     bbox m_bounds;
+    bool m_initialized;
 
   public:
     /**
      * Creates a new unitialized instance.
      */
     constexpr builder()
-      : m_bounds(false) {
-      // put the bounds to an invalid state to signal that its unitialized
-    }
+      : m_initialized(false) {}
 
     /**
      * Returns the bounds. If the no point has been added, an empty bbox at the origin is returned.
@@ -63,7 +62,7 @@ public:
     /**
      * Returns whether anything has been added to this builder.
      */
-    constexpr bool initialized() const { return m_bounds.is_valid(); }
+    constexpr bool initialized() const { return m_initialized; }
 
     /**
      * Adds the given range of points.
@@ -87,6 +86,7 @@ public:
     constexpr void add(const vec<T, S>& point) {
       if (!initialized()) {
         m_bounds.min = m_bounds.max = point;
+        m_initialized = true;
       } else {
         m_bounds = merge(m_bounds, point);
       }
@@ -98,6 +98,7 @@ public:
     constexpr void add(const bbox& box) {
       if (!initialized()) {
         m_bounds = box;
+        m_initialized = true;
       } else {
         m_bounds = merge(m_bounds, box);
       }
@@ -181,16 +182,6 @@ public:
     assert(is_valid());
   }
 
-private:
-  /**
-   * This constructor is used by the builder to create an invalid bbox.
-   */
-  constexpr bbox(const bool)
-    : min(vec<T, S>::fill(T(1)))
-    , max(vec<T, S>::fill(T(0))) {
-    assert(!is_valid());
-  }
-
 public:
   /**
    * Creates the smallest bounding box that contains all points in the given range. Optionally
-- 
2.43.0


From 88d471aa699b55fd72514731afd55eb5fa588d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:41 +0000
Subject: [PATCH 14/35] fix: segment::contains was wrong beyond the end points
 and for segments of length zero

---
 include/vecmath/segment.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/vecmath/segment.h b/include/vecmath/segment.h
index dcae42e..e51e62d 100644
--- a/include/vecmath/segment.h
+++ b/include/vecmath/segment.h
@@ -119,10 +119,11 @@ public:
    * @return true if the given point is contained in this segment and false otherwise
    */
   bool contains(const vec<T, S>& point, const T maxDistance) const {
-    const auto f = distance_to_projected_point(*this, point);
-    if (f < -maxDistance || f * f > squared_length() + maxDistance * maxDistance) {
-      return false;
+    if (m_start == m_end) {
+      return squared_distance(m_start, point) <= (maxDistance * maxDistance);
     } else {
+      const auto f =
+        clamp(distance_to_projected_point(*this, point), static_cast<T>(0.0), length());
       const auto proj = point_at_distance(*this, f);
       return squared_distance(proj, point) <= (maxDistance * maxDistance);
     }
-- 
2.43.0


From 2d3ca7bf7fce57e46b0deafb4504c85133949b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:45 +0000
Subject: [PATCH 15/35] fix: converting a segment to another component type
 could break the order of its end points

---
 include/vecmath/segment.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/vecmath/segment.h b/include/vecmath/segment.h
index e51e62d..9e406d7 100644
--- a/include/vecmath/segment.h
+++ b/include/vecmath/segment.h
@@ -77,8 +77,7 @@ public:
    */
   template <typename U>
   explicit constexpr segment(const segment<U, S>& other)
-    : m_start(other.start())
-    , m_end(other.end()) {}
+    : segment(vec<T, S>(other.start()), vec<T, S>(other.end())) {}
 
   /**
    * Returns the origin of this segment.
-- 
2.43.0


From 9686aa18d78fc6b45cf380c92d7cf38b79626ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:12 +0000
Subject: [PATCH 16/35] fix: polygon::rbegin and rend returned forward
 iterators

---
 include/vecmath/polygon.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/polygon.h b/include/vecmath/polygon.h
index f6d8158..1229847 100644
--- a/include/vecmath/polygon.h
+++ b/include/vecmath/polygon.h
@@ -153,14 +153,14 @@ public:
    *
    * @return an iterator to the beginning of the vertices
    */
-  auto rbegin() const { return std::begin(m_vertices); }
+  auto rbegin() const { return std::rbegin(m_vertices); }
 
   /**
    * Returns an iterator to the end of the vertices.
    *
    * @return an iterator to the end of the vertices
    */
-  auto rend() const { return std::end(m_vertices); }
+  auto rend() const { return std::rend(m_vertices); }
 
   /**
    * Returns the vertices of this polygon.
-- 
2.43.0


From 926dbdc294098e06486314557f38aca0ba8c13b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:18 +0000
Subject: [PATCH 17/35] fix: converting a polygon to another component type
 could leave its smallest vertex not at the front

---
 include/vecmath/polygon.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/vecmath/polygon.h b/include/vecmath/polygon.h
index 1229847..dc3546a 100644
--- a/include/vecmath/polygon.h
+++ b/include/vecmath/polygon.h
@@ -110,6 +110,7 @@ public:
     for (const auto& vertex : other.vertices()) {
       m_vertices.push_back(vec<T, S>(vertex));
     }
+    rotate_min_to_front();
   }
 
   /**
-- 
2.43.0


From 12768cfb48dce3e4b62cbc3de22dc484da82a8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:23 +0000
Subject: [PATCH 18/35] fix: compareUnoriented ignored the second vertex and
 was not a consistent order

---
 include/vecmath/polygon.h | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/include/vecmath/polygon.h b/include/vecmath/polygon.h
index dc3546a..d8add5e 100644
--- a/include/vecmath/polygon.h
+++ b/include/vecmath/polygon.h
@@ -409,29 +409,26 @@ int compareUnoriented(
       return 0;
     }
 
-    // First vertices are identical. Now compare my second with other's second.
-    auto cmp1 = compare(lhsVerts[1], rhsVerts[1], epsilon);
-    if (cmp1 == 0) {
-      // The second vertices are also identical, so we just do a forward compare.
-      return compare(
-        std::next(std::begin(lhsVerts), 2), std::end(lhsVerts), std::next(std::begin(rhsVerts), 2),
-        std::end(rhsVerts), epsilon);
-    } else {
-      // The second vertices are not identical, so we attempt a backward compare.
-      size_t i = 1;
-      while (i < count) {
-        const auto j = count - i;
-        const auto cmp = compare(lhsVerts[i], rhsVerts[j], epsilon);
+    const auto compareRemaining = [&](const bool reverseLhs, const bool reverseRhs) {
+      for (size_t i = 1; i < count; ++i) {
+        const auto cmp = compare(
+          lhsVerts[reverseLhs ? count - i : i], rhsVerts[reverseRhs ? count - i : i], epsilon);
         if (cmp != 0) {
-          // Backward compare failed, so make a forward compare
-          return compare(
-            std::next(std::begin(lhsVerts), 2), std::end(lhsVerts),
-            std::next(std::begin(rhsVerts), 2), std::end(rhsVerts), epsilon);
+          return cmp;
         }
-        ++i;
       }
       return 0;
+    };
+
+    // First vertices are identical. Now compare the remaining vertices in both orders.
+    if (compareRemaining(false, false) == 0 || compareRemaining(false, true) == 0) {
+      return 0;
     }
+
+    // The polygons differ. Compare each in the order where its second vertex is less than its last
+    // vertex, so that the result doesn't depend on the orientation.
+    return compareRemaining(
+      lhsVerts[count - 1] < lhsVerts[1], rhsVerts[count - 1] < rhsVerts[1]);
   }
 }
 } // namespace vm
-- 
2.43.0


From 1568ccb2ee707dde681efe5817a11bb208a66313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:15 +0000
Subject: [PATCH 19/35] fix: from_points ignored the function that maps range
 elements to points

---
 include/vecmath/plane.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vecmath/plane.h b/include/vecmath/plane.h
index 0b96c53..fba2dfa 100644
--- a/include/vecmath/plane.h
+++ b/include/vecmath/plane.h
@@ -396,17 +396,17 @@ auto from_points(I cur, I end, const G& get = G())
   if (cur == end) {
     return std::make_tuple(false, plane<T, 3>());
   }
-  const auto p1 = *cur;
+  const auto p1 = get(*cur);
   ++cur;
   if (cur == end) {
     return std::make_tuple(false, plane<T, 3>());
   }
-  const auto p2 = *cur;
+  const auto p2 = get(*cur);
   ++cur;
   if (cur == end) {
     return std::make_tuple(false, plane<T, 3>());
   }
-  const auto p3 = *cur;
+  const auto p3 = get(*cur);
 
   return from_points(p1, p2, p3);
 }
-- 
2.43.0


From 9be40782033c348851934e74d383fb87b9aff683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:43 +0000
Subject: [PATCH 20/35] fix: the distance of a point and a segment of length
 zero was NaN

---
 include/vecmath/distance.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/vecmath/distance.h b/include/vecmath/distance.h
index a708a71..4ebea15 100644
--- a/include/vecmath/distance.h
+++ b/include/vecmath/distance.h
@@ -129,6 +129,9 @@ template <typename T, size_t S>
 point_distance<T> squared_distance(const segment<T, S>& s, const vec<T, S>& p) {
   const auto vector = s.end() - s.start();
   const auto len = length(vector);
+  if (len == T(0.0)) {
+    return point_distance<T>(T(0.0), squared_length(p - s.start()));
+  }
   const auto dir = vector / len;
   const T scale = dot(p - s.start(), dir);
 
-- 
2.43.0


From f11c827ff65c171e87467efaa17addaf1938d20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:47 +0000
Subject: [PATCH 21/35] fix: the distance of a ray and a segment was not
 minimal if the ray origin is the closest point

---
 include/vecmath/distance.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/vecmath/distance.h b/include/vecmath/distance.h
index 4ebea15..298a6e3 100644
--- a/include/vecmath/distance.h
+++ b/include/vecmath/distance.h
@@ -268,7 +268,7 @@ line_distance<T> squared_distance(const ray<T, S>& r, const segment<T, S>& s) {
   const auto e = dot(v, w);
   const auto D = a * c - b * b;
 
-  if (is_zero(D, constants<T>::almost_zero())) {
+  if (is_zero(D, constants<T>::almost_zero() * min(a, static_cast<T>(1.0)))) {
     // parallel case
     const T p1_on_r = distance_to_projected_point(r, p1);
     const T p2_on_r = distance_to_projected_point(r, p2);
@@ -282,7 +282,7 @@ line_distance<T> squared_distance(const ray<T, S>& r, const segment<T, S>& s) {
         // p2 closer to ray origin
         return line_distance<T>::Parallel(0, squared_distance(r.origin, p2), p2_on_r - p1_on_r);
       }
-    } else if (p1_on_r > static_cast<T>(0) && p2_on_r > static_cast<T>(0)) {
+    } else if (p1_on_r >= static_cast<T>(0) && p2_on_r >= static_cast<T>(0)) {
       // segment completely in front of ray origin
       const T perpendicular_dist_squared = squared_distance(point_at_distance(r, p1_on_r), p1);
       if (p1_on_r > p2_on_r) {
@@ -315,9 +315,15 @@ line_distance<T> squared_distance(const ray<T, S>& r, const segment<T, S>& s) {
     tD = c;
   }
 
-  const auto sc = is_zero(sN, constants<T>::almost_zero()) ? static_cast<T>(0.0) : sN / sD;
-  const auto tc = max(
-    is_zero(tN, constants<T>::almost_zero()) ? static_cast<T>(0.0) : tN / tD, static_cast<T>(0.0));
+  if (tN < static_cast<T>(0.0)) {
+    // the ray origin is the closest point on the ray
+    tN = static_cast<T>(0.0);
+    sN = clamp(-d, static_cast<T>(0.0), a);
+    sD = a;
+  }
+
+  const auto sc = sN / sD;
+  const auto tc = tN / tD;
 
   u = u * sc; // vector from p1 to the closest point on the segment
   v = v * tc; // vector from ray origin to closest point on the ray
-- 
2.43.0


From 04134f05c5d6047edc1099565911692452ac64f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:51 +0000
Subject: [PATCH 22/35] fix: the distance of two rays was not minimal if a ray
 origin is the closest point or for opposite rays

---
 include/vecmath/distance.h | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/include/vecmath/distance.h b/include/vecmath/distance.h
index 298a6e3..71c2106 100644
--- a/include/vecmath/distance.h
+++ b/include/vecmath/distance.h
@@ -376,13 +376,17 @@ constexpr line_distance<T> squared_distance(const ray<T, S>& lhs, const ray<T, S
   if (is_zero(D, constants<T>::almost_zero())) {
     // parallel case
     const T rhs_origin_on_lhs = distance_to_projected_point(lhs, rhs.origin);
-    const T lhs_origin_on_rhs = distance_to_projected_point(rhs, lhs.origin);
-    const T perpendicular_dist_squared =
-      squared_distance(project_point(lhs, rhs.origin), rhs.origin);
-
-    return line_distance<T>::Parallel(
-      max(static_cast<T>(0), rhs_origin_on_lhs), perpendicular_dist_squared,
-      max(static_cast<T>(0), lhs_origin_on_rhs));
+    if (rhs_origin_on_lhs > static_cast<T>(0)) {
+      return line_distance<T>::Parallel(
+        rhs_origin_on_lhs,
+        squared_distance(point_at_distance(lhs, rhs_origin_on_lhs), rhs.origin), 0);
+    } else {
+      const T lhs_origin_on_rhs =
+        max(static_cast<T>(0), distance_to_projected_point(rhs, lhs.origin));
+      return line_distance<T>::Parallel(
+        0, squared_distance(point_at_distance(rhs, lhs_origin_on_rhs), lhs.origin),
+        lhs_origin_on_rhs);
+    }
   }
 
   auto sN = (b * e - c * d);
@@ -393,9 +397,15 @@ constexpr line_distance<T> squared_distance(const ray<T, S>& lhs, const ray<T, S
     tD = c;
   }
 
-  const auto sc = is_zero(sN, constants<T>::almost_zero()) ? static_cast<T>(0.0) : sN / sD;
-  const auto tc = max(
-    is_zero(tN, constants<T>::almost_zero()) ? static_cast<T>(0.0) : tN / tD, static_cast<T>(0.0));
+  if (tN < static_cast<T>(0.0)) {
+    // the first ray's origin is the closest point on the first ray
+    tN = static_cast<T>(0.0);
+    sN = max(-d, static_cast<T>(0.0));
+    sD = a;
+  }
+
+  const auto sc = sN / sD;
+  const auto tc = tN / tD;
 
   u = u * sc; // vector from the second ray's origin to the closest point on first ray
   v = v * tc; // vector from the first ray's origin to closest point on the first ray
-- 
2.43.0


From 46c6a611a394f340563f6fd27482a7e1afa585f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:55 +0000
Subject: [PATCH 23/35] fix: the distance of a ray and a line was not minimal
 if the ray origin is the closest point

---
 include/vecmath/distance.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/distance.h b/include/vecmath/distance.h
index 71c2106..2c62878 100644
--- a/include/vecmath/distance.h
+++ b/include/vecmath/distance.h
@@ -457,8 +457,13 @@ constexpr line_distance<T> squared_distance(const ray<T, S>& r, const line<T, S>
     return line_distance<T>::Parallel(0, perpendicular_dist_squared, r_origin_on_l);
   }
 
-  const auto sc = max((b * e - c * d) / D, static_cast<T>(0.0));
-  const auto tc = (a * e - b * d) / D;
+  auto sc = (b * e - c * d) / D;
+  auto tc = (a * e - b * d) / D;
+  if (sc < static_cast<T>(0.0)) {
+    // the ray origin is the closest point on the ray
+    sc = static_cast<T>(0.0);
+    tc = e / c;
+  }
 
   const auto rp = r.origin + sc * r.direction; // point on ray
   const auto lp = l.point + tc * l.direction;  // point on line
-- 
2.43.0


From d08e7d6f8f94b1949a6126ad30d66f054fbdcb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:46 +0000
Subject: [PATCH 24/35] fix: rays and segments that are parallel and short or
 long were not recognised as such

---
 include/vecmath/distance.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/vecmath/distance.h b/include/vecmath/distance.h
index 2c62878..6565066 100644
--- a/include/vecmath/distance.h
+++ b/include/vecmath/distance.h
@@ -29,6 +29,7 @@
 #include "vec.h"
 
 #include <cstddef>
+#include <limits>
 
 namespace vm {
 /**
@@ -268,7 +269,11 @@ line_distance<T> squared_distance(const ray<T, S>& r, const segment<T, S>& s) {
   const auto e = dot(v, w);
   const auto D = a * c - b * b;
 
-  if (is_zero(D, constants<T>::almost_zero() * min(a, static_cast<T>(1.0)))) {
+  // D is proportional to the squared length of the segment, and so is its rounding error
+  const auto epsilon = max(
+    constants<T>::almost_zero() * min(a, static_cast<T>(1.0)),
+    static_cast<T>(16.0) * std::numeric_limits<T>::epsilon() * a);
+  if (is_zero(D, epsilon)) {
     // parallel case
     const T p1_on_r = distance_to_projected_point(r, p1);
     const T p2_on_r = distance_to_projected_point(r, p2);
-- 
2.43.0


From ade668d22df23ac6a659fc21e193151f626cb735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:49 +0000
Subject: [PATCH 25/35] fix: intersect_ray_bbox ignores axes along which the
 ray does not move

If the ray origin is within the slab of an axis and the direction has a zero
component along that axis, the distance was -1, so that rays starting inside of
a box never hit it.
---
 include/vecmath/intersection.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/vecmath/intersection.h b/include/vecmath/intersection.h
index 54a70d1..0d5893e 100644
--- a/include/vecmath/intersection.h
+++ b/include/vecmath/intersection.h
@@ -28,6 +28,8 @@
 #include "util.h"
 #include "vec.h"
 
+#include <limits>
+
 namespace vm {
 
 namespace detail {
@@ -370,6 +372,9 @@ constexpr T intersect_ray_bbox(const ray<T, S>& r, const bbox<T, S>& b) {
   for (size_t i = 0; i < S; ++i) {
     if (r.direction[i] != static_cast<T>(0.0)) {
       distances[i] = (origins[i] - r.origin[i]) / r.direction[i];
+    } else if (inside[i]) {
+      // the ray never leaves the slab
+      distances[i] = std::numeric_limits<T>::max();
     } else {
       distances[i] = static_cast<T>(-1.0);
     }
-- 
2.43.0


From 9b2753957343162092b7584278c7d490135b4ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:53 +0000
Subject: [PATCH 26/35] fix: intersect_ray_triangle hits small triangles

The determinant is proportional to the lengths of the triangle edges, so an
absolute epsilon rejects small triangles as parallel to the ray.
---
 include/vecmath/intersection.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/vecmath/intersection.h b/include/vecmath/intersection.h
index 0d5893e..c862fb4 100644
--- a/include/vecmath/intersection.h
+++ b/include/vecmath/intersection.h
@@ -252,7 +252,9 @@ constexpr T intersect_ray_triangle(
   const auto e2 = p3 - p1;
   const auto p = cross(d, e2);
   const auto a = dot(p, e1);
-  if (is_zero(a, constants<T>::almost_zero())) {
+  // a is proportional to the lengths of the edges, so use a smaller epsilon for small triangles
+  const auto scale = min(squared_length(e1) * squared_length(e2), T(1.0));
+  if (is_zero(a * a, constants<T>::almost_zero() * constants<T>::almost_zero() * scale)) {
     return nan<T>();
   }
 
-- 
2.43.0


From bc2e4fc4012b55fd0d88283eabe2388306fd078f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:57 +0000
Subject: [PATCH 27/35] fix: polygon_contains_point counts each vertex on the
 test ray once

Edges that end on the X axis were counted as crossing for either side, so that
points aligned with a vertex were misclassified, and points on an edge that is
parallel to the X axis were not recognized.
---
 include/vecmath/intersection.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/vecmath/intersection.h b/include/vecmath/intersection.h
index c862fb4..f32f05e 100644
--- a/include/vecmath/intersection.h
+++ b/include/vecmath/intersection.h
@@ -63,11 +63,15 @@ constexpr int handle_polygon_edge_intersection(const vec<T, 3>& v0, const vec<T,
    * or zero.
    */
 
-  // Does Y segment covered by the given edge touch the X axis at all?
+  // Is the edge on the X axis, and does it contain the origin?
   if (
-    (is_zero(v0.y(), constants<T>::almost_zero()) &&
-     is_zero(v1.y(), constants<T>::almost_zero())) ||
-    (v0.y() > T(0.0) && v1.y() > T(0.0)) || (v0.y() < T(0.0) && v1.y() < T(0.0))) {
+    is_zero(v0.y(), constants<T>::almost_zero()) && is_zero(v1.y(), constants<T>::almost_zero()) &&
+    (v0.x() > T(0.0)) != (v1.x() > T(0.0))) {
+    return -1;
+  }
+
+  // Does Y segment covered by the given edge touch the X axis at all?
+  if ((v0.y() > T(0.0)) == (v1.y() > T(0.0))) {
     return 0;
   }
 
-- 
2.43.0


From e012f0b80f17418a08e9a94ef5d38ca097ba3c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:13 +0000
Subject: [PATCH 28/35] fix: intersect_ray_bbox hits boxes through their edges
 and corners

Rays which enter or leave the box through an edge were missed if rounding moved
the hit point off the box.
---
 include/vecmath/intersection.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/vecmath/intersection.h b/include/vecmath/intersection.h
index f32f05e..550478c 100644
--- a/include/vecmath/intersection.h
+++ b/include/vecmath/intersection.h
@@ -414,11 +414,16 @@ constexpr T intersect_ray_bbox(const ray<T, S>& r, const bbox<T, S>& b) {
     return nan<T>();
   }
 
-  for (size_t i = 0; i < S; ++i) {
-    if (bestPlane != i) {
-      const T coord = r.origin[i] + distances[bestPlane] * r.direction[i];
-      if (coord < b.min[i] || coord > b.max[i]) {
-        return nan<T>();
+  if (!allInside) {
+    for (size_t i = 0; i < S; ++i) {
+      if (bestPlane != i) {
+        // only check the side that the ray is moving towards, since it has already passed the other
+        const T coord = r.origin[i] + distances[bestPlane] * r.direction[i];
+        if (
+          (r.direction[i] <= static_cast<T>(0.0) && coord < b.min[i]) ||
+          (r.direction[i] >= static_cast<T>(0.0) && coord > b.max[i])) {
+          return nan<T>();
+        }
       }
     }
   }
-- 
2.43.0


From b9ace9b949bb83ff661524197bf31ecc04036737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:30 +0000
Subject: [PATCH 29/35] fix: convex_hull returns no points in the interior of a
 hull edge

Such points were only removed from the edges at the anchor point.
---
 include/vecmath/convex_hull.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vecmath/convex_hull.h b/include/vecmath/convex_hull.h
index 1a51e6b..f6bea58 100644
--- a/include/vecmath/convex_hull.h
+++ b/include/vecmath/convex_hull.h
@@ -193,7 +193,7 @@ private:
       const auto& t1 = stack[stack.size() - 2];
       const auto& t2 = stack[stack.size() - 1];
       const auto side = is_left(t1, t2, p);
-      if (side < 0) {
+      if (side <= 0) {
         stack.pop_back();
         pop_stale_points(stack, p);
       }
-- 
2.43.0


From 05da8d4111059dbdeaa7c5a1f0c3f13125fd8fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:32 +0000
Subject: [PATCH 30/35] fix: convex_hull handles duplicates of the first point

If the first two points were identical, all points were considered to be
colinear.
---
 include/vecmath/convex_hull.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/vecmath/convex_hull.h b/include/vecmath/convex_hull.h
index f6bea58..52420d1 100644
--- a/include/vecmath/convex_hull.h
+++ b/include/vecmath/convex_hull.h
@@ -88,6 +88,7 @@ public:
       return;
     }
 
+    move_distinct_point_to_front();
     const auto thirdPointIndex = find_linearly_independent_point();
     if (thirdPointIndex >= m_points.size()) {
       m_points.clear();
@@ -111,6 +112,20 @@ public:
   const std::vector<vec<T, 3>>& result() const { return m_points; }
 
 private:
+  /**
+   * Makes sure that the second point is not a duplicate of the first, if there is such a point.
+   */
+  void move_distinct_point_to_front() {
+    std::size_t index = 1;
+    while (index < m_points.size() && is_zero(m_points[index] - m_points[0], T(0.0))) {
+      ++index;
+    }
+    if (index < m_points.size()) {
+      using std::swap;
+      swap(m_points[1], m_points[index]);
+    }
+  }
+
   std::size_t find_linearly_independent_point() const {
     std::size_t index = 2;
     while (index < m_points.size() && is_colinear(m_points[0], m_points[1], m_points[index])) {
-- 
2.43.0


From 48039cba5376c1de89460b9ac9b7f2bbbe6c6a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:44 +0000
Subject: [PATCH 31/35] fix: parse vectors from the given string view only

The component was parsed with atof, which reads beyond the end of the string
view and turns text that is not a number into 0.
---
 include/vecmath/vec_io.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/vec_io.h b/include/vecmath/vec_io.h
index 17ec21a..b4c5ef3 100644
--- a/include/vecmath/vec_io.h
+++ b/include/vecmath/vec_io.h
@@ -22,6 +22,7 @@
 
 #include "vec.h"
 
+#include <cstdlib>
 #include <optional>
 #include <ostream>
 #include <string>
@@ -38,8 +39,19 @@ std::optional<vec<T, S>> doParse(const std::string_view str, size_t& pos) {
     if ((pos = str.find_first_not_of(blank, pos)) == std::string::npos) {
       return std::nullopt;
     }
-    result[i] = static_cast<T>(std::atof(str.data() + pos));
-    if ((pos = str.find_first_of(blank, pos)) == std::string::npos) {
+
+    // the string view isn't necessarily null terminated, so copy the component
+    const auto end = str.find_first_of(blank, pos);
+    const auto component = std::string(str.substr(pos, end - pos));
+
+    char* componentEnd = nullptr;
+    result[i] = static_cast<T>(std::strtod(component.c_str(), &componentEnd));
+    if (componentEnd == component.c_str()) {
+      // not a number
+      return std::nullopt;
+    }
+
+    if ((pos = end) == std::string::npos) {
       if (i < S - 1) {
         return std::nullopt;
       }
-- 
2.43.0


From 1f505b7033a43512364a5db0b14c7ad6b3d29cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:56 +0000
Subject: [PATCH 32/35] fix: parse_all accepts lists separated by commas or
 semicolons only

If a separator wasn't followed by whitespace, the component following it was
skipped.
---
 include/vecmath/vec_io.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/vec_io.h b/include/vecmath/vec_io.h
index b4c5ef3..e83c1bc 100644
--- a/include/vecmath/vec_io.h
+++ b/include/vecmath/vec_io.h
@@ -51,10 +51,13 @@ std::optional<vec<T, S>> doParse(const std::string_view str, size_t& pos) {
       return std::nullopt;
     }
 
-    if ((pos = end) == std::string::npos) {
-      if (i < S - 1) {
+    if (i < S - 1) {
+      if ((pos = end) == std::string::npos) {
         return std::nullopt;
       }
+    } else {
+      // stop right after the number, it can be followed by a list separator
+      pos += static_cast<std::size_t>(componentEnd - component.c_str());
     }
   }
   return result;
-- 
2.43.0


From 3c9cd46c201f479b12a5e54952d95cab11404a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:08 +0000
Subject: [PATCH 33/35] fix: parse matrices from the given string view only

The components were parsed with atof, which reads beyond the end of the string
view and turns text that is not a number into 0.
---
 include/vecmath/mat_io.h | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/include/vecmath/mat_io.h b/include/vecmath/mat_io.h
index 3adf1cf..a690795 100644
--- a/include/vecmath/mat_io.h
+++ b/include/vecmath/mat_io.h
@@ -21,9 +21,11 @@
 #pragma once
 
 #include "mat.h"
+#include "vec_io.h"
 
 #include <optional>
 #include <ostream>
+#include <string_view>
 
 namespace vm {
 /**
@@ -44,21 +46,16 @@ namespace vm {
  */
 template <typename T, std::size_t R, std::size_t C>
 std::optional<mat<T, R, C>> parse(const std::string_view str) {
-  constexpr auto blank = " \t\n\r()";
+  std::size_t pos = 0u;
+  const auto components = detail::doParse<T, R * C>(str, pos);
+  if (!components) {
+    return std::nullopt;
+  }
 
   auto result = mat<T, R, C>{};
-  std::size_t pos = 0u;
   for (std::size_t r = 0u; r < R; ++r) {
     for (std::size_t c = 0u; c < C; ++c) {
-      if ((pos = str.find_first_not_of(blank, pos)) == std::string::npos) {
-        return std::nullopt;
-      }
-      result[c][r] = static_cast<T>(std::atof(str.data() + pos));
-      if ((pos = str.find_first_of(blank, pos)) == std::string::npos) {
-        if ((r * C) + c < R * C - 1u) {
-          return std::nullopt;
-        }
-      }
+      result[c][r] = (*components)[r * C + c];
     }
   }
   return result;
-- 
2.43.0


From 4c88abfcac93f27c1aa30e705ace2541c225b054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:51 +0000
Subject: [PATCH 34/35] fix: order vectors consistently with approximate
 equality

The ordering operators shifted the vector by the epsilon and compared
lexicographically, so that a vector could be neither less than, equal to, nor
greater than an approximate vector, and operator>= didn't compile.
---
 include/vecmath/approx.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/vecmath/approx.h b/include/vecmath/approx.h
index 0f287c3..14d76c9 100644
--- a/include/vecmath/approx.h
+++ b/include/vecmath/approx.h
@@ -150,35 +150,35 @@ public:
   }
 
   friend constexpr bool operator<(const vec<T, S>& lhs, const approx<vec<T, S>>& rhs) {
-    return lhs < (rhs.m_value - vec<T, S>::fill(rhs.m_epsilon));
+    return compare(lhs, rhs.m_value, rhs.m_epsilon) < 0;
   }
 
   friend constexpr bool operator<(const approx<vec<T, S>> lhs, const vec<T, S>& rhs) {
-    return lhs.m_value < (rhs - vec<T, S>::fill(lhs.m_epsilon));
+    return compare(lhs.m_value, rhs, lhs.m_epsilon) < 0;
   }
 
   friend constexpr bool operator<=(const vec<T, S>& lhs, const approx<vec<T, S>>& rhs) {
-    return lhs <= (rhs.m_value + vec<T, S>::fill(rhs.m_epsilon));
+    return compare(lhs, rhs.m_value, rhs.m_epsilon) <= 0;
   }
 
   friend constexpr bool operator<=(const approx<vec<T, S>> lhs, const vec<T, S>& rhs) {
-    return lhs.m_value <= (rhs + vec<T, S>::fill(lhs.m_epsilon));
+    return compare(lhs.m_value, rhs, lhs.m_epsilon) <= 0;
   }
 
   friend constexpr bool operator>(const vec<T, S>& lhs, const approx<vec<T, S>>& rhs) {
-    return lhs > (rhs.m_value + vec<T, S>::fill(rhs.m_epsilon));
+    return compare(lhs, rhs.m_value, rhs.m_epsilon) > 0;
   }
 
   friend constexpr bool operator>(const approx<vec<T, S>> lhs, const vec<T, S>& rhs) {
-    return lhs.m_value > (rhs + vec<T, S>::fill(lhs.m_epsilon));
+    return compare(lhs.m_value, rhs, lhs.m_epsilon) > 0;
   }
 
   friend constexpr bool operator>=(const vec<T, S>& lhs, const approx<vec<T, S>>& rhs) {
-    return lhs >= (rhs.m_value - rhs.m_epsilon);
+    return compare(lhs, rhs.m_value, rhs.m_epsilon) >= 0;
   }
 
   friend constexpr bool operator>=(const approx<vec<T, S>> lhs, const vec<T, S>& rhs) {
-    return lhs.m_value >= (rhs - lhs.m_epsilon);
+    return compare(lhs.m_value, rhs, lhs.m_epsilon) >= 0;
   }
 
   friend std::ostream& operator<<(std::ostream& str, const approx<vec<T, S>>& a) {
-- 
2.43.0


From af9a2f6515d04cb37ad0b1c8da71c56f1480a34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:46 +0000
Subject: [PATCH 35/35] fix: is_colinear does not suffer from cancellation

Colinear points that are far apart were not recognized as colinear.
---
 include/vecmath/vec.h | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/vecmath/vec.h b/include/vecmath/vec.h
index dac55a0..2be64d7 100644
--- a/include/vecmath/vec.h
+++ b/include/vecmath/vec.h
@@ -1446,19 +1446,21 @@ constexpr bool is_colinear(
   const vec<T, S>& a, const vec<T, S>& b, const vec<T, S>& c,
   const T epsilon = constants<T>::colinear_epsilon()) {
   // see http://math.stackexchange.com/a/1778739
+  // The sum of the squared minors is equal to |ac|^2 * |ba|^2 - dot(ac, ba)^2 (Lagrange's identity),
+  // but it doesn't suffer from cancellation.
 
-  T j = 0.0;
-  T k = 0.0;
-  T l = 0.0;
+  const auto ac = a - c;
+  const auto ba = b - a;
+
+  T sum = 0.0;
   for (size_t i = 0; i < S; ++i) {
-    const T ac = a[i] - c[i];
-    const T ba = b[i] - a[i];
-    j += ac * ba;
-    k += ac * ac;
-    l += ba * ba;
+    for (size_t j = i + 1; j < S; ++j) {
+      const T m = ac[i] * ba[j] - ac[j] * ba[i];
+      sum += m * m;
+    }
   }
 
-  return is_zero(j * j - k * l, epsilon);
+  return is_zero(sum, epsilon);
 }
 
 /**
-- 
2.43.0

