From f04d2b6602429922fcfc865f1a847e4fe6793e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:08 +0000
Subject: [PATCH 01/15] fix: slerp between nearly parallel quaternions

The linear branch swapped two components of `b` and returned the zero
quaternion when the shortest path goes through `-b`.
---
 src/quaternion.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/quaternion.rs b/src/quaternion.rs
index 909d115..1a78c29 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -462,10 +462,11 @@ impl<T: Float> Quaternion<T> {
         // TODO(elsuizo:2021-04-24): maybe here the comparison could be with epsilon
         if sin_half_theta.abs() < T::from(0.001).unwrap() {
             if !reverse_a {
-                result.q0   = (one - t) * a.q0 + t * b.q0;
-                result.q[0] = (one - t) * a.q[0] + t * b.q[0];
-                result.q[1] = (one - t) * a.q[1] + t * b.q[2];
-                result.q[2] = (one - t) * a.q[2] + t * b.q[1];
+                result.q0 = (one - t) * a.q0 + t * b.q0;
+                result.q  = a.q * (one - t) + b.q * t;
+            } else {
+                result.q0 = (one - t) * a.q0 - t * b.q0;
+                result.q  = a.q * (one - t) - b.q * t;
             }
             return result
         }
-- 
2.43.0


From a3530a0e21e5feab9724aba9d69337b4cc19eee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:08 +0000
Subject: [PATCH 02/15] fix: euler_to_rotation for the YZX sequence computed
 XYZ

---
 src/transformations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transformations.rs b/src/transformations.rs
index ffee3f1..14594cb 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -140,7 +140,7 @@ pub fn euler_to_rotation<T: Float>(yay: T, pitch: T, roll: T, s: Option<EulerSeq
         Some(EulerSeq::XZY) => rotx(yay) * rotz(pitch) * roty(roll),
         Some(EulerSeq::YXY) => roty(yay) * rotx(pitch) * roty(roll),
         Some(EulerSeq::YXZ) => roty(yay) * rotx(pitch) * rotz(roll),
-        Some(EulerSeq::YZX) => rotx(yay) * roty(pitch) * rotz(roll),
+        Some(EulerSeq::YZX) => roty(yay) * rotz(pitch) * rotx(roll),
         Some(EulerSeq::YZY) => roty(yay) * rotz(pitch) * roty(roll),
         Some(EulerSeq::ZXY) => rotz(yay) * rotx(pitch) * roty(roll),
         Some(EulerSeq::ZXZ) => rotz(yay) * rotx(pitch) * rotz(roll),
-- 
2.43.0


From 109c54c5788b722d9f1fc2ea4306d755468fdd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:08 +0000
Subject: [PATCH 03/15] fix: matrix_exponential6 of a pure translation was not
 a translation

---
 src/transformations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transformations.rs b/src/transformations.rs
index 14594cb..16f7bca 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -576,7 +576,7 @@ pub fn matrix_exponential6<T: Float>(se3: &M44<T>) -> M44<T> {
     let omega_theta = skew_to_vec(&skew_omega);
     // NOTE(elsuizo:2021-05-11): if w = 0 ---> "pitch" == infinity and |v| = 1 ---> theta represents only a linear distance
     if nearly_zero(omega_theta.norm2()) {
-        m44_new!( one,  zero,  one, v[0];
+        m44_new!( one,  zero, zero, v[0];
                  zero,   one, zero, v[1];
                  zero,  zero,  one, v[2];
                  zero,  zero, zero, one)
-- 
2.43.0


From bafe0b91f21ede948410ff84a94295f864fac2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:08 +0000
Subject: [PATCH 04/15] fix: matrix_log of the half turn around the x axis

---
 src/transformations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transformations.rs b/src/transformations.rs
index 16f7bca..9d5d867 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -459,7 +459,7 @@ pub fn matrix_log<T: Float + core::iter::Sum + FloatConst>(r: &M33<T>) -> M33<T>
                 * (one / T::sqrt(two * (one + r[(1, 1)])));
             skew_from_vec(&(omega * T::PI()))
         } else {
-            let omega = V3::new_from(one + r[(0, 0)], one + r[(1, 0)], r[(2, 0)])
+            let omega = V3::new_from(one + r[(0, 0)], r[(1, 0)], r[(2, 0)])
                 * (one / T::sqrt(two * (one + r[(0, 0)])));
             skew_from_vec(&(omega * T::PI()))
         }
-- 
2.43.0


From 13040c7bdc6233c6ccb6aa214e70947096816602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:08 +0000
Subject: [PATCH 05/15] fix: DualQuaternion::pow of a pure translation doubled
 the translation

---
 src/dual_quaternion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 08a9530..36ce12e 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -244,7 +244,7 @@ impl<T: Float + Signed> DualQuaternion<T> {
         let theta = two * T::acos(self.real().real());
         let (s, c) = (theta / two).sin_cos();
         if nearly_zero(theta) {
-            Self::new_from_point(&(self.get_translation() * exponent))
+            Self::new_from_translation(&(self.get_translation() * exponent))
         } else {
             let s0 = self.real().imag() / s;
             let d = self.dual().real() * -two / s;
-- 
2.43.0


From 240edcfbc58fae4d37b199f6a2698c1ae04a4ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:08 +0000
Subject: [PATCH 06/15] fix: DualQuaternion::screw_lerp sign handling

The closest of the two representations is decided by the dot product of
the real parts, and both parts have to change sign to keep the same motion.
---
 src/dual_quaternion.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 36ce12e..bc3ebe4 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -271,12 +271,11 @@ impl<T: Float + Signed> DualQuaternion<T> {
     /// `tau`: Float in [0, 1] representing how far along and around the screw axis to interpolate
     ///
     pub fn screw_lerp(begin: &Self, end: &Self, tau: T) -> Self {
-        let one = T::one();
         let mut start = *begin;
         // TODO(elsuizo:2021-05-23): this is from the python implementation that refers to a paper
         // that "ensure we always find closest solution, See Kavan and Zara 2005"
-        if (start.real() * end.real()).real() < T::zero() {
-            start.q_real = begin.real() * -one;
+        if start.real().dot(end.real()) < T::zero() {
+            start = -start;
         }
         start * (start.inverse() * *end).pow(tau)
     }
-- 
2.43.0


From 76075d030fea593ddaba8121acdeed3b1c3035a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:08 +0000
Subject: [PATCH 07/15] fix: DualQuaternion division

The formula only held for parts that commute; the quotient times the
divisor was not the dividend.
---
 src/dual_quaternion.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index bc3ebe4..fedb625 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -142,9 +142,8 @@ impl<T: Float + Signed> Div for DualQuaternion<T> {
     type Output = Self;
 
     fn div(self, rhs: Self) -> Self::Output {
-        let rhs_real_sqr = rhs.q_real * rhs.q_real;
-        let prod_real = self.q_real * rhs.q_real / rhs_real_sqr;
-        let prod_dual = (rhs.q_real * self.q_dual - self.q_real * rhs.q_dual) / rhs_real_sqr;
+        let prod_real = self.q_real / rhs.q_real;
+        let prod_dual = (self.q_dual - prod_real * rhs.q_dual) / rhs.q_real;
         Self::new(prod_real, prod_dual)
     }
 }
-- 
2.43.0


From fea73335aab6bf411b792f29c1f3def24cfbc9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:08 +0000
Subject: [PATCH 08/15] fix: V3 * M33 computed the product of the matrix with
 the vector

---
 src/vector3.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vector3.rs b/src/vector3.rs
index 6d7fd81..1be6593 100644
--- a/src/vector3.rs
+++ b/src/vector3.rs
@@ -205,9 +205,9 @@ impl<T: Num + Copy> Mul<M33<T>> for V3<T> {
     #[inline]
     fn mul(self, rhs: M33<T>) -> V3<T> {
         Self::new_from(
-            rhs[(0, 0)] * self[0] + rhs[(0, 1)] * self[1] + rhs[(0, 2)] * self[2],
-            rhs[(1, 0)] * self[0] + rhs[(1, 1)] * self[1] + rhs[(1, 2)] * self[2],
-            rhs[(2, 0)] * self[0] + rhs[(2, 1)] * self[1] + rhs[(2, 2)] * self[2])
+            self[0] * rhs[(0, 0)] + self[1] * rhs[(1, 0)] + self[2] * rhs[(2, 0)],
+            self[0] * rhs[(0, 1)] + self[1] * rhs[(1, 1)] + self[2] * rhs[(2, 1)],
+            self[0] * rhs[(0, 2)] + self[1] * rhs[(1, 2)] + self[2] * rhs[(2, 2)])
     }
 }
 
-- 
2.43.0


From 7530fe22e99d667c66a5301ec7a1fd6423b3a3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:08 +0000
Subject: [PATCH 09/15] fix: norm_inf ignored the magnitude of the negative
 elements

---
 src/slices_methods.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/slices_methods.rs b/src/slices_methods.rs
index 257db2a..d5407b5 100644
--- a/src/slices_methods.rs
+++ b/src/slices_methods.rs
@@ -65,8 +65,12 @@ pub fn find_max_min<T: core::cmp::PartialOrd + Copy>(slice: &[T]) -> MaxMin<T> {
 
 /// calculate the inf-norm of the slice
 pub fn norm_inf<T: Num + Copy + core::cmp::PartialOrd>(slice: &[T]) -> T {
-    let max_min = find_max_min(slice);
-    max_min.max.0
+    let MaxMin { max: (max, _), min: (min, _) } = find_max_min(slice);
+    if min < T::zero() && max < T::zero() - min {
+        T::zero() - min
+    } else {
+        max
+    }
 }
 
 /// calculate the l-norm of the slice
-- 
2.43.0


From 3d23785941a2a34a13516826c3efdc60fd8f8586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:08 +0000
Subject: [PATCH 10/15] fix: nearly_equal never reached the absolute comparison
 of subnormals

`min_value` is the most negative number, so the test could not be true.
---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 7017074..0da6633 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -47,7 +47,7 @@ pub fn nearly_equal<T: Float>(a: T, b: T, epsilon: T) -> bool {
     // short-cut, handles infinity
     if a == b {
         true
-    } else if a == zero || b == zero || (abs_a + abs_b < T::min_value()) {
+    } else if a == zero || b == zero || (abs_a + abs_b < T::min_positive_value()) {
         // a or b is zero or both are extremely close to it
         // relative error is less meaningful here
         abs_diff < epsilon
-- 
2.43.0


From 5ddbbfa1b4fb47f65523c20c6da71d2f78e27100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:08 +0000
Subject: [PATCH 11/15] fix: DualQuaternion::normalize left a dual part not
 orthogonal to the real part

The result is flagged as normalized, so its inverse is its conjugate, and
that was wrong for it.
---
 src/dual_quaternion.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index fedb625..1908f9e 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -359,7 +359,8 @@ impl<T: Float + FloatConst + core::iter::Sum> DualQuaternion<T> {
             if !nearly_zero(norm_q_real) {
                 let mut result = Self::one();
                 result.q_real = self.q_real / norm_q_real;
-                result.q_dual = self.q_dual / norm_q_real;
+                let q_dual = self.q_dual / norm_q_real;
+                result.q_dual = q_dual - result.q_real * result.q_real.dot(q_dual);
                 result.normalized = true;
                 Some(result)
             } else {
-- 
2.43.0


From 6b2b9db06dd6ca0e3cc295b2650c9284a445793c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:08 +0000
Subject: [PATCH 12/15] fix: dual part of DualQuaternion::log

It was half of the translation, which is only right for motions whose
screw axis passes through the origin with the translation along it.
---
 src/dual_quaternion.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 1908f9e..17e10b8 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -287,7 +287,8 @@ impl<T: Float + Signed> DualQuaternion<T> {
             let half = one / two;
             let (axis, angle) = self.real().axis_angle();
             let q_real = Quaternion::new_imag(&(axis.expect("there is no axis") * half * angle));
-            let q_dual = Quaternion::new_imag(&(self.get_translation() * half));
+            let (l, m, theta, d) = self.get_screw_parameters();
+            let q_dual = Quaternion::new_imag(&((m * theta + l * d) * half));
             Some(DualQuaternion::new(q_real, q_dual))
         } else {
             None
-- 
2.43.0


From 7868f6562a7fcf1e8c6aa0d5f328b273a0cc0713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:01 +0000
Subject: [PATCH 13/15] fix: is_rotation and is_rotation_h accepted any matrix
 of determinant one

They now also require the rotation block to be orthogonal, and is_rotation_h
the last row of a homogeneous transformation.
---
 src/utils.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 0da6633..b699144 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -32,6 +32,7 @@ use crate::dual_quaternion::DualQuaternion;
 use crate::matrix3x3::M33;
 use crate::matrix4x4::M44;
 use crate::traits::LinearAlgebra;
+use crate::transformations::get_parts_raw;
 use num::Float;
 // NOTE(elsuizo:2020-06-02): the following function
 // is a translation of the implementation that is here:
@@ -75,14 +76,20 @@ pub fn compare_floats<T: Float>(num1: T, num2: T, tol: T) -> bool {
 
 /// utility function to verify if a Matrix is a propper rotation matrix
 pub fn is_rotation<T: Float + core::iter::Sum>(r: M33<T>) -> bool {
-    let r2 = r * r;
-    nearly_equal(r.det(), T::one(), T::epsilon()) && nearly_equal(r2.det(), T::one(), T::epsilon())
+    // NOTE: the product of the rounded elements accumulates more error than the determinant
+    let eps = T::from(10.0).unwrap() * T::epsilon();
+    nearly_equal(r.det(), T::one(), T::epsilon())
+        && compare_vecs(&(r * r.transpose()).as_vec(), &M33::identity().as_vec(), eps)
 }
 
 pub fn is_rotation_h<T: Float + core::iter::Sum>(r: M44<T>) -> bool {
-    let r2 = r * r;
     let eps = T::from(1e-6).unwrap();
-    nearly_equal(r.det(), T::one(), eps) && nearly_equal(r2.det(), T::one(), eps)
+    let (zero, one) = (T::zero(), T::one());
+    let (rot, _) = get_parts_raw(&r);
+    let last_row = [r[(3, 0)], r[(3, 1)], r[(3, 2)], r[(3, 3)]];
+    nearly_equal(rot.det(), one, eps)
+        && compare_vecs(&(rot * rot.transpose()).as_vec(), &M33::identity().as_vec(), eps)
+        && compare_vecs(&last_row, &[zero, zero, zero, one], eps)
 }
 
 pub fn compare_dual_quaternions<T: Float>(
-- 
2.43.0


From 06cec1e68118356f1271a5adff9f43f6e6758742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:37 +0000
Subject: [PATCH 14/15] fix: Display of the matrices printed to stdout and
 broke the no-std build

---
 src/matrix2x2.rs | 2 +-
 src/matrix3x3.rs | 2 +-
 src/matrix4x4.rs | 2 +-
 src/matrix5x5.rs | 2 +-
 src/matrix6x6.rs | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/matrix2x2.rs b/src/matrix2x2.rs
index 656b8b1..cae8be4 100644
--- a/src/matrix2x2.rs
+++ b/src/matrix2x2.rs
@@ -527,7 +527,7 @@ macro_rules! m22_new {
 //-------------------------------------------------------------------------
 impl<T: Num + fmt::Display> fmt::Display for M22<T> {
     fn fmt(&self, dest: &mut fmt::Formatter) -> fmt::Result {
-        println!();
+        writeln!(dest)?;
         writeln!(dest, "|{0:^3.2} {1:^3.2}|", self[(0, 0)], self[(0, 1)])?;
         writeln!(dest, "|{0:^3.2} {1:^3.2}|", self[(1, 0)], self[(1, 1)])
     }
diff --git a/src/matrix3x3.rs b/src/matrix3x3.rs
index f2cf923..40f4664 100644
--- a/src/matrix3x3.rs
+++ b/src/matrix3x3.rs
@@ -627,7 +627,7 @@ impl<T> IndexMut<(usize, usize)> for M33<T> {
 //-------------------------------------------------------------------------
 impl<T: Num + fmt::Display> fmt::Display for M33<T> {
     fn fmt(&self, dest: &mut fmt::Formatter) -> fmt::Result {
-        println!();
+        writeln!(dest)?;
         writeln!(
             dest,
             "|{0:<7.2} {1:^7.2} {2:>7.2}|",
diff --git a/src/matrix4x4.rs b/src/matrix4x4.rs
index ad01f6b..41f30cf 100644
--- a/src/matrix4x4.rs
+++ b/src/matrix4x4.rs
@@ -818,7 +818,7 @@ impl<T> IndexMut<usize> for M44<T> {
 //-------------------------------------------------------------------------
 impl<T: Num + fmt::Display> fmt::Display for M44<T> {
     fn fmt(&self, dest: &mut fmt::Formatter) -> fmt::Result {
-        println!();
+        writeln!(dest)?;
         writeln!(
             dest,
             "|{0:<7.2} {1:^7.2} {2:^7.2} {3:>7.2}|",
diff --git a/src/matrix5x5.rs b/src/matrix5x5.rs
index 539088a..d37fd31 100644
--- a/src/matrix5x5.rs
+++ b/src/matrix5x5.rs
@@ -1077,7 +1077,7 @@ impl<T> IndexMut<usize> for M55<T> {
 //-------------------------------------------------------------------------
 impl<T: Num + fmt::Display> fmt::Display for M55<T> {
     fn fmt(&self, dest: &mut fmt::Formatter) -> fmt::Result {
-        println!();
+        writeln!(dest)?;
         writeln!(
             dest,
             "|{0:<7.2} {1:^7.2} {2:^7.2} {3:^7.2} {4:>7.2}|",
diff --git a/src/matrix6x6.rs b/src/matrix6x6.rs
index cad9012..3ec9e73 100644
--- a/src/matrix6x6.rs
+++ b/src/matrix6x6.rs
@@ -1929,7 +1929,7 @@ macro_rules! m66_new {
 //-------------------------------------------------------------------------
 impl<T: Num + fmt::Display> fmt::Display for M66<T> {
     fn fmt(&self, dest: &mut fmt::Formatter) -> fmt::Result {
-        println!();
+        writeln!(dest)?;
         writeln!(
             dest,
             "|{0:<7.2} {1:^7.2} {2:^7.2} {3:^7.2} {4:^7.2} {5:>7.2}|",
-- 
2.43.0


From dd6534515e9fe234efca1d57eb05437d23498bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:08:56 +0000
Subject: [PATCH 15/15] fix: equality of Quaternion and DualQuaternion compared
 the cached normalized flag

---
 src/dual_quaternion.rs | 9 ++++++++-
 src/quaternion.rs      | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 17e10b8..5957947 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -40,7 +40,7 @@ use core::ops::{Add, Div, Mul, Neg, Sub};
 use num::traits::FloatConst;
 use num::{Float, Num, One, Signed, Zero};
 
-#[derive(Copy, Debug, Clone, PartialEq)]
+#[derive(Copy, Debug, Clone)]
 pub struct DualQuaternion<T> {
     /// the real part
     q_real: Quaternion<T>,
@@ -50,6 +50,13 @@ pub struct DualQuaternion<T> {
     normalized: bool,
 }
 
+// NOTE: the normalized flag is a cache, it is not part of the value
+impl<T: PartialEq> PartialEq for DualQuaternion<T> {
+    fn eq(&self, other: &Self) -> bool {
+        self.q_real == other.q_real && self.q_dual == other.q_dual
+    }
+}
+
 /// Dual Quaternion inplementation
 impl<T> DualQuaternion<T> {
     pub const fn new(q_real: Quaternion<T>, q_dual: Quaternion<T>) -> Self {
diff --git a/src/quaternion.rs b/src/quaternion.rs
index 1a78c29..1e4852f 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -40,7 +40,7 @@ use crate::utils::nearly_zero;
 use crate::traits::LinearAlgebra;
 
 /// Quaternion type
-#[derive(Copy, Debug, Clone, PartialEq)]
+#[derive(Copy, Debug, Clone)]
 #[repr(C)]
 pub struct Quaternion<T> {
     /// Scalar part
@@ -51,6 +51,13 @@ pub struct Quaternion<T> {
     normalized: bool
 }
 
+// NOTE: the normalized flag is a cache, it is not part of the value
+impl<T: PartialEq> PartialEq for Quaternion<T> {
+    fn eq(&self, other: &Self) -> bool {
+        self.q0 == other.q0 && self.q == other.q
+    }
+}
+
 impl<T> Quaternion<T> {
 
     /// Construct a new Quaternion from a number(real part) and a vector(imag part)
-- 
2.43.0

