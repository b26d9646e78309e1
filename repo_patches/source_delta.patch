From 03a1249afdc74502d1dc9a4aa7c9b19f828f1023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:01 +0000
Subject: [PATCH 01/53] fix: make float balls of lazy numbers enclose the exact
 value

The ball of a rational leaf had radius zero even when the rational is not
a double, and the reciprocal ignored the rounding of 1/m. Sign filters
built on such balls could return the wrong sign for nearly cancelling
expressions.
---
 src/numeric/ball.rs       | 14 +++++++++++++-
 src/numeric/lazy_exact.rs |  2 +-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/numeric/ball.rs b/src/numeric/ball.rs
index 6593619..fd41e11 100644
--- a/src/numeric/ball.rs
+++ b/src/numeric/ball.rs
@@ -20,6 +20,8 @@
 // OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
 // SOFTWARE.
 
+use rug::Rational;
+
 #[derive(Copy, Clone, Debug)]
 pub struct Ball {
     pub m: f64,
@@ -46,6 +48,16 @@ impl Ball {
     pub fn from_f64(x: f64) -> Self {
         Ball { m: x, r: 0.0 }
     }
+    /// Ball around a rational; the radius covers the rounding of the center.
+    #[inline]
+    pub fn from_rational(x: &Rational) -> Self {
+        let m = x.to_f64();
+        if !m.is_finite() {
+            return Ball::unknown();
+        }
+        let r = if *x == m { 0.0 } else { Self::widen_ulp(m) };
+        Ball { m, r }
+    }
     #[inline]
     pub fn unknown() -> Self {
         Ball {
@@ -101,7 +113,7 @@ impl Ball {
         }
         let denom = self.m.abs() * (self.m.abs() - self.r);
         let m = 1.0 / self.m;
-        let r = self.r / denom; // outward-bound
+        let r = self.r / denom + Self::widen_ulp(m); // outward-bound
         Ball { m, r }
     }
 
diff --git a/src/numeric/lazy_exact.rs b/src/numeric/lazy_exact.rs
index 82cafe5..4fab4e4 100644
--- a/src/numeric/lazy_exact.rs
+++ b/src/numeric/lazy_exact.rs
@@ -825,7 +825,7 @@ impl LazyExact {
         use Kind::*;
         match kind {
             LeafApprox(a) => Ball::from_f64(a.0),
-            LeafExact(e) => Ball::from_f64(e.to_f64().unwrap_or(0.0)),
+            LeafExact(e) => Ball::from_rational(&e.0),
             Add(a, b) => a.ball_ref().add(b.ball()),
             Sub(a, b) => a.ball_ref().sub(b.ball()),
             Mul(a, b) => a.ball_ref().mul(b.ball()),
-- 
2.43.0


From e26d1ac1fff41e2c64548722dfcb51d0ea023526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:01 +0000
Subject: [PATCH 02/53] fix: compare lazy numbers by value when both are
 doubles

cmp_ref used a total order on the bit pattern, so -0.0 and 0.0 compared
as different numbers. Rationals beyond the double range panicked while
being tested for an exact double value.
---
 src/numeric/lazy_exact.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/numeric/lazy_exact.rs b/src/numeric/lazy_exact.rs
index 4fab4e4..42a09d1 100644
--- a/src/numeric/lazy_exact.rs
+++ b/src/numeric/lazy_exact.rs
@@ -159,7 +159,8 @@ impl Scalar for LazyExact {
 
         // 2) If both are exact doubles (or both reduced to machine floats)
         if let (Some(da), Some(db)) = (a.as_f64_if_exact(), b.as_f64_if_exact()) {
-            return da.total_cmp(&db);
+            // both finite; numeric order, so that -0.0 and 0.0 compare equal
+            return da.partial_cmp(&db).unwrap();
         }
 
         // 3) Exact comparator WITHOUT building (a-b) node.
@@ -357,7 +358,7 @@ impl LazyExact {
             Kind::LeafExact(e) => {
                 if let Some(v) = e.to_f64() {
                     // accept only if round-trip is exact (dyadic)
-                    if CgarRational::from(v) == **e {
+                    if v.is_finite() && e.0 == v {
                         Some(v)
                     } else {
                         None
-- 
2.43.0


From 86954fcfea09ee59be6f297cb5d9006bf13f3af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:01 +0000
Subject: [PATCH 03/53] fix: return an enclosing double interval for rationals

The interval of a rational was a single rounded double, which does not
contain the value when the rational is not a double.
---
 src/numeric/cgar_rational.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/numeric/cgar_rational.rs b/src/numeric/cgar_rational.rs
index 6ddea2e..7d9c4f6 100644
--- a/src/numeric/cgar_rational.rs
+++ b/src/numeric/cgar_rational.rs
@@ -24,6 +24,7 @@ use num_traits::ToPrimitive;
 use rug::Rational;
 
 use crate::{
+    geometry::util::{f64_next_down, f64_next_up},
     numeric::{
         cgar_f64::CgarF64,
         lazy_exact::LazyExact,
@@ -117,7 +118,13 @@ impl Scalar for CgarRational {
     }
 
     fn double_interval(&self) -> Option<(f64, f64)> {
-        Some((self.0.to_f64(), self.0.to_f64()))
+        let m = self.0.to_f64();
+        if self.0 == m {
+            Some((m, m))
+        } else {
+            // to_f64 rounds; widen outward so the exact value stays inside
+            Some((f64_next_down(m), f64_next_up(m)))
+        }
     }
 
     fn ball_center_f64(&self) -> f64 {
-- 
2.43.0


From 5996d0c67ed8b5750c31237b880e63a4044b2531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:33 +0000
Subject: [PATCH 04/53] fix: compute the true orientation determinant in any
 dimension

The elimination skipped the division by the previous pivot and never
swapped rows, so the sign was wrong whenever a pivot was zero or negative.
---
 src/kernel/orientation.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/kernel/orientation.rs b/src/kernel/orientation.rs
index cdb4ffe..8c7f7c2 100755
--- a/src/kernel/orientation.rs
+++ b/src/kernel/orientation.rs
@@ -41,20 +41,28 @@ where
     let mut m: [[T; N]; N] =
         from_fn(|row| from_fn(|col| &p[row + 1].coords[col] - &p[0].coords[col]));
 
-    // 2. Fraction-free Gaussian elimination → determinant in `det`
-    let mut det = T::one(); // running ±product of pivots
+    // 2. Fraction-free (Bareiss) elimination: the last pivot is the determinant
+    let mut negate = false;
+    let mut prev = T::one(); // previous pivot
     for k in 0..N {
-        // pivot = m[k][k];  if zero, determinant is zero
+        // bring the largest pivot into row k;  if it is zero, so is the determinant
+        for i in (k + 1)..N {
+            if m[i][k].abs() > m[k][k].abs() {
+                m.swap(i, k);
+                negate = !negate;
+            }
+        }
         if m[k][k].abs() == T::zero() {
             return T::zero();
         }
         for i in (k + 1)..N {
             for j in (k + 1)..N {
-                //   m[i][j] = m[i][j] * pivot - m[i][k] * m[k][j];
-                m[i][j] = &(&m[i][j] * &m[k][k]) - &(&m[i][k] * &m[k][j]);
+                //   m[i][j] = (m[i][j] * pivot - m[i][k] * m[k][j]) / previous pivot;
+                let num = &(&m[i][j] * &m[k][k]) - &(&m[i][k] * &m[k][j]);
+                m[i][j] = num / prev.clone();
             }
         }
-        det = det * m[k][k].clone();
+        prev = m[k][k].clone();
     }
-    det
+    if negate { -prev } else { prev }
 }
-- 
2.43.0


From 0e29d5fd86432aff998a83701a07f26f27106aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:46 +0000
Subject: [PATCH 05/53] fix: treat coincident points as collinear with any
 third point

The collinearity test rejected triples whose first two points coincide,
so it depended on the order of its arguments and a segment did not
contain its own start point.
---
 src/kernel/predicates.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/kernel/predicates.rs b/src/kernel/predicates.rs
index 84d6cf3..2112a6d 100755
--- a/src/kernel/predicates.rs
+++ b/src/kernel/predicates.rs
@@ -93,8 +93,8 @@ where
             // first non-zero component gives the candidate scale factor
             let r = &vi / &ui;
 
-            // every remaining coordinate must satisfy vj = r * uj
-            for j in (i + 1)..N {
+            // every other coordinate must satisfy vj = r * uj
+            for j in (0..N).filter(|&j| j != i) {
                 let uj = &b.coords[j] - &a.coords[j];
                 let vj = &c.coords[j] - &a.coords[j];
                 if (&vj - &(&uj * &r)).abs().is_positive() {
@@ -102,11 +102,9 @@ where
                 }
             }
             return true; // all coordinates match
-        } else if vi.abs().is_positive() {
-            return false; // ui ≈ 0 but vi isn’t ⇒ not collinear
         }
     }
-    // all ui ≈ 0  ⇒  A and B coincide; collinear iff C coincides too
+    // all ui ≈ 0  ⇒  A and B coincide, and two distinct points are collinear
     true
 }
 
-- 
2.43.0


From 1595f666fc1af4355b8d64577b33945ea2d9314b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:46 +0000
Subject: [PATCH 06/53] fix: do not report points on an edge's extension as on
 the triangle

---
 src/kernel/predicates.rs | 32 +-------------------------------
 1 file changed, 1 insertion(+), 31 deletions(-)

diff --git a/src/kernel/predicates.rs b/src/kernel/predicates.rs
index 2112a6d..73ab4bc 100755
--- a/src/kernel/predicates.rs
+++ b/src/kernel/predicates.rs
@@ -27,8 +27,7 @@ use crate::geometry::util::EPS;
 use crate::geometry::vector::{Cross3, VectorOps};
 use crate::geometry::{Point2, Point3};
 use crate::geometry::{point::Point, vector::Vector};
-use crate::numeric::cgar_f64::CgarF64;
-use crate::numeric::scalar::{RefInto, Scalar};
+use crate::numeric::scalar::Scalar;
 use std::ops::{Add, Div, Mul, Sub};
 
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
@@ -353,15 +352,6 @@ where
         + Mul<&'a T, Output = T>
         + Div<&'a T, Output = T>,
 {
-    #[inline(always)]
-    fn near_edge_approx<TS: Scalar>(e0: &TS, e1: &TS, e2: &TS) -> bool {
-        let eps = RefInto::<CgarF64>::ref_into(&TS::query_tolerance()).0;
-        let e0f = RefInto::<CgarF64>::ref_into(e0).0;
-        let e1f = RefInto::<CgarF64>::ref_into(e1).0;
-        let e2f = RefInto::<CgarF64>::ref_into(e2).0;
-        e0f.abs() <= eps || e1f.abs() <= eps || e2f.abs() <= eps
-    }
-
     #[inline(always)]
     fn classify_from_edges<TS: Scalar + PartialOrd>(e0: &TS, e1: &TS, e2: &TS) -> TrianglePoint {
         let zero = TS::zero();
@@ -419,17 +409,6 @@ where
         let e1 = &(&bcx * &bpy) - &(&bcy * &bpx);
         let e2 = &(&cax * &cpy) - &(&cay * &cpx);
 
-        // near-edge fast path -> confirm exact boundary kind
-        if near_edge_approx::<T>(&e0, &e1, &e2) && (e0.is_zero() || e1.is_zero() || e2.is_zero()) {
-            // figure out vertex vs edge by zero-count
-            let zc = (e0.is_zero() as u8) + (e1.is_zero() as u8) + (e2.is_zero() as u8);
-            return if zc >= 2 {
-                TrianglePoint::OnVertex
-            } else {
-                TrianglePoint::OnEdge
-            };
-        }
-
         return classify_from_edges(&e0, &e1, &e2);
     } else if N == 3 {
         // normal and degeneracy
@@ -451,15 +430,6 @@ where
         let e1 = bc.cross(&bp).dot(&n);
         let e2 = ca.cross(&cp).dot(&n);
 
-        if near_edge_approx::<T>(&e0, &e1, &e2) && (e0.is_zero() || e1.is_zero() || e2.is_zero()) {
-            let zc = (e0.is_zero() as u8) + (e1.is_zero() as u8) + (e2.is_zero() as u8);
-            return if zc >= 2 {
-                TrianglePoint::OnVertex
-            } else {
-                TrianglePoint::OnEdge
-            };
-        }
-
         return classify_from_edges(&e0, &e1, &e2);
     } else {
         panic!("point_in_or_on_triangle only supports N = 2 or N = 3");
-- 
2.43.0


From d80c9c45e42bf3b69c1baee040baa70f52f55a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:46 +0000
Subject: [PATCH 07/53] fix: return nothing for disjoint collinear segments and
 a point for touching ones

---
 src/geometry/intersection.rs | 63 ++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 36 deletions(-)

diff --git a/src/geometry/intersection.rs b/src/geometry/intersection.rs
index 3344e35..5941389 100755
--- a/src/geometry/intersection.rs
+++ b/src/geometry/intersection.rs
@@ -121,26 +121,32 @@ where
         // Collinear case
         if are_collinear(&a, &b, &c) {
             // Compute overlapping segment
-            let mut pts = [a, b, c, d];
-            pts.sort_by(|p1, p2| {
-                p1[0]
-                    .partial_cmp(&p2[0])
-                    .unwrap_or(std::cmp::Ordering::Equal)
-                    .then(
-                        p1[1]
-                            .partial_cmp(&p2[1])
-                            .unwrap_or(std::cmp::Ordering::Equal),
-                    )
-            });
-
-            let s = Segment2::new(&pts[1], &pts[2]);
-            return SegmentIntersection2::Overlapping(s);
+            return match collinear_overlap(a, b, c, d) {
+                None => SegmentIntersection2::None,
+                Some((lo, hi)) if lo == hi => SegmentIntersection2::Point(lo.clone()),
+                Some((lo, hi)) => SegmentIntersection2::Overlapping(Segment2::new(lo, hi)),
+            };
         }
     }
 
     SegmentIntersection2::None
 }
 
+/// Common part of two collinear segments `ab` and `cd`, as its lexicographically
+/// smallest and largest point; `None` if the segments are disjoint.
+fn collinear_overlap<'p, T: Scalar, const N: usize>(
+    a: &'p Point<T, N>,
+    b: &'p Point<T, N>,
+    c: &'p Point<T, N>,
+    d: &'p Point<T, N>,
+) -> Option<(&'p Point<T, N>, &'p Point<T, N>)> {
+    let (a, b) = if a <= b { (a, b) } else { (b, a) };
+    let (c, d) = if c <= d { (c, d) } else { (d, c) };
+    let lo = if a <= c { c } else { a };
+    let hi = if b <= d { b } else { d };
+    if lo <= hi { Some((lo, hi)) } else { None }
+}
+
 #[derive(Debug, Clone)]
 pub enum SegmentIntersection3<T>
 where
@@ -218,28 +224,13 @@ where
         (s, t)
     } else {
         // Segments are parallel — handle collinear case
-        if are_collinear(p1, p2, q1) {
-            // Sort points by x (then y then z)
-            let mut pts = [p1, p2, q1, q2];
-            pts.sort_by(|p1, p2| {
-                p1[0]
-                    .partial_cmp(&p2[0])
-                    .unwrap_or(std::cmp::Ordering::Equal)
-                    .then(
-                        p1[1]
-                            .partial_cmp(&p2[1])
-                            .unwrap_or(std::cmp::Ordering::Equal),
-                    )
-                    .then(
-                        p1[2]
-                            .partial_cmp(&p2[2])
-                            .unwrap_or(std::cmp::Ordering::Equal),
-                    )
-            });
-            return SegmentIntersection3::Overlapping(Segment3 {
-                a: pts[1].clone(),
-                b: pts[2].clone(),
-            });
+        // (either segment may be a single point, so test both lines)
+        if are_collinear(p1, p2, q1) && are_collinear(q1, q2, p1) {
+            return match collinear_overlap(p1, p2, q1, q2) {
+                None => SegmentIntersection3::None,
+                Some((lo, hi)) if lo == hi => SegmentIntersection3::Point(lo.clone()),
+                Some((lo, hi)) => SegmentIntersection3::Overlapping(Segment3::new(lo, hi)),
+            };
         }
 
         return SegmentIntersection3::None;
-- 
2.43.0


From c7196b56550087ee8caf20e12de6f93cfffcdf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:46 +0000
Subject: [PATCH 08/53] fix: bound both edges in the 2D edge-edge intersection

---
 src/geometry/edge_edge_intersect.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/geometry/edge_edge_intersect.rs b/src/geometry/edge_edge_intersect.rs
index ed0bdd2..78b9874 100644
--- a/src/geometry/edge_edge_intersect.rs
+++ b/src/geometry/edge_edge_intersect.rs
@@ -47,10 +47,14 @@ where
     let d2 = (p1[0].clone() - p3[0].clone()) * (p4[1].clone() - p3[1].clone())
         - (p1[1].clone() - p3[1].clone()) * (p4[0].clone() - p3[0].clone());
 
-    let t = d2 / d1.clone();
+    let d3 = (p1[0].clone() - p3[0].clone()) * (p2[1].clone() - p1[1].clone())
+        - (p1[1].clone() - p3[1].clone()) * (p2[0].clone() - p1[0].clone());
+
+    let t = -d2 / d1.clone();
+    let u = -d3 / d1;
 
     // Check if intersection is within both line segments
-    if t >= T::zero() && t <= T::one() {
+    if t >= T::zero() && t <= T::one() && u >= T::zero() && u <= T::one() {
         let x = p1[0].clone() + t.clone() * (p2[0].clone() - p1[0].clone());
         let y = p1[1].clone() + t * (p2[1].clone() - p1[1].clone());
         Some(Point::<T, N>::from_vals(from_fn(|i| match i {
-- 
2.43.0


From c20505a2ec7dff1803f3adb71102825ac3f50c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:46 +0000
Subject: [PATCH 09/53] fix: drop signed zeros from canonical planes after
 flipping the sign

---
 src/geometry/plane.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/geometry/plane.rs b/src/geometry/plane.rs
index ab4ea61..6596ba8 100644
--- a/src/geometry/plane.rs
+++ b/src/geometry/plane.rs
@@ -59,13 +59,6 @@ where
     pub fn canonicalized(&self) -> Plane<T, N> {
         let mut plane = Plane::new(self.normal.clone(), self.d.clone());
 
-        // Remove signed zeros in the normal
-        for x in plane.normal.coords_mut() {
-            if x.is_zero() {
-                *x = T::zero();
-            }
-        }
-
         // Find first non-zero coefficient
         if let Some(c) = plane.normal.coords().iter().find(|x| !x.is_zero()).cloned() {
             // scale by |c|
@@ -84,6 +77,16 @@ where
                 plane.d = -plane.d;
             }
         }
+
+        // Remove signed zeros
+        for x in plane.normal.coords_mut() {
+            if x.is_zero() {
+                *x = T::zero();
+            }
+        }
+        if plane.d.is_zero() {
+            plane.d = T::zero();
+        }
         plane
     }
 }
-- 
2.43.0


From beeb31206e1fba184912ed68c22bd3a83c90d111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:41 +0000
Subject: [PATCH 10/53] fix: classify points against degenerate triangles
 without dividing by zero

---
 src/kernel/predicates.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/predicates.rs b/src/kernel/predicates.rs
index 73ab4bc..f108171 100755
--- a/src/kernel/predicates.rs
+++ b/src/kernel/predicates.rs
@@ -304,7 +304,7 @@ where
     let denom = &dot00 * &dot11 - &dot01 * &dot01;
 
     // Degenerate triangle (zero/near-zero area)
-    if denom.abs() < T::tolerance() {
+    if denom.abs() <= T::tolerance() {
         return TrianglePoint::Off;
     }
 
-- 
2.43.0


From 3e9e8ebc4b6e6da0a1dd314de1a913eaeb8f95dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:39 +0000
Subject: [PATCH 11/53] fix: cull box tree queries with enclosing bounds

The tree stepped one ulp past the approximation of each box coordinate.
A lazy number may be further than that from its approximation, so boxes
that touch could be culled and missing from query results.
---
 src/geometry/aabb_tree.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/geometry/aabb_tree.rs b/src/geometry/aabb_tree.rs
index 8d0f4a5..89e59f0 100644
--- a/src/geometry/aabb_tree.rs
+++ b/src/geometry/aabb_tree.rs
@@ -587,9 +587,16 @@ fn approx_from_exact<T: Scalar, const N: usize, P: SpatialElement<T, N>>(
     let mut mn = [0.0; N];
     let mut mx = [0.0; N];
     for i in 0..N {
-        // outward-safe: step one ULP past the rounded extremes
-        let lo = as_f64(&a.min[i]);
-        let hi = as_f64(&a.max[i]);
+        // outward-safe: step one ULP past the extremes; a lazy value may be
+        // further from its approximation than that, so use its enclosure
+        let lo = match a.min[i].double_interval() {
+            Some((lo, _)) if !lo.is_nan() => lo,
+            _ => as_f64(&a.min[i]),
+        };
+        let hi = match a.max[i].double_interval() {
+            Some((_, hi)) if !hi.is_nan() => hi,
+            _ => as_f64(&a.max[i]),
+        };
         mn[i] = f64_next_down(lo);
         mx[i] = f64_next_up(hi);
     }
-- 
2.43.0


From 4cd045142799d123d18e125b45a133dda30ce892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:39 +0000
Subject: [PATCH 12/53] fix: count an invalidated leaf as invalid when
 inserting next to it

The new node counted both leaves as valid, so needs_rebuild stayed false
for trees with no valid entry left.
---
 src/geometry/aabb_tree.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geometry/aabb_tree.rs b/src/geometry/aabb_tree.rs
index 89e59f0..89e1f25 100644
--- a/src/geometry/aabb_tree.rs
+++ b/src/geometry/aabb_tree.rs
@@ -268,6 +268,8 @@ where
 
                 let node_aabb = left_child.aabb().union(right_child.aabb()); // exact once here
                 let total_items = left_child.size() + right_child.size();
+                // the existing leaf may already be invalidated
+                let valid_items = if *valid { 2 } else { 1 };
                 let (lmn, lmx) = left_child.approx_bounds();
                 let (rmn, rmx) = right_child.approx_bounds();
                 let (amin_u, amax_u) = approx_union(&lmn, &lmx, &rmn, &rmx);
@@ -276,7 +278,7 @@ where
                     aabb: node_aabb,
                     left: left_child,
                     right: right_child,
-                    valid_count: total_items,
+                    valid_count: valid_items,
                     total_count: total_items,
                     amin: amin_u,
                     amax: amax_u,
-- 
2.43.0


From d91fe1aabe696066a582880de923c2261c07c856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:49 +0000
Subject: [PATCH 13/53] fix: keep triangle intersections on the common plane

Points found in a 2D projection were lifted back by copying the dropped
coordinate of one corner. That is only right for planes parallel to an
axis, so shared edges and coplanar overlaps in slanted planes were
reported in the wrong place.
---
 src/geometry/tri_tri_intersect.rs | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/geometry/tri_tri_intersect.rs b/src/geometry/tri_tri_intersect.rs
index 4456f51..dbaf796 100644
--- a/src/geometry/tri_tri_intersect.rs
+++ b/src/geometry/tri_tri_intersect.rs
@@ -177,16 +177,24 @@ where
     let t1 = [to2d(&p[2]), to2d(&p[0]), to2d(&p[1])];
     let t2 = [to2d(&q[2]), to2d(&q[0]), to2d(&q[1])];
 
+    // lift a 2D point back onto the common plane
+    let to3d = |point: &Point2<T>| {
+        let mut r = back_project_to_3d(point, i0, i1, drop, p[2]);
+        let slope = &(&n[i0] * &(&r[i0] - &p[2][i0])) + &(&n[i1] * &(&r[i1] - &p[2][i1]));
+        r[drop] = &r[drop] - &(&slope / &n[drop]);
+        r
+    };
+
     // 3) collect vertices of one triangle inside the other
     let mut pts: Vec<Point<T, N>> = Vec::new();
     for point in &t1 {
         if point_in_tri_2d(point, &t2) {
-            pts.push(back_project_to_3d(point, i0, i1, drop, p[2]));
+            pts.push(to3d(point));
         }
     }
     for point in &t2 {
         if point_in_tri_2d(point, &t1) {
-            pts.push(back_project_to_3d(point, i0, i1, drop, q[2]));
+            pts.push(to3d(point));
         }
     }
 
@@ -196,8 +204,7 @@ where
     for (a, b) in &edges1 {
         for (c, d) in &edges2 {
             if let Some(s) = segment_intersect_2d(a, b, c, d) {
-                // Here we use p0 as the reference for the dropped axis, but you could interpolate if desired
-                pts.push(back_project_to_3d(&s.a, i0, i1, drop, &p[2]));
+                pts.push(to3d(&s.a));
             }
         }
     }
@@ -230,9 +237,7 @@ where
             for w in 0..hull_idx.len() {
                 let i = hull_idx[w];
                 let j = hull_idx[(w + 1) % hull_idx.len()];
-                let a3 = back_project_to_3d(&pts2d[i], i0, i1, drop, p[2]);
-                let b3 = back_project_to_3d(&pts2d[j], i0, i1, drop, p[2]);
-                segs.push(Segment::new(&a3, &b3));
+                segs.push(Segment::new(&uniq[i], &uniq[j]));
             }
             TriTriIntersectionResult::CoplanarPolygon(segs)
         }
@@ -661,7 +666,7 @@ where
         + Add<&'a T, Output = T>
         + Div<&'a T, Output = T>,
 {
-    let (i0, i1, drop) = coplanar_axes(n);
+    let (i0, i1, _drop) = coplanar_axes(n);
     let a = project_to_2d(a3, i0, i1);
     let b = project_to_2d(b3, i0, i1);
     let t = [
@@ -749,12 +754,9 @@ where
         return None;
     }
 
-    let lerp3 = |t: &T| {
-        let ox = &dx * t;
-        let oy = &dy * t;
-        let p2 = Point2::<T>::from_vals([&a[0] + &ox, &a[1] + &oy]);
-        back_project_to_3d::<T, N>(&p2, i0, i1, drop, a3) // drop axis from a3
-    };
+    // interpolate in 3D so that the points stay on the segment in slanted planes
+    let dir3 = (b3 - a3).as_vector();
+    let lerp3 = |t: &T| a3.add_vector(&dir3.scale(t));
     let pa = lerp3(&t0);
     let pb = lerp3(&t1);
     if (&pb - &pa)
-- 
2.43.0


From d46d1ba9cf8042c23742bfad08707ef97b36c3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:44 +0000
Subject: [PATCH 14/53] fix: rotate around the vertex when rebuilding border
 loops and refuse triangles with repeated vertices

---
 src/mesh/core.rs     |  2 +-
 src/mesh/triangle.rs | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index 85eebc1..25a29ec 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -142,7 +142,7 @@ impl_mesh! {
                 }
 
                 // Keep rotating around the same vertex via the interior side of `cand`
-                t = self.half_edges[cand].twin;
+                t = cand;
                 if t >= m || self.half_edges[t].removed || !self.face_ok(t) {
                     // If we lose a valid interior, bail to self-loop
                     break b;
diff --git a/src/mesh/triangle.rs b/src/mesh/triangle.rs
index d41fd44..e39812b 100644
--- a/src/mesh/triangle.rs
+++ b/src/mesh/triangle.rs
@@ -670,6 +670,11 @@ impl_mesh! {
             }
         }
 
+        // A triangle needs three different vertices.
+        if v0 == v1 || v1 == v2 || v2 == v0 {
+            return usize::MAX;
+        }
+
         // ---------- choose feasible orientation (auto-flip if needed) ----------
         let ccw_ok = dir_is_free::<T, N>(self, v0, v1)
             && dir_is_free::<T, N>(self, v1, v2)
@@ -831,6 +836,11 @@ impl_mesh! {
         new_borders: &mut Vec<usize>,
         affected_vertices: &mut Vec<usize>
     ) -> usize {
+        // A triangle needs three different vertices.
+        if v0 == v1 || v1 == v2 || v2 == v0 {
+            return usize::MAX;
+        }
+
         let ccw_ok = self.dir_is_free(v0, v1) && self.dir_is_free(v1, v2) && self.dir_is_free(v2, v0);
         let cw_ok = self.dir_is_free(v0, v2) && self.dir_is_free(v2, v1) && self.dir_is_free(v1, v0);
 
-- 
2.43.0


From 120855d5c7cc0f4cbb4a3195d6457824543cffdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:19:41 +0000
Subject: [PATCH 15/53] fix: keep border loops intact when splitting a border
 edge

---
 src/mesh/core.rs | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index 25a29ec..f5df92d 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -736,7 +736,12 @@ impl_mesh! {
         update_tree: bool,
     ) -> Result<SplitResult, &'static str>
     {
-        let he_ca = he;
+        // A border half-edge has no triangle of its own: work from its twin
+        let he_ca = if self.half_edges[he].face.is_some() {
+            he
+        } else {
+            self.half_edges[he].twin
+        };
         let he_ab = self.half_edges[he_ca].next;
         let he_bc = self.half_edges[he_ab].next;
         let he_ac = self.half_edges[he_ca].twin;
@@ -857,15 +862,15 @@ impl_mesh! {
                 self.half_edges[ex_he_cb].twin = he_bc;
             }
 
-            // Create two new null faces for border half-edges bhe_wc (w->c) and bhe_aw (a->w)
-            self.half_edges[bhe_wc].face = None;
-            // self-loop
-            self.half_edges[bhe_wc].next = bhe_wc;
-            self.half_edges[bhe_wc].prev = bhe_wc;
-
-            self.half_edges[bhe_aw].face = None;
-            self.half_edges[bhe_aw].next = bhe_aw;
-            self.half_edges[bhe_aw].prev = bhe_aw;
+            // The border half-edges a->w and w->c take the place of a->c in its border loop
+            let border_prev = self.half_edges[he_ac].prev;
+            let border_next = self.half_edges[he_ac].next;
+            self.half_edges[border_prev].next = bhe_aw;
+            self.half_edges[bhe_aw].prev = border_prev;
+            self.half_edges[bhe_aw].next = bhe_wc;
+            self.half_edges[bhe_wc].prev = bhe_aw;
+            self.half_edges[bhe_wc].next = border_next;
+            self.half_edges[border_next].prev = bhe_wc;
 
             // Edge map updates
             self.edge_map.insert((c, w), he_cw);
@@ -876,10 +881,10 @@ impl_mesh! {
             self.edge_map.insert((a, w), bhe_aw);
 
             // Update representative half-edges at vertices
-            self.vertices[w].half_edge.get_or_insert(he_wb);
-            self.vertices[a].half_edge.get_or_insert(he_ab);
-            self.vertices[b].half_edge.get_or_insert(he_bc);
-            self.vertices[c].half_edge.get_or_insert(he_cw);
+            self.vertices[w].half_edge = Some(he_wb);
+            self.vertices[a].half_edge = Some(he_ab);
+            self.vertices[b].half_edge = Some(he_bc);
+            self.vertices[c].half_edge = Some(he_cw);
 
             if update_tree {
                 // AABB tree updates (invalidate old real face; null face not in tree originally)
-- 
2.43.0


From 8dfdcc79125b8b28f1cac86522cfe9ffde0541ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:19:41 +0000
Subject: [PATCH 16/53] fix: face boxes enclose faces with coordinates that
 have no exact double

---
 src/mesh/core.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index f5df92d..f5af2c1 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -446,6 +446,9 @@ impl_mesh! {
         let mut face_aabbs = Vec::with_capacity(self.faces.len());
 
         for (face_idx, face) in self.faces.iter().enumerate() {
+            if face.removed {
+                continue;
+            }
             let he0 = face.half_edge;
 
             let he1 = self.half_edges[he0].next;
@@ -1419,6 +1422,15 @@ where
         coords[2][i] = p2[i].as_f64_fast()?;
     }
 
+    // A rounded coordinate would give a box that does not enclose the triangle
+    for i in 0..N {
+        for (c, p) in coords.iter().zip([p0, p1, p2]) {
+            if T::from(c[i]) != p[i] {
+                return None;
+            }
+        }
+    }
+
     // Vectorized min/max computation
     let min_coords =
         std::array::from_fn(|i| T::from(coords[0][i].min(coords[1][i]).min(coords[2][i])));
-- 
2.43.0


From 585bbc21daa43470ee6b362816b33b63a3de88ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:19:41 +0000
Subject: [PATCH 17/53] fix: locate faces from a removed start face in the
 plane

---
 src/mesh/topology.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index 7854153..3269014 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -1333,7 +1333,10 @@ impl_mesh! {
                 return true;
             }
 
-            // collinear A,B,C => degenerate (3D-safe; for 2D z=0 it still works)
+            // collinear A,B,C => degenerate
+            if M == 2 {
+                return (&(&ab[0] * &ac[1]) - &(&ab[1] * &ac[0])).is_zero();
+            }
             let ab3 = ab.0.as_vector_3();
             let ac3 = ac.0.as_vector_3();
             let n = ab3.cross(&ac3);               // compute once
-- 
2.43.0


From 210f54f1b872d8f2280d9d18259bc9d5db454534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:19:41 +0000
Subject: [PATCH 18/53] fix: refuse edge flips to zero-area triangles with
 signed zeros

---
 src/mesh/core.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index f5af2c1..adb0fbb 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -670,9 +670,8 @@ impl_mesh! {
             let n2y = &cb2 * &db0 - &cb0 * &db2;
             let n2z = &cb0 * &db1 - &cb1 * &db0;
 
-            let zero = n1x.clone() - n1x.clone(); // cheap zero
-            let tri1_degenerate = n1x == zero && n1y == zero && n1z == zero;
-            let tri2_degenerate = n2x == zero && n2y == zero && n2z == zero;
+            let tri1_degenerate = n1x.is_zero() && n1y.is_zero() && n1z.is_zero();
+            let tri2_degenerate = n2x.is_zero() && n2y.is_zero() && n2z.is_zero();
             if tri1_degenerate || tri2_degenerate {
                 return Err("flip_edge: degenerate area");
             }
-- 
2.43.0


From 5b4dccb3bdc1304b7373640ab5589c9fb7f9fbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:19:41 +0000
Subject: [PATCH 19/53] fix: edge collapse on borders, its area and normal
 options, and the vertex lookup after it

---
 src/mesh/core.rs          |  21 +++++++-
 src/mesh/edge_collapse.rs | 102 +++++++++++++++++++-------------------
 2 files changed, 69 insertions(+), 54 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index adb0fbb..9dd5840 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -523,7 +523,9 @@ impl_mesh! {
         // center cell first
         if let Some(bucket) = self.vertex_spatial_hash.get(&center_key) {
             for &vi in bucket {
-                if kernel::are_approximately_equal(&self.vertices[vi].position, pos) {
+                if !self.vertices[vi].removed
+                    && kernel::are_approximately_equal(&self.vertices[vi].position, pos)
+                {
                     return (vi, true);
                 }
             }
@@ -560,7 +562,9 @@ impl_mesh! {
             let key = Self::pack_key3(kx + dx, ky + dy, kz + dz);
             if let Some(bucket) = self.vertex_spatial_hash.get(&key) {
                 for &vi in bucket {
-                    if kernel::are_equal(&self.vertices[vi].position, pos) {
+                    if !self.vertices[vi].removed
+                        && kernel::are_equal(&self.vertices[vi].position, pos)
+                    {
                         return (vi, true);
                     }
                 }
@@ -574,6 +578,19 @@ impl_mesh! {
         (idx, false)
     }
 
+    /// Move vertex `v` to `position`, keeping the spatial hash in step.
+    pub(crate) fn move_vertex(&mut self, v: usize, position: Point<T, N>) {
+        let old_key = self.position_to_packed_key(&self.vertices[v].position);
+        let new_key = self.position_to_packed_key(&position);
+        if old_key != new_key {
+            if let Some(bucket) = self.vertex_spatial_hash.get_mut(&old_key) {
+                bucket.retain(|vi| *vi != v);
+            }
+            self.vertex_spatial_hash.entry(new_key).or_default().push(v);
+        }
+        self.vertices[v].position = position;
+    }
+
     pub fn add_vertex(&mut self, position: Point<T, N>) -> usize {
         let idx = self.vertices.len();
         self.vertices.push(Vertex::new(position));
diff --git a/src/mesh/edge_collapse.rs b/src/mesh/edge_collapse.rs
index 34a7c9d..5910341 100644
--- a/src/mesh/edge_collapse.rs
+++ b/src/mesh/edge_collapse.rs
@@ -235,16 +235,24 @@ impl_mesh! {
             return Err(CollapseReject::TwoGon);
         }
 
+        // Merging two border vertices across an interior edge pinches what is left of the surface
+        let survivors = self.surviving_faces_after_collapse(v0, v1);
+        if opp_count == 2 && pr.ring0.is_border && pr.ring1.is_border && !survivors.is_empty() {
+            return Err(CollapseReject::LinkCondition);
+        }
+
         // Geometry at placement p*
         let p_star = placement.place(self, v0, v1);
 
-        let survivors = self.surviving_faces_after_collapse(v0, v1);
         for &f in &survivors {
-            let a2x4 = self.tri_area2_after_move_face(f, v0, v1, &p_star);
-            let eps = T::tolerance();
-            if a2x4 <= &(&eps * &eps) * &(&eps * &eps) {
+            let (n_old, n_new) = self.tri_normals_around_move(f, v0, v1, &p_star);
+            // |n|^2 is (2*area)^2
+            if n_new.dot(&n_new) <= &T::from(4) * &opts.area_eps2 {
                 return Err(CollapseReject::DegenerateFace);
             }
+            if opts.forbid_normal_flip && n_old.dot(&n_new).is_negative() {
+                return Err(CollapseReject::NormalFlip);
+            }
         }
 
         Ok(p_star)
@@ -264,13 +272,14 @@ impl_mesh! {
         out
     }
 
-    fn tri_area2_after_move_face(
+    /// Normals (of length 2*area) of face `f` before and after moving both vertices to `p_star`.
+    fn tri_normals_around_move(
         &self,
         f: usize,
         v_keep: usize,
         v_gone: usize,
         p_star: &Point<T, N>,
-    ) -> T
+    ) -> (Vector<T, N>, Vector<T, N>)
     where
         Vector<T, N>: VectorOps<T, N> + Cross3<T>,
     {
@@ -279,14 +288,18 @@ impl_mesh! {
         let pos = |idx: usize| -> &Point<T, N> {
             if idx == v_keep || idx == v_gone { p_star } else { &self.vertices[idx].position }
         };
-        let pa = pos(i);
-        let pb = pos(j);
-        let pc = pos(k);
-
-        let ab = (pb - pa).as_vector();
-        let ac = (pc - pa).as_vector();
-        let n = ab.cross(&ac);
-        n.dot(&n) // (2*area)^2
+        let normal = |pa: &Point<T, N>, pb: &Point<T, N>, pc: &Point<T, N>| {
+            let ab = (pb - pa).as_vector();
+            let ac = (pc - pa).as_vector();
+            ab.cross(&ac)
+        };
+
+        let n_old = normal(
+            &self.vertices[i].position,
+            &self.vertices[j].position,
+            &self.vertices[k].position,
+        );
+        (n_old, normal(pos(i), pos(j), pos(k)))
     }
 
     /// Begin collapse from a half-edge handle `he_ab`.
@@ -427,8 +440,10 @@ impl_mesh! {
         let splice_r_from = if right_exists { self.half_edges[he_bv].prev } else { usize::MAX };
         let splice_r_to   = if right_exists { self.half_edges[he_ub].next } else { usize::MAX };
 
-        // Half-edges to remove (the two faces' 6 interior half-edges)
-        let remove_set = [he_uv, he_vu, he_va, he_au, he_ub, he_bv];
+        // Half-edges to remove: the edge itself and the other two of each of its faces
+        let mut remove_set: SmallVec<[usize; 6]> = SmallVec::from_slice(&[he_uv, he_vu]);
+        if left_exists  { remove_set.extend_from_slice(&[he_va, he_au]); }
+        if right_exists { remove_set.extend_from_slice(&[he_ub, he_bv]); }
 
         // ---------- 2b. Collect all half-edges incident to u or v (for retargeting) ----------
         let affected_u = self.collect_incident_half_edges(u);
@@ -466,11 +481,21 @@ impl_mesh! {
             self.half_edges[splice_r_to].prev = splice_r_from;
         }
 
+        // On a border the loop closes over the removed edge
+        if !left_exists {
+            self.half_edges[he_au].next = he_va;
+            self.half_edges[he_va].prev = he_au;
+        }
+        if !right_exists {
+            self.half_edges[he_bv].next = he_ub;
+            self.half_edges[he_ub].prev = he_bv;
+        }
+
         // ---------- 7. Mark faces removed ----------
         if left_exists  { self.faces[f_left.unwrap()].removed = true; }
         if right_exists { self.faces[f_right.unwrap()].removed = true; }
 
-        // ---------- 8. Detach & remove the 6 interior half-edges ----------
+        // ---------- 8. Detach & remove these half-edges ----------
         for &h in &remove_set {
             let twin = self.half_edges[h].twin;
             if twin != usize::MAX && !self.half_edges[twin].removed {
@@ -485,7 +510,7 @@ impl_mesh! {
         }
 
         // ---------- 9. Retire v, move position into u ----------
-        self.vertices[u].position = plan.p_star;
+        self.move_vertex(u, plan.p_star);
         self.vertices[v].removed = true;
         self.vertices[v].half_edge = None;
 
@@ -521,6 +546,12 @@ impl_mesh! {
 
             match (h_ab, h_ba) {
                 (Some(h_ab), Some(h_ba)) => {
+                    // With no face on either side the edge is gone too
+                    if self.half_edges[h_ab].face.is_none() && self.half_edges[h_ba].face.is_none() {
+                        self.half_edges[h_ab].removed = true;
+                        self.half_edges[h_ba].removed = true;
+                        continue;
+                    }
                     self.half_edges[h_ab].twin = h_ba;
                     self.half_edges[h_ba].twin = h_ab;
                     self.edge_map_insert_bidir(*a, *b, h_ab);
@@ -547,39 +578,6 @@ impl_mesh! {
             }
         }
 
-        // Assign twins & rebuild edge_map - only use first half-edge of each direction
-        for ((a,b), pd) in buckets {
-            let h_ab = pd.d0.first().copied();
-            let h_ba = pd.d1.first().copied();
-
-            match (h_ab, h_ba) {
-                (Some(h_ab), Some(h_ba)) => {
-                    self.half_edges[h_ab].twin = h_ba;
-                    self.half_edges[h_ba].twin = h_ab;
-                    self.edge_map_insert_bidir(a, b, h_ab);
-                }
-                (Some(h_ab), None) => {
-                    // Border (only a->b)
-                    let src = self.he_from(h_ab); let dst = self.half_edges[h_ab].vertex;
-                    self.edge_map.insert((src,dst), h_ab);
-                }
-                (None, Some(h_ba)) => {
-                    // Border (only b->a)
-                    let src = self.he_from(h_ba); let dst = self.half_edges[h_ba].vertex;
-                    self.edge_map.insert((src,dst), h_ba);
-                }
-                _ => {}
-            }
-
-            // Remove any extra half-edges
-            for &h in pd.d0.iter().skip(1) {
-                self.half_edges[h].removed = true;
-            }
-            for &h in pd.d1.iter().skip(1) {
-                self.half_edges[h].removed = true;
-            }
-        }
-
         let mut fixed_vertices = AHashSet::new();
         for &hid in &all_affected {
             let he = &self.half_edges[hid];
@@ -636,7 +634,7 @@ impl_mesh! {
     }
 
     #[inline(always)]
-    fn in_remove_set(&self, h: usize, set: &[usize;6]) -> bool {
+    fn in_remove_set(&self, h: usize, set: &[usize]) -> bool {
         for &x in set { if x == h { return true; } }
         false
     }
-- 
2.43.0


From f2551c2e614267378da56223c685dc5ce6b03756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:00 +0000
Subject: [PATCH 20/53] fix: refuse to split an edge whose two triangles share
 their third vertex

---
 src/mesh/core.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index 9dd5840..d873487 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -769,6 +769,13 @@ impl_mesh! {
         let b = self.half_edges[he_ab].vertex;
         let c = self.half_edges[he_bc].vertex;
 
+        // Both triangles have the same third vertex: the halves would share a directed edge
+        if self.half_edges[he_ac].face.is_some()
+            && self.half_edges[self.half_edges[he_ac].next].vertex == b
+        {
+            return Err("cannot split an edge whose triangles have the same corners");
+        }
+
         let (w, reuse) = self.get_or_insert_vertex(pos);
         if reuse {
             return Ok(SplitResult {
-- 
2.43.0


From 4862d258e842409c8ccb447f57f4fb788ece2e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:00 +0000
Subject: [PATCH 21/53] fix: list border vertices in meshes with unconnected
 vertices

---
 src/mesh/topology.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index 3269014..d427e2d 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -434,7 +434,7 @@ impl_mesh! {
     // /// Returns all vertex indices that lie on at least one boundary loop.
     pub fn boundary_vertices(&self) -> Vec<usize> {
         (0..self.vertices.len())
-            .filter(|&v| self.is_boundary_vertex(v))
+            .filter(|&v| self.vertices[v].half_edge.is_some() && self.is_boundary_vertex(v))
             .collect()
     }
 
-- 
2.43.0


From 1e67daeabb23c3ed86ae3f9c8c4cb167720565a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:00 +0000
Subject: [PATCH 22/53] fix: walk the edges of the face, not of its neighbours,
 when listing faces around a face

---
 src/mesh/topology.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index d427e2d..a02ac8f 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -790,7 +790,7 @@ impl_mesh! {
         let mut i = 0;
         loop {
             let current_he = &self.half_edges[current_he_idx];
-            if let Some(face_idx) = current_he.face
+            if let Some(face_idx) = self.half_edges[current_he.twin].face
                 && !self.faces[face_idx].removed
             {
                 result[i] = face_idx; // valid half_edges should always point to valid faces
@@ -800,8 +800,7 @@ impl_mesh! {
                 }
             }
 
-            let twin_idx = current_he.twin;
-            let next_idx = self.half_edges[twin_idx].next;
+            let next_idx = current_he.next;
 
             if next_idx == starting_he_idx {
                 break;
-- 
2.43.0


From 1d59d5d1a3b1b15d50736e9a97d3ae730b0dcf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:00 +0000
Subject: [PATCH 23/53] fix: removed faces have no half-edges and no neighbours

---
 src/mesh/topology.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index a02ac8f..c1432b4 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -1798,7 +1798,10 @@ impl_mesh! {
         }
 
         let face = &self.faces[face_idx];
-        if face.half_edge == usize::MAX || self.half_edges[face.half_edge].removed {
+        if face.removed
+            || face.half_edge == usize::MAX
+            || self.half_edges[face.half_edge].removed
+        {
             return None;
         }
 
-- 
2.43.0


From 6848329a85b1a5d0860c466dbf13a12e6de902b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:00 +0000
Subject: [PATCH 24/53] fix: do not merge live vertices into removed ones

---
 src/mesh/core.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index d873487..0943b01 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -264,6 +264,9 @@ impl_mesh! {
         let mut spatial_groups: AHashMap<u128, Bucket> = AHashMap::new();
 
         for (vertex_idx, vertex) in self.vertices.iter().enumerate() {
+            if vertex.removed {
+                continue; // A live vertex must not be merged into a removed one
+            }
             let hash_key = self.position_to_packed_key(&vertex.position);
             spatial_groups.entry(hash_key).or_default().push(vertex_idx);
         }
-- 
2.43.0


From 1dae53d47a6ba7c222e6bd9453797e7fc292f376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:00 +0000
Subject: [PATCH 25/53] fix: record both halves of a split half-edge

---
 src/mesh/core.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index 0943b01..9d7d0b4 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -909,6 +909,9 @@ impl_mesh! {
             self.edge_map.insert((w, c), bhe_wc);
             self.edge_map.insert((a, w), bhe_aw);
 
+            self.half_edge_split_map.insert(he_ca, (he_cw, he_wa));
+            self.half_edge_split_map.insert(he_ac, (bhe_aw, bhe_wc));
+
             // Update representative half-edges at vertices
             self.vertices[w].half_edge = Some(he_wb);
             self.vertices[a].half_edge = Some(he_ab);
@@ -1031,6 +1034,11 @@ impl_mesh! {
         // Mark old half-edges as removed
         self.half_edges[he_ca].removed = true;
         self.half_edges[he_ac].removed = true;
+        // c -> w -> a and a -> w -> c
+        self.half_edge_split_map
+            .insert(he_ca, (base_half_edge_idx + 1, base_half_edge_idx + 2));
+        self.half_edge_split_map
+            .insert(he_ac, (base_half_edge_idx + 7, base_half_edge_idx + 4));
 
         self.half_edges[he_bc].face = Some(base_face_idx);
         self.half_edges[he_ab].face = Some(base_face_idx + 1);
-- 
2.43.0


From 18ad87fa96bd2557b4322941105efea8dcda3ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:00:52 +0000
Subject: [PATCH 26/53] fix: decide whether a point is inside a solid by the
 parity of its ray crossings

An axis ray counted as inside when it met any face at all, so a point beside
a wall of a non-convex solid was reported inside. Ray boxes of exact scalars
were also rounded to doubles, so that rays missed faces. Rays through an edge
or a vertex no longer vote; skew rays are used when every axis ray does so.
---
 src/mesh/topology.rs | 90 +++++++++++++++++++++++++++-----------------
 1 file changed, 55 insertions(+), 35 deletions(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index c1432b4..69f3823 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -565,29 +565,39 @@ impl_mesh! {
             Vector::<T, N>::from_vals(from_fn(|i| [T::zero(), T::zero(), T::from(-1.0)][i].clone())),
         ];
 
-        let total_rays = rays.len();
+        let mut usable_rays = 0usize;
         let mut inside_count = 0usize;
         let mut on_surface = false;
 
-        for r in rays {
-            match self.cast_ray_3(p, &r, tree, &None) {
-                IntersectionResult::Hit(_hit, t) => {
-                    if t.is_zero() {
-                        on_surface = true; // optionally: return PointInMeshResult::OnSurface immediately
-                    } else {
-                        // odd parity for this direction
-                        inside_count += 1;
-                    }
-                }
-                IntersectionResult::Miss => {
-                    // even parity for this direction (0), do nothing
+        let mut vote = |r: &Vector<T, N>| {
+            let hits = self.ray_hits_3(p, r, tree, &None);
+            if hits.iter().any(|(_, t)| t.is_zero()) {
+                on_surface = true;
+                return true;
+            }
+            // parity only means something if every crossing is strictly inside a face
+            if hits.iter().all(|(hit, _)| matches!(hit, IntersectionHit::Face(..))) {
+                usable_rays += 1;
+                inside_count += hits.len() % 2;
+                return true;
+            }
+            false
+        };
+
+        let decided = rays.iter().filter(|r| vote(r)).count();
+        if decided == 0 {
+            // all the axis rays graze an edge or a vertex: try skew directions
+            for [x, y, z] in [[0.78125, 0.34375, 0.515625], [-0.40625, 0.828125, 0.265625], [0.296875, -0.453125, 0.859375], [-0.671875, -0.234375, -0.703125]] {
+                let r = Vector::<T, N>::from_vals(from_fn(|i| T::from([x, y, z][i])));
+                if vote(&r) {
+                    break;
                 }
             }
         }
 
         if on_surface {
             PointInMeshResult::OnSurface
-        } else if inside_count > total_rays / 2 {
+        } else if inside_count > usable_rays / 2 {
             PointInMeshResult::Inside
         } else {
             PointInMeshResult::Outside
@@ -639,18 +649,37 @@ impl_mesh! {
             + Mul<&'a T, Output = T>
             + Div<&'a T, Output = T>,
     {
-        let mut best_t: Option<T> = None;
-        let mut best_result = IntersectionResult::Miss;
+        let mut best: Option<(IntersectionHit<T>, T)> = None;
+        for (hit, t) in self.ray_hits_3(p, dir, tree, tolerance) {
+            if best.as_ref().map_or(true, |(_, bt)| t < *bt) {
+                best = Some((hit, t));
+            }
+        }
+
+        match best {
+            Some((hit, t)) => IntersectionResult::Hit(hit, t),
+            None => IntersectionResult::Miss,
+        }
+    }
+
+    /// Every face the ray meets, with what it meets there and how far along.
+    fn ray_hits_3(
+        &self,
+        p: &Point<T, N>,
+        dir: &Vector<T, N>,
+        tree: &AabbTree<T, N, Point<T, N>, usize>,
+        tolerance: &Option<T>,
+    ) -> Vec<(IntersectionHit<T>, T)>
+    where
+        Vector<T, N>: VectorOps<T, N>,
+    {
+        let mut hits = Vec::new();
 
         let far_multiplier = T::from(10e6); // 10 km in mm units
         let far_point = Point::<T, N>::from_vals(std::array::from_fn(|i| {
-            let tmp = &p[i] + &(&dir[i] * &far_multiplier);
-            tmp.into()
+            &p[i] + &(&dir[i] * &far_multiplier)
         }));
-        let p_f = Point::<T, N>::from_vals(std::array::from_fn(|i| {
-            p[i].clone().into()
-        }));
-        let ray_aabb = Aabb::<T, N, Point<T, N>>::from_points(&p_f, &far_point);
+        let ray_aabb = Aabb::<T, N, Point<T, N>>::from_points(p, &far_point);
 
         let mut candidate_faces = Vec::new();
         tree.query_valid(&ray_aabb, &mut candidate_faces);
@@ -687,10 +716,7 @@ impl_mesh! {
                         let v_id = if z1 && z2 { vs_idxs[0] }
                                    else if z2 && z0 { vs_idxs[1] }
                                    else { vs_idxs[2] };
-                        if best_t.is_none() || t < best_t.clone().unwrap() {
-                            best_t = Some(t.clone());
-                            best_result = IntersectionResult::Hit(IntersectionHit::Vertex(v_id), t.clone());
-                        }
+                        hits.push((IntersectionHit::Vertex(v_id), t));
                         continue;
                     }
 
@@ -712,24 +738,18 @@ impl_mesh! {
                             let src = self.half_edges[self.half_edges[he].prev].vertex;
                             let dst = self.half_edges[he].vertex;
 
-                            if best_t.is_none() || t < best_t.clone().unwrap() {
-                                best_t = Some(t.clone());
-                                best_result = IntersectionResult::Hit(IntersectionHit::Edge(src, dst, u_edge), t.clone());
-                            }
+                            hits.push((IntersectionHit::Edge(src, dst, u_edge), t));
                             continue;
                         }
                     }
 
                     // Face hit
-                    if best_t.is_none() || t < best_t.clone().unwrap() {
-                        best_t = Some(t.clone());
-                        best_result = IntersectionResult::Hit(IntersectionHit::Face(*fi, (l0, l1, l2)), t);
-                    }
+                    hits.push((IntersectionHit::Face(*fi, (l0, l1, l2)), t));
                 }
             }
         }
 
-        best_result
+        hits
     }
 
     pub fn cast_ray_2(
-- 
2.43.0


From 1df25a232536a3eeeeaa9f25b158323437e0f2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:00:52 +0000
Subject: [PATCH 27/53] fix: cast planar rays against the edge that is being
 tested

The next half-edge was tested instead of the border half-edge itself, and a
ray through a shared end was counted twice or not at all.
---
 src/mesh/topology.rs | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index 69f3823..a277e15 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -763,8 +763,8 @@ impl_mesh! {
             + Mul<&'a T, Output = T>
             + Div<&'a T, Output = T>
     {
-        let v1 = self.half_edges[he].vertex;
-        let v2 = self.half_edges[self.half_edges[he].next].vertex;
+        let v1 = self.source(he);
+        let v2 = self.target(he);
 
         let p1 = &self.vertices[v1].position;
         let p2 = &self.vertices[v2].position;
@@ -772,26 +772,14 @@ impl_mesh! {
         // Ray casting from point horizontally to the right
         // Check if edge crosses the horizontal ray
 
-        // Both points above or below the ray
-        if ((&p1[1] - &point[1]).is_positive() && (&p2[1] - &point[1]).is_positive()) ||
-        ((&p1[1] - &point[1]).is_negative() && (&p2[1] - &point[1]).is_negative()) {
+        // Count an end exactly on the ray as below it, so that a crossing at a
+        // vertex is counted once and horizontal edges not at all
+        if (&p1[1] - &point[1]).is_positive() == (&p2[1] - &point[1]).is_positive() {
             return false;
         }
 
-        // Edge is horizontal and at same y-level as point
-        if (&p1[1] - &p2[1]).is_zero() && (&p1[1] - &point[1]).is_zero() {
-            // Check if point is between edge endpoints
-            let min_x = if (&p1[0] - &p2[0]).is_negative() { &p1[0] } else { &p2[0] };
-            let max_x = if (&p1[0] - &p2[0]).is_positive() { &p1[0] } else { &p2[0] };
-            return !(&point[0] - min_x).is_negative() && !(&point[0] - max_x).is_positive();
-        }
-
         // Calculate intersection x-coordinate
         let dy = &p2[1] - &p1[1];
-        if dy.is_zero() {
-            return false;
-        }
-
         let t = &(&point[1] - &p1[1]) / &dy;
         let x_intersect = &p1[0] + &(&t * &(&p2[0] - &p1[0]));
 
-- 
2.43.0


From b1de446ab2fdaaa2004c9254ad9480d5ecc4bcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:00:52 +0000
Subject: [PATCH 28/53] fix: sign of the edge parameter when tracing from a
 vertex across a face

---
 src/mesh/topology.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index a277e15..e2d01db 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -960,7 +960,7 @@ impl_mesh! {
 
         let inv_det = T::one() / det;
         let t = &rhs.cross(&edge_vec).dot(&face_normal) * &inv_det;
-        let u = &geodesic_dir.cross(&rhs).dot(&face_normal) * &inv_det;
+        let u = &rhs.cross(&geodesic_dir).dot(&face_normal) * &inv_det;
 
         // Validate solution
         if t <= tol || u < T::zero() || u > T::one() {
-- 
2.43.0


From 83b6cb6d47b7a025e5de7f6daf3b032bf4f65907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:00:53 +0000
Subject: [PATCH 29/53] fix: compute the approximate circumcircle relative to a
 corner

With a far away origin the in-circle filter lost all its digits.
---
 src/operations/triangulation/delaunay.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/operations/triangulation/delaunay.rs b/src/operations/triangulation/delaunay.rs
index 5421113..a4e5610 100644
--- a/src/operations/triangulation/delaunay.rs
+++ b/src/operations/triangulation/delaunay.rs
@@ -1569,21 +1569,19 @@ fn circumcircle_approx_fast<T: Scalar>(
         return None;
     }
 
-    let d = 2.0 * (ax * (by - cy) + bx * (cy - ay) + cx * (ay - by));
+    // relative to a, so that a far away origin does not swamp the differences
+    let (bx, by, cx, cy) = (bx - ax, by - ay, cx - ax, cy - ay);
+    let d = 2.0 * (bx * cy - by * cx);
     if d.abs() < 1e-15 {
         return None;
     }
 
-    let a2 = ax * ax + ay * ay;
     let b2 = bx * bx + by * by;
     let c2 = cx * cx + cy * cy;
 
-    let ux = (a2 * (by - cy) + b2 * (cy - ay) + c2 * (ay - by)) / d;
-    let uy = (a2 * (cx - bx) + b2 * (ax - cx) + c2 * (bx - ax)) / d;
+    let ux = (b2 * cy - c2 * by) / d;
+    let uy = (c2 * bx - b2 * cx) / d;
+    let r2 = ux * ux + uy * uy;
 
-    let dx = ax - ux;
-    let dy = ay - uy;
-    let r2 = dx * dx + dy * dy;
-
-    Some((ux, uy, r2))
+    Some((ax + ux, ay + uy, r2))
 }
-- 
2.43.0


From df7121110348965d9c83e72d3473778b4ba7fe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:03 +0000
Subject: [PATCH 30/53] fix: flood the enclosed triangles across their far
 sides

The flood asked for the triangle on the side it came from.
---
 src/operations/triangulation/delaunay.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operations/triangulation/delaunay.rs b/src/operations/triangulation/delaunay.rs
index a4e5610..4d2b9cb 100644
--- a/src/operations/triangulation/delaunay.rs
+++ b/src/operations/triangulation/delaunay.rs
@@ -1528,7 +1528,7 @@ where
         // accept it
         accepted.insert(ti);
 
-        // push its other two edges with **directed** wanted side = orient(i->j, k)
+        // push its other two edges, wanting the triangle beyond them: the side opposite orient(i->j, k)
         let t = dt_tris[ti];
         for (i, j, k) in [(t.0, t.1, t.2), (t.1, t.2, t.0), (t.2, t.0, t.1)] {
             // skip the edge we used to reach this tri
@@ -1545,7 +1545,7 @@ where
                 0
             };
             if side_dir != 0 {
-                q.push_back((i, j, side_dir));
+                q.push_back((i, j, -side_dir));
             }
         }
     }
-- 
2.43.0


From abbd2d7c3c07539606a9472c28f2e1f076083dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:03 +0000
Subject: [PATCH 31/53] fix: grow the triangulation from a hull at infinity
 instead of a big triangle

The big triangle was placed off centre and thin triangles at the hull were
lost to it. Batches returned short jobs ahead of the others; every result is
now at the place of its job.
---
 src/operations/triangulation/delaunay.rs | 181 +++++++++--------------
 1 file changed, 74 insertions(+), 107 deletions(-)

diff --git a/src/operations/triangulation/delaunay.rs b/src/operations/triangulation/delaunay.rs
index 4d2b9cb..0ad2775 100644
--- a/src/operations/triangulation/delaunay.rs
+++ b/src/operations/triangulation/delaunay.rs
@@ -27,7 +27,7 @@ use crate::geometry::Point2;
 use crate::geometry::point::Point;
 use crate::geometry::spatial_element::SpatialElement;
 use crate::geometry::util::EPS;
-use crate::kernel::predicates::{bbox_approx2d, incircle, orient2d};
+use crate::kernel::predicates::{incircle, orient2d};
 use crate::mesh::basic_types::{Edge, Mesh, Triangle};
 use crate::mesh_processing::batching::FaceJobUV;
 use crate::numeric::scalar::Scalar;
@@ -120,73 +120,13 @@ where
             return Vec::new();
         }
 
-        // Pre-allocate results
         let mut results = Vec::with_capacity(jobs.len());
-
-        // Batch super-triangle computation using single bbox pass
-        let mut super_triangles = Vec::with_capacity(jobs.len());
         for job in jobs {
-            if job.points_uv.len() < 3 {
-                results.push(Self {
-                    points: job.points_uv.clone(),
-                    triangles: Vec::new(),
-                });
-                super_triangles.push(None);
-                continue;
-            }
-
-            let (min, max) = bbox_approx2d(&job.points_uv);
-            let dx = &max[0] - &min[0];
-            let dy = &max[1] - &min[1];
-            let delta = dx.max(dy);
-            let cx = (&min[0] + &max[0]) * T::from_num_den(2, 1);
-            let cy = (&min[1] + &max[1]) * T::from_num_den(2, 1);
-            let r = &(&T::from_num_den(64, 1) * &delta) + &T::from_num_den(1, 1);
-
-            super_triangles.push(Some((cx, cy, r)));
-        }
-
-        // Process each job with pre-computed super-triangle
-        for (job_idx, job) in jobs.iter().enumerate() {
-            if job.points_uv.len() < 3 {
-                continue;
+            let mut dt = Self::build(&job.points_uv);
+            if !dt.triangles.is_empty() {
+                // Batch constraint processing
+                Self::process_constraints_batch(&mut dt, &job.segments);
             }
-
-            let Some((cx, cy, r)) = &super_triangles[job_idx] else {
-                continue;
-            };
-
-            let mut points = job.points_uv.clone();
-            let sqrt_3 = T::from(SQRT_3);
-            let s0 = points.len();
-            let s1 = s0 + 1;
-            let s2 = s0 + 2;
-
-            points.extend([
-                Point2::<T>::from_vals([
-                    T::from(cx.clone()),
-                    T::from(&(cy + &T::from_num_den(2, 1)) * &r),
-                ]),
-                Point2::<T>::from_vals([T::from(cx - &(&sqrt_3 * &r)), T::from(cy - &r)]),
-                Point2::<T>::from_vals([T::from(cx + &(&sqrt_3 * &r)), T::from(cy - &r)]),
-            ]);
-
-            let mut triangles = vec![Triangle(s0, s1, s2)];
-
-            // Bowyer-Watson insertion
-            for pid in 0..s0 {
-                Self::bowyer_watson_insert_point(pid, &points, &mut triangles);
-            }
-
-            // Remove super-triangles and finalize
-            triangles.retain(|t| t.0 < s0 && t.1 < s0 && t.2 < s0);
-            points.truncate(s0);
-
-            let mut dt = Self { points, triangles };
-
-            // Batch constraint processing
-            Self::process_constraints_batch(&mut dt, &job.segments);
-
             results.push(dt);
         }
 
@@ -236,62 +176,87 @@ where
 
     /// Build Delaunay triangulation of `pts`. Duplicates are ignored.
     pub fn build(pts: &[Point2<T>]) -> Self {
-        let mut points = pts.to_vec();
-        if points.len() < 3 {
-            return Self {
-                points,
-                triangles: Vec::new(),
-            };
-        }
+        let points = pts.to_vec();
+        let mut triangles = Vec::new();
+
+        // Start from the first three points that are not collinear
+        let start = (1..points.len()).find_map(|i| {
+            (i + 1..points.len())
+                .find(|&j| !orient2d(&points[0], &points[i], &points[j]).is_zero())
+                .map(|j| [0, i, j])
+        });
+        let Some([i0, i1, i2]) = start else {
+            return Self { points, triangles };
+        };
 
-        // Create super-triangle that contains all points
-        let (min, max) = bbox_approx2d(&points);
-        let dx = &max[0] - &min[0];
-        let dy = &max[1] - &min[1];
-        let delta = dx.max(dy);
-        let cx = &(&min[0] + &max[0]) * &T::from_num_den(1, 2);
-        let cy = &(&min[1] + &max[1]) * &T::from_num_den(1, 2);
-
-        let r = &(&T::from_num_den(64, 1) * &delta) + &T::from_num_den(1, 1);
-        let sqrt_3 = T::from(SQRT_3);
-        let p_super0 = Point2::<T>::from_vals([
-            T::from(cx.clone()),
-            T::from(&(&cy + &T::from_num_den(2, 1)) * &r),
-        ]);
-        let p_super1 = Point2::<T>::from_vals([T::from(&cx - &(&sqrt_3 * &r)), T::from(&cy - &r)]);
-        let p_super2 = Point2::<T>::from_vals([T::from(&cx + &(&sqrt_3 * &r)), T::from(&cy - &r)]);
-
-        let s0 = points.len();
-        let s1 = s0 + 1;
-        let s2 = s0 + 2;
-
-        points.push(p_super0);
-        points.push(p_super1);
-        points.push(p_super2);
-
-        // Initialize with super-triangle
-        let mut triangles = vec![Triangle(s0, s1, s2)];
+        // Outside every hull edge lies a triangle with the vertex at infinity (`ghost`)
+        let ghost = points.len();
+        triangles.push(
+            if orient2d(&points[i0], &points[i1], &points[i2]).is_positive() {
+                Triangle(i0, i1, i2)
+            } else {
+                Triangle(i0, i2, i1)
+            },
+        );
+        triangles.push(Triangle(i0, i1, ghost));
+        triangles.push(Triangle(i1, i2, ghost));
+        triangles.push(Triangle(i2, i0, ghost));
+        let third = T::from_num_den(1, 3);
+        let inner = Point2::<T>::from_vals(std::array::from_fn(|k| {
+            &(&(&points[i0][k] + &points[i1][k]) + &points[i2][k]) * &third
+        }));
 
         // Insert each point using Bowyer-Watson
-        for pid in 0..s0 {
-            Self::bowyer_watson_insert_point(pid, &points, &mut triangles);
+        for pid in 1..ghost {
+            if pid != i1 && pid != i2 {
+                Self::bowyer_watson_insert_point(pid, &points, &inner, &mut triangles);
+            }
         }
 
-        // Remove super-triangles
-        triangles.retain(|t| t.0 < s0 && t.1 < s0 && t.2 < s0);
-        points.truncate(s0);
+        // Remove the triangles at infinity
+        triangles.retain(|t| t.0 < ghost && t.1 < ghost && t.2 < ghost);
 
         Self { points, triangles }
     }
 
+    /// Is `p` beyond the hull edge of a triangle at infinity, or inside that edge?
+    fn beyond_hull_edge(
+        p: &Point2<T>,
+        u: usize,
+        v: usize,
+        points: &[Point2<T>],
+        inner: &Point2<T>,
+    ) -> bool {
+        let (pu, pv) = (&points[u], &points[v]);
+        let side = orient2d(pu, pv, p);
+        if side.is_zero() {
+            let dx = &(&pu[0] - &p[0]) * &(&pv[0] - &p[0]);
+            let dy = &(&pu[1] - &p[1]) * &(&pv[1] - &p[1]);
+            return (&dx + &dy).is_negative();
+        }
+        side.is_positive() != orient2d(pu, pv, inner).is_positive()
+    }
+
     /// Insert a single point using Bowyer-Watson algorithm
-    fn bowyer_watson_insert_point(pid: usize, points: &[Point2<T>], triangles: &mut Vec<Triangle>) {
+    fn bowyer_watson_insert_point(
+        pid: usize,
+        points: &[Point2<T>],
+        inner: &Point2<T>,
+        triangles: &mut Vec<Triangle>,
+    ) {
+        let ghost = points.len();
         let p = &points[pid];
 
         // Find triangles whose circumcircle contains p
         let mut bad_triangles = Vec::new();
         for (i, &t) in triangles.iter().enumerate() {
-            if Self::point_in_circumcircle_fast(p, t, points) {
+            let bad = match [t.0, t.1, t.2].iter().position(|&v| v == ghost) {
+                None => Self::point_in_circumcircle_fast(p, t, points),
+                Some(0) => Self::beyond_hull_edge(p, t.1, t.2, points, inner),
+                Some(1) => Self::beyond_hull_edge(p, t.2, t.0, points, inner),
+                Some(_) => Self::beyond_hull_edge(p, t.0, t.1, points, inner),
+            };
+            if bad {
                 bad_triangles.push(i);
             }
         }
@@ -327,7 +292,9 @@ where
 
         // Create new triangles by connecting boundary edges to new point
         for edge in boundary_edges {
-            let new_triangle = if orient2d(&points[edge.a()], &points[edge.b()], p).is_positive() {
+            let new_triangle = if edge.a() == ghost || edge.b() == ghost {
+                Triangle(edge.a(), edge.b(), pid)
+            } else if orient2d(&points[edge.a()], &points[edge.b()], p).is_positive() {
                 Triangle(edge.a(), edge.b(), pid)
             } else {
                 Triangle(edge.a(), pid, edge.b())
-- 
2.43.0


From ee5c78eb3009f8edbe84b562738dfe165af9aec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:04 +0000
Subject: [PATCH 32/53] fix: insert a constraint by retriangulating the cavity
 it crosses

Walking with edge flips lost, duplicated or overlapped triangles when an edge
on the way could not be flipped. Removes the helpers only that walk used.
---
 src/operations/triangulation/delaunay.rs | 666 +++--------------------
 1 file changed, 69 insertions(+), 597 deletions(-)

diff --git a/src/operations/triangulation/delaunay.rs b/src/operations/triangulation/delaunay.rs
index 0ad2775..a505fc7 100644
--- a/src/operations/triangulation/delaunay.rs
+++ b/src/operations/triangulation/delaunay.rs
@@ -422,40 +422,11 @@ where
         true
     }
 
-    fn triangle_exists(&self, a: usize, b: usize, c: usize) -> bool {
-        let mut k = [a, b, c];
-        k.sort_unstable();
-        self.triangles.iter().any(|t| {
-            let mut s = [t.0, t.1, t.2];
-            s.sort_unstable();
-            s == k
-        })
-    }
-
-    fn neighbors_of(&self, v: usize) -> AHashSet<usize> {
-        let mut set = AHashSet::default();
-        for t in &self.triangles {
-            if t.0 == v {
-                set.insert(t.1);
-                set.insert(t.2);
-            }
-            if t.1 == v {
-                set.insert(t.0);
-                set.insert(t.2);
-            }
-            if t.2 == v {
-                set.insert(t.0);
-                set.insert(t.1);
-            }
-        }
-        set.remove(&v);
-        set
-    }
-
+    /// Put the edge (a,b) in: take out the triangles it crosses and fill the two sides anew.
     fn insert_constraint_walk(
         &mut self,
-        mut a: usize,
-        mut b: usize,
+        a: usize,
+        b: usize,
         adj: &mut Adj,
         constrained: &AHashSet<Edge>,
     ) -> Result<(), &'static str> {
@@ -463,333 +434,88 @@ where
             return Ok(());
         }
 
-        // Choose a starting triangle that actually faces toward the segment (a,b).
-        // Prefer a's incident triangles; if none useful, swap endpoints and try b.
-        let pick_start = |end: usize, other: usize| -> Option<usize> {
-            if let Some(inc) = adj.vert2tris.get(end) {
-                for &ti in inc.iter() {
-                    if exit_edge_of_triangle_fast(
-                        &self.points,
-                        adj,
-                        &self.triangles,
-                        ti,
-                        end,
-                        other,
-                    )
-                    .is_some()
-                    {
-                        return Some(ti);
-                    }
-                }
-                if let Some(&ti) = inc.get(0) {
-                    return Some(ti);
-                }
-            }
-            None
-        };
-        let mut current_tri = if let Some(ti) = pick_start(a, b) {
-            ti
-        } else if let Some(ti) = pick_start(b, a) {
-            std::mem::swap(&mut a, &mut b);
-            ti
-        } else {
-            return Err("no incident triangle for either endpoint");
-        };
-
-        // Track the best (latest) apex seen on each side of (a,b).
-        let mut last_pos_apex: Option<usize> = None;
-        let mut last_neg_apex: Option<usize> = None;
+        let side = |w: usize| orient2d(&self.points[a], &self.points[b], &self.points[w]);
 
-        // Visit-state: avoid cycles
-        let mut visited = ahash::AHashSet::<(usize, Edge)>::default();
-        let mut steps = 0usize;
-        let max_steps = 4 * self.triangles.len().max(10);
-
-        while !self.edge_exists(Edge::new(a, b)) {
-            steps += 1;
-            if steps > max_steps {
-                return Err("insert_constraint_walk: too many steps");
-            }
-
-            // Decide the edge we must cross from current_tri toward segment (a,b)
-            let (cross_e, nei) = match exit_edge_of_triangle_fast(
-                &self.points,
-                adj,
-                &self.triangles,
-                current_tri,
-                a,
-                b,
-            ) {
-                Some(x) => x,
-                None => return Err("walker stuck: no exit edge"),
-            };
-
-            // Record apex on the side we are leaving across cross_e
-            if let Some(w) = third_vertex(self.triangles[current_tri], cross_e.a(), cross_e.b()) {
-                let s = orient2d(&self.points[a], &self.points[b], &self.points[w]);
-                if s.is_positive() {
-                    last_pos_apex = Some(w);
-                } else if s.is_negative() {
-                    last_neg_apex = Some(w);
+        // The triangle at a whose opposite edge the segment leaves through
+        let mut start = None;
+        for &ti in &adj.vert2tris[a] {
+            let t = self.triangles[ti];
+            for (u, v) in tri_edges(t) {
+                if u == a || v == a || !side(u).is_negative() || !side(v).is_positive() {
+                    continue;
                 }
+                start = Some((ti, u, v));
             }
-
-            if !visited.insert((current_tri, cross_e)) {
-                return Err("walker cycle detected");
+        }
+        let (ti, mut right, mut left) = start.ok_or("no triangle faces the other endpoint")?;
+
+        // Walk to b, collecting the vertices passed on either side
+        let mut crossed = vec![ti];
+        let mut left_chain = vec![a, left];
+        let mut right_chain = vec![a, right];
+        loop {
+            let e = Edge::new(left, right);
+            if constrained.contains(&e) {
+                return Err("crosses another constraint");
             }
-
-            // If we already have the target edge, stop walking; we'll add missing side(s) below.
-            if (cross_e.a() == a && cross_e.b() == b) || (cross_e.a() == b && cross_e.b() == a) {
+            let last = crossed[crossed.len() - 1];
+            let next = adj
+                .edge2tris
+                .get(&e)
+                .and_then(|v| v.iter().copied().find(|&x| x != last))
+                .ok_or("no neighbor across interior edge")?;
+            let w = third_vertex(self.triangles[next], left, right).ok_or("invalid edge")?;
+            crossed.push(next);
+            if w == b {
                 break;
             }
-
-            // Interior vs boundary
-            match adj.edge2tris.get(&cross_e).map(|v| v.len()).unwrap_or(0) {
-                2 => {
-                    // Interior: try to flip if allowed, otherwise step across.
-                    if !constrained.contains(&cross_e) {
-                        if let Some(new_e) = self.flip_shared_edge_with_adj(
-                            cross_e,
-                            adj.edge2tris[&cross_e][0],
-                            adj.edge2tris[&cross_e][1],
-                            constrained,
-                            adj,
-                        ) {
-                            // If this flip created (a,b), stop walking.
-                            if (new_e.a() == a && new_e.b() == b)
-                                || (new_e.a() == b && new_e.b() == a)
-                            {
-                                break;
-                            }
-                            // Re-evaluate from the same triangle index for stability.
-                            continue;
-                        }
-                    }
-                    // No flip (or constrained): step to neighbor if available.
-                    if let Some(next_ti) = nei {
-                        current_tri = next_ti;
-                    } else {
-                        return Err("no neighbor across interior edge");
-                    }
-                }
-                _ => {
-                    // Boundary: split triangles to introduce progress for (a,b), then continue walking.
-                    self.handle_boundary_crossing(current_tri, cross_e, a, b, adj)?;
-                    visited.clear(); // topology changed; clear cycle state
-                }
+            let s = side(w);
+            if s.is_positive() {
+                left_chain.push(w);
+                left = w;
+            } else if s.is_negative() {
+                right_chain.push(w);
+                right = w;
+            } else {
+                return Err("passes through another vertex");
             }
         }
-
-        // At this point, (a,b) should exist. If it has only one incident triangle, add the missing one
-        // deterministically using the last recorded apex on the opposite side; fall back to best common neighbor.
-        self.add_missing_triangle_for_edge(a, b, last_pos_apex, last_neg_apex, adj);
-
-        Ok(())
-    }
-
-    /// After (a,b) exists, if it has only one incident triangle, add the missing one.
-    /// Prefer the recorded apexes from the walk; otherwise choose the best common neighbor on the opposite side.
-    fn add_missing_triangle_for_edge(
-        &mut self,
-        a: usize,
-        b: usize,
-        last_pos_apex: Option<usize>,
-        last_neg_apex: Option<usize>,
-        adj: &mut Adj,
-    ) where
-        T: PartialOrd,
-    {
-        let e = Edge::new(a, b);
-        let list = match adj.edge2tris.get(&e) {
-            Some(v) => v.clone(),
-            None => return,
-        };
-        if list.len() >= 2 {
-            return; // already has both sides
-        }
-        if list.is_empty() {
-            return; // unexpected; nothing to do
-        }
-
-        // Existing side sign
-        let ti_exist = list[0];
-        if ti_exist >= self.triangles.len() {
-            return;
+        left_chain.push(b);
+        right_chain.push(b);
+        right_chain.reverse();
+
+        let mut filled = Vec::with_capacity(crossed.len());
+        self.fill_chain(&left_chain, &mut filled);
+        self.fill_chain(&right_chain, &mut filled);
+        if filled.len() != crossed.len() {
+            return Err("sides do not match");
         }
-        let w_exist = match third_vertex(self.triangles[ti_exist], a, b) {
-            Some(w) => w,
-            None => return,
-        };
-        let s_exist = orient2d(&self.points[a], &self.points[b], &self.points[w_exist]);
-        if s_exist.is_zero() {
-            return;
+        for (&ti, &t_new) in crossed.iter().zip(&filled) {
+            let t_old = self.triangles[ti];
+            self.triangles[ti] = t_new;
+            adj.replace_tri(ti, t_old, t_new);
         }
 
-        // Target side is the opposite one
-        let want_pos = s_exist.is_negative();
-
-        // 1) Prefer recorded apex from the walk on the wanted side
-        let mut candidate = if want_pos {
-            last_pos_apex
-        } else {
-            last_neg_apex
-        };
-
-        // 2) Fallback: search common neighbors of a and b on the wanted side, pick max |area|
-        if candidate.is_none() {
-            let na = self.neighbors_of(a);
-            let nb = self.neighbors_of(b);
-            let mut best_w: Option<usize> = None;
-            let mut best_score: Option<T> = None;
-            for &w in na.intersection(&nb) {
-                if w == a || w == b || w == w_exist {
-                    continue;
-                }
-                if self.triangle_exists(a, b, w) {
-                    continue;
-                }
-                // avoid creating long edges
-                if edge_has_mid_vertex(a, w, &self.points)
-                    || edge_has_mid_vertex(b, w, &self.points)
-                {
-                    continue;
-                }
-                let s = orient2d(&self.points[a], &self.points[b], &self.points[w]);
-                if s.is_zero() || (want_pos != s.is_positive()) {
-                    continue;
-                }
-                let score = if s.is_negative() { -s } else { s }; // |area|
-                if best_score.as_ref().map_or(true, |bs| score > *bs) {
-                    best_score = Some(score);
-                    best_w = Some(w);
-                }
-            }
-            candidate = best_w;
-        }
-
-        let Some(w) = candidate else {
-            return;
-        };
-
-        // Create triangle (a,b,w) with CCW orientation
-        let t_new = if orient2d(&self.points[a], &self.points[b], &self.points[w]).is_positive() {
-            Triangle(a, b, w)
-        } else {
-            Triangle(a, w, b)
-        };
-
-        let ti = self.triangles.len();
-        self.triangles.push(t_new);
-        adj.add_tri(ti, t_new);
-    }
-
-    fn handle_boundary_crossing(
-        &mut self,
-        tri_idx: usize,
-        boundary_edge: Edge,
-        a: usize,
-        b: usize,
-        adj: &mut Adj,
-    ) -> Result<(), &'static str> {
-        // We are crossing a boundary edge (u,v) from triangle tri_idx. Replace it with TWO triangles
-        // that introduce the constrained edge between the endpoint on the boundary (anchor) and the other endpoint.
-        let tri = self.triangles[tri_idx];
-        let (u, v) = (boundary_edge.a(), boundary_edge.b());
-        let w = third_vertex(tri, u, v).ok_or("invalid boundary edge")?;
-
-        // Determine which endpoint of (a,b) lies on this boundary edge; that must be the anchor.
-        let anchor = if u == a || v == a {
-            a
-        } else if u == b || v == b {
-            b
-        } else {
-            return Err("hit unrelated boundary while inserting constraint");
-        };
-        let other = if anchor == a { b } else { a };
-
-        // First triangle introduces (anchor, other) with w
-        let t0 =
-            if orient2d(&self.points[anchor], &self.points[other], &self.points[w]).is_positive() {
-                Triangle(anchor, other, w)
-            } else {
-                Triangle(anchor, w, other)
-            };
-
-        // Second triangle closes the fan on the boundary edge using the vertex of (u,v) not equal to anchor
-        let x = if u == anchor { v } else { u };
-        let t1 = if orient2d(&self.points[other], &self.points[x], &self.points[w]).is_positive() {
-            Triangle(other, x, w)
-        } else {
-            Triangle(other, w, x)
-        };
-
-        // Commit both triangles
-        let old = self.triangles[tri_idx];
-        self.triangles[tri_idx] = t0;
-        let t1_idx = self.triangles.len();
-        self.triangles.push(t1);
-
-        adj.replace_tri(tri_idx, old, t0);
-        adj.add_tri(t1_idx, t1);
-
         Ok(())
     }
 
-    fn flip_shared_edge_with_adj(
-        &mut self,
-        e: Edge,
-        t0_idx: usize,
-        t1_idx: usize,
-        constrained: &AHashSet<Edge>,
-        adj: &mut Adj,
-    ) -> Option<Edge>
-    where
-        T: PartialOrd,
-    {
-        if t0_idx >= self.triangles.len() || t1_idx >= self.triangles.len() {
-            return None;
-        }
-
-        let t0_old = self.triangles[t0_idx];
-        let t1_old = self.triangles[t1_idx];
-        let (u, v) = (e.a(), e.b());
-
-        let x = other_across(t0_old, e)?;
-        let y = other_across(t1_old, e)?;
-        if x == y {
-            return None;
-        }
-
-        // Don’t create a constrained edge implicitly.
-        let new_e = Edge::new(x, y);
-        if constrained.contains(&new_e) {
-            return None;
+    /// Triangulate the region between a chain of vertices and the edge from its first to its
+    /// last one, all of it on the left of that edge.
+    fn fill_chain(&self, chain: &[usize], out: &mut Vec<Triangle>) {
+        if chain.len() < 3 {
+            return;
         }
-
-        // Do not create an edge that passes through another vertex
-        if edge_has_mid_vertex(x, y, &self.points) {
-            return None;
+        let (a, b) = (chain[0], chain[chain.len() - 1]);
+        let mut best = 1;
+        for i in 2..chain.len() - 1 {
+            let [pa, pb, pc, pd] = [a, b, chain[best], chain[i]].map(|v| &self.points[v]);
+            if incircle(pa, pb, pc, pd).is_positive() {
+                best = i;
+            }
         }
-
-        // Build new triangles (preserve CCW)
-        let a0 = orient2d(&self.points[x], &self.points[u], &self.points[y]);
-        let a1 = orient2d(&self.points[x], &self.points[y], &self.points[v]);
-        let t0_new = if a0.is_positive_or_zero() {
-            Triangle(x, u, y)
-        } else {
-            Triangle(x, y, u)
-        };
-        let t1_new = if a1.is_positive_or_zero() {
-            Triangle(x, y, v)
-        } else {
-            Triangle(x, v, y)
-        };
-
-        self.triangles[t0_idx] = t0_new;
-        self.triangles[t1_idx] = t1_new;
-        adj.replace_tri(t0_idx, t0_old, t0_new);
-        adj.replace_tri(t1_idx, t1_old, t1_new);
-        Some(new_e)
+        out.push(Triangle(a, b, chain[best]));
+        self.fill_chain(&chain[..=best], out);
+        self.fill_chain(&chain[best..], out);
     }
 }
 
@@ -808,245 +534,11 @@ fn third_vertex(t: Triangle, u: usize, v: usize) -> Option<usize> {
     if count == 2 { other } else { None }
 }
 
-#[inline]
-fn other_across(t: Triangle, e: Edge) -> Option<usize> {
-    let vs = [t.0, t.1, t.2];
-    vs.into_iter().find(|&w| w != e.a() && w != e.b())
-}
-
 #[inline]
 fn tri_edges(t: Triangle) -> [(usize, usize); 3] {
     [(t.0, t.1), (t.1, t.2), (t.2, t.0)]
 }
 
-#[inline]
-fn tri_as_array(t: Triangle) -> [usize; 3] {
-    [t.0, t.1, t.2]
-}
-
-#[inline]
-fn has_vertex(t: Triangle, v: usize) -> bool {
-    t.0 == v || t.1 == v || t.2 == v
-}
-
-fn exit_edge_of_triangle_fast<T: Scalar>(
-    points: &[Point2<T>],
-    adj: &Adj,
-    tris: &[Triangle],
-    ti: usize,
-    a: usize,
-    b: usize,
-) -> Option<(Edge, Option<usize>)>
-where
-    for<'a> &'a T: std::ops::Sub<&'a T, Output = T>
-        + std::ops::Mul<&'a T, Output = T>
-        + std::ops::Add<&'a T, Output = T>
-        + std::ops::Div<&'a T, Output = T>
-        + std::ops::Neg<Output = T>,
-{
-    // Fast path using ball centers
-    if let (Some(ax), Some(ay), Some(bx), Some(by)) = (
-        points[a][0].as_f64_fast(),
-        points[a][1].as_f64_fast(),
-        points[b][0].as_f64_fast(),
-        points[b][1].as_f64_fast(),
-    ) {
-        // Use fast f64 computation for edge selection
-        return exit_edge_fast_f64(points, adj, tris, ti, ax, ay, bx, by);
-    }
-
-    // Fallback to exact
-    exit_edge_of_triangle(points, adj, tris, ti, a, b)
-}
-
-fn exit_edge_fast_f64<T: Scalar>(
-    points: &[Point2<T>],
-    adj: &Adj,
-    tris: &[Triangle],
-    ti: usize,
-    ax: f64,
-    ay: f64,
-    bx: f64,
-    by: f64,
-) -> Option<(Edge, Option<usize>)> {
-    let t = tris[ti];
-
-    // Fast f64 orientation tests
-    for (u, v) in [(t.0, t.1), (t.1, t.2), (t.2, t.0)] {
-        let ux = points[u][0].ball_center_f64();
-        let uy = points[u][1].ball_center_f64();
-        let vx = points[v][0].ball_center_f64();
-        let vy = points[v][1].ball_center_f64();
-
-        // Fast crossing test
-        let o1 = (bx - ax) * (uy - ay) - (by - ay) * (ux - ax);
-        let o2 = (bx - ax) * (vy - ay) - (by - ay) * (vx - ax);
-        let o3 = (vx - ux) * (ay - uy) - (vy - uy) * (ax - ux);
-        let o4 = (vx - ux) * (by - uy) - (vy - uy) * (bx - ux);
-
-        let eps = EPS * ((bx - ax).abs() + (by - ay).abs()).max(1.0);
-
-        if (o1 * o2 < -eps * eps) && (o3 * o4 < -eps * eps) {
-            let e = Edge::new(u, v);
-            let nei = adj
-                .edge2tris
-                .get(&e)
-                .and_then(|vv| vv.iter().copied().find(|&x| x != ti));
-            return Some((e, nei));
-        }
-    }
-    None
-}
-
-/// Given current triangle index `ti`, decide the **one** edge we exit across,
-/// when walking from a -> b. Uses exact orient2d.
-/// Returns (crossed undirected edge, neighbor triangle index if interior).
-fn exit_edge_of_triangle<T: Scalar>(
-    points: &[Point2<T>],
-    adj: &Adj,
-    tris: &[Triangle],
-    ti: usize,
-    a: usize,
-    b: usize,
-) -> Option<(Edge, Option<usize>)>
-where
-    for<'a> &'a T: std::ops::Sub<&'a T, Output = T>
-        + std::ops::Mul<&'a T, Output = T>
-        + std::ops::Add<&'a T, Output = T>
-        + std::ops::Div<&'a T, Output = T>
-        + std::ops::Neg<Output = T>,
-{
-    let t = tris[ti];
-    let vs = tri_as_array(t);
-    let pa = &points[a];
-    let pb = &points[b];
-
-    // Case A: a is a vertex of this triangle (common at start)
-    if has_vertex(t, a) {
-        // let the other two vertices be x,y (not equal to a).
-        let mut other = [0usize; 2];
-        let mut k = 0;
-        for &v in &vs {
-            if v != a {
-                other[k] = v;
-                k += 1;
-            }
-        }
-        let x = other[0];
-        let y = other[1];
-        // If segment (a,b) exits the triangle, it exits across the edge between the two "other" vertices
-        // iff orient(a,b,x) and orient(a,b,y) have opposite signs.
-        let s1 = orient2d(pa, pb, &points[x]);
-        let s2 = orient2d(pa, pb, &points[y]);
-
-        // Touching a vertex (one sign == 0): step through the edge adjacent to that vertex that is crossed.
-        if s1.is_zero() && s2.is_zero() {
-            // (a,b) is collinear with both -> (a,b) lies exactly along the side through a.
-            // Walk out through the edge that contains a and heads towards b.
-            for (u, v) in tri_edges(t) {
-                if u == a || v == a {
-                    // choose the directed edge (a,*) whose midpoint is most "forward" towards b
-                    let mid = Point2::<T>::from_vals([
-                        (&points[u][0] + &points[v][0]) * T::from(0.5),
-                        (&points[u][1] + &points[v][1]) * T::from(0.5),
-                    ]);
-                    let o = orient2d(pa, pb, &mid);
-                    if !o.is_zero() {
-                        let e = Edge::new(u, v);
-                        let nei = adj
-                            .edge2tris
-                            .get(&e)
-                            .and_then(|vv| vv.iter().copied().find(|&x| x != ti));
-                        return Some((e, nei));
-                    }
-                }
-            }
-            return None;
-        } else if s1.is_zero() || s2.is_zero() {
-            // Through vertex: go through the edge opposite the *other* vertex
-            let vtx = if s1.is_zero() { x } else { y };
-            // Opposite edge is the edge that does not contain vtx
-            let mut e_opt = None;
-            for (u, v) in tri_edges(t) {
-                if u != vtx && v != vtx {
-                    e_opt = Some(Edge::new(u, v));
-                    break;
-                }
-            }
-            if let Some(e) = e_opt {
-                let nei = adj
-                    .edge2tris
-                    .get(&e)
-                    .and_then(|vv| vv.iter().copied().find(|&x| x != ti));
-                return Some((e, nei));
-            }
-            return None;
-        } else if (s1.is_positive()) != (s2.is_positive()) {
-            // Different signs -> exit across the edge (x,y) (the one NOT incident to a)
-            let e = Edge::new(x, y);
-            let nei = adj
-                .edge2tris
-                .get(&e)
-                .and_then(|vv| vv.iter().copied().find(|&x| x != ti));
-            return Some((e, nei));
-        } else {
-            // Both on same side: we do not leave through the opposite edge; try an edge incident to a
-            // Pick the incident edge whose midpoint lies most "forward" wrt (a->b)
-            let mut best: Option<(Edge, T)> = None;
-            for (u, v) in tri_edges(t) {
-                if u == a || v == a {
-                    let mid = Point2::<T>::from_vals([
-                        (&points[u][0] + &points[v][0]) * T::from(0.5),
-                        (&points[u][1] + &points[v][1]) * T::from(0.5),
-                    ]);
-                    // Compare by projection on direction (a->b)
-                    let dx = &pb[0] - &pa[0];
-                    let dy = &pb[1] - &pa[1];
-                    let sx = &mid[0] - &pa[0];
-                    let sy = &mid[1] - &pa[1];
-                    let proj = dx * sx + dy * sy;
-                    let cand = (Edge::new(u, v), proj.clone());
-                    if best.as_ref().map_or(true, |(_, p)| proj > *p) {
-                        best = Some(cand);
-                    }
-                }
-            }
-            if let Some((e, _)) = best {
-                let nei = adj
-                    .edge2tris
-                    .get(&e)
-                    .and_then(|vv| vv.iter().copied().find(|&x| x != ti));
-                return Some((e, nei));
-            }
-            return None;
-        }
-    }
-
-    // Case B: general triangle — test the three edges for proper crossing or interior touch
-    for (u, v) in tri_edges(t) {
-        let pu = &points[u];
-        let pv = &points[v];
-        let o1 = orient2d(pa, pb, pu);
-        let o2 = orient2d(pa, pb, pv);
-        let o3 = orient2d(pu, pv, pa);
-        let o4 = orient2d(pu, pv, pb);
-        let proper = (&o1 * &o2).is_negative() && (&o3 * &o4).is_negative();
-        let touch_inside = o1.is_zero() && (&o3 * &o4).is_negative()
-            || (o2.is_zero() && (&o3 * &o4).is_negative())
-            || (o3.is_zero() && (&o1 * &o2).is_negative())
-            || (o4.is_zero() && (&o1 * &o2).is_negative());
-        if proper || touch_inside {
-            let e = Edge::new(u, v);
-            let nei = adj
-                .edge2tris
-                .get(&e)
-                .and_then(|vv| vv.iter().copied().find(|&x| x != ti));
-            return Some((e, nei));
-        }
-    }
-    None
-}
-
 #[inline]
 fn on_segment<T: Scalar + PartialOrd>(a: &Point2<T>, b: &Point2<T>, p: &Point2<T>) -> bool
 where
@@ -1073,26 +565,6 @@ where
     p[0] >= minx && p[0] <= maxx && p[1] >= miny && p[1] <= maxy
 }
 
-#[inline]
-fn edge_has_mid_vertex<T: Scalar + PartialOrd>(i: usize, j: usize, pts: &[Point2<T>]) -> bool
-where
-    for<'x> &'x T: std::ops::Sub<&'x T, Output = T>
-        + std::ops::Mul<&'x T, Output = T>
-        + std::ops::Add<&'x T, Output = T>
-        + std::ops::Div<&'x T, Output = T>
-        + std::ops::Neg<Output = T>,
-{
-    for k in 0..pts.len() {
-        if k == i || k == j {
-            continue;
-        }
-        if on_segment(&pts[i], &pts[j], &pts[k]) {
-            return true;
-        }
-    }
-    false
-}
-
 #[inline]
 fn param_t<T: Scalar>(a: &Point2<T>, b: &Point2<T>, p: &Point2<T>) -> T
 where
-- 
2.43.0


From 68171156098f5ce1120f48f5bb03ab41b0573692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:52:17 +0000
Subject: [PATCH 33/53] fix: merge equal vertices on either side of a cell
 border

---
 src/mesh/core.rs | 50 +++++++++++++++++-------------------------------
 1 file changed, 18 insertions(+), 32 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index 9d7d0b4..368c659 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -262,44 +262,30 @@ impl_mesh! {
 
         // Build spatial hash for efficient duplicate detection
         let mut spatial_groups: AHashMap<u128, Bucket> = AHashMap::new();
+        let mut vertex_mapping = (0..self.vertices.len()).collect::<Vec<_>>();
+        let mut duplicates = AHashSet::new();
 
         for (vertex_idx, vertex) in self.vertices.iter().enumerate() {
             if vertex.removed {
                 continue; // A live vertex must not be merged into a removed one
             }
-            let hash_key = self.position_to_packed_key(&vertex.position);
-            spatial_groups.entry(hash_key).or_default().push(vertex_idx);
-        }
-
-        // Find duplicates within each spatial group
-        let mut vertex_mapping = (0..self.vertices.len()).collect::<Vec<_>>();
-        let mut duplicates = AHashSet::new();
-
-        for group in spatial_groups.values() {
-            if group.len() < 2 {
-                continue;
-            }
 
-            // Check all pairs within the group
-            for i in 0..group.len() {
-                if duplicates.contains(&group[i]) {
-                    continue;
-                }
-
-                for j in (i + 1)..group.len() {
-                    if duplicates.contains(&group[j]) {
-                        continue;
-                    }
-
-                    let pos_i = &self.vertices[group[i]].position;
-                    let pos_j = &self.vertices[group[j]].position;
-
-                    if kernel::are_equal(pos_i, pos_j) {
-                        // Mark j as duplicate of i
-                        vertex_mapping[group[j]] = group[i];
-                        duplicates.insert(group[j]);
-                    }
-                }
+            // Equal positions may be approximated on either side of a cell border
+            let (kx, ky, kz) = self.position_to_hash_key(&vertex.position);
+            let canonical = (0..27).find_map(|i| {
+                let key = Self::pack_key3(kx + i % 3 - 1, ky + i / 3 % 3 - 1, kz + i / 9 - 1);
+                let group = spatial_groups.get(&key)?;
+                group
+                    .iter()
+                    .copied()
+                    .find(|&v| kernel::are_equal(&self.vertices[v].position, &vertex.position))
+            });
+            if let Some(canonical) = canonical {
+                vertex_mapping[vertex_idx] = canonical;
+                duplicates.insert(vertex_idx);
+            } else {
+                let hash_key = Self::pack_key3(kx, ky, kz);
+                spatial_groups.entry(hash_key).or_default().push(vertex_idx);
             }
         }
 
-- 
2.43.0


From 7f3d114e5799999fe6754292a9c2ab958613bd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:52:18 +0000
Subject: [PATCH 34/53] fix: keep the segments that end at a corner of a face

---
 src/mesh_processing/batching.rs | 114 +++++---------------------------
 1 file changed, 15 insertions(+), 99 deletions(-)

diff --git a/src/mesh_processing/batching.rs b/src/mesh_processing/batching.rs
index f0d6011..c2df194 100644
--- a/src/mesh_processing/batching.rs
+++ b/src/mesh_processing/batching.rs
@@ -256,7 +256,7 @@ where
         mark_chain_as_forced(1, 2, &mut forced, &points_uv);
         mark_chain_as_forced(2, 0, &mut forced, &points_uv);
 
-        for &(va, vb) in &resolved_pairs {
+        for &[va, vb] in &vertex_pairs {
             if va != usize::MAX && vb != usize::MAX {
                 if let (Some(&la), Some(&lb)) = (g2l.get(&va), g2l.get(&vb)) {
                     if la != lb {
@@ -444,54 +444,19 @@ where
             );
         }
 
-        // Resolve each endpoint to the vertex that belongs to THIS face.
-        // We also keep the resolved pairs to emit segments later.
-        let mut resolved_pairs: Vec<(usize, usize)> = Vec::with_capacity(vertex_pairs.len());
-        for &[va, vb] in &vertex_pairs {
-            let mut a_res = usize::MAX;
-            let mut b_res = usize::MAX;
-            // project both candidates in the SAME basis you use for points_uv
-            if va != usize::MAX {
-                let (u, v, _) =
-                    barycentric_coords(&mesh.vertices[va].position, pa, pb, pc).unwrap();
-                let pa_uv = Point2::new([u, v]);
-                a_res = choose_vertex_on_face(mesh, face_id, &[va, vb], &pa_uv, pa, pb, pc)
-                    .unwrap_or(va);
-                if !boundary_verts.contains(&a_res) {
-                    push_vertex_uv_3(
-                        mesh,
-                        &mut g2l,
-                        &mut verts_global,
-                        &mut points_uv,
-                        pa,
-                        pb,
-                        pc,
-                        a_res,
-                    );
-                }
+        for &v in vertex_pairs.iter().flatten() {
+            if v != usize::MAX && !boundary_verts.contains(&v) {
+                push_vertex_uv_3(
+                    mesh,
+                    &mut g2l,
+                    &mut verts_global,
+                    &mut points_uv,
+                    pa,
+                    pb,
+                    pc,
+                    v,
+                );
             }
-
-            if vb != usize::MAX {
-                let (u, v, _) =
-                    barycentric_coords(&mesh.vertices[vb].position, pa, pb, pc).unwrap();
-                let pb_uv = Point2::new([u, v]);
-                b_res = choose_vertex_on_face(mesh, face_id, &[vb, va], &pb_uv, pa, pb, pc)
-                    .unwrap_or(vb);
-                if !boundary_verts.contains(&b_res) {
-                    push_vertex_uv_3(
-                        mesh,
-                        &mut g2l,
-                        &mut verts_global,
-                        &mut points_uv,
-                        pa,
-                        pb,
-                        pc,
-                        b_res,
-                    );
-                }
-            }
-
-            resolved_pairs.push((a_res, b_res));
         }
 
         // constraints (PSLG)
@@ -517,7 +482,7 @@ where
         mark_chain_as_forced(2, 0, &mut forced);
 
         // ---- existing intersection segments ----
-        for &(va, vb) in &resolved_pairs {
+        for &[va, vb] in &vertex_pairs {
             if va != usize::MAX && vb != usize::MAX {
                 if let (Some(&la), Some(&lb)) = (g2l.get(&va), g2l.get(&vb)) {
                     if la != lb {
@@ -564,12 +529,7 @@ where
                 return seg_on_any_outer_edge(*a, *b, &points_uv);
             }
 
-            // 3) boundary–interior: allow only if the segment lies on an outer edge
-            if a_is_boundary ^ b_is_boundary {
-                return seg_on_any_outer_edge(*a, *b, &points_uv);
-            }
-
-            // 4) interior–interior: always ok (intersection chords etc.)
+            // 3) anything with an interior end: always ok (intersection chords etc.)
             true
         });
 
@@ -735,47 +695,3 @@ pub fn on_edge_with_t<TS: Scalar>(a: &Point2<TS>, b: &Point2<TS>, p: &Point2<TS>
     let t = dot / len2;
     (t >= -EPS && t <= 1.0 + EPS, t)
 }
-
-/// Return the global vertex from `candidates` that is *incident to this face*,
-/// else fall back to the nearest-on-this-face edge.
-fn choose_vertex_on_face<T: Scalar, const N: usize>(
-    mesh: &Mesh<T, N>,
-    face_id: usize,
-    candidates: &[usize],
-    projected_uv: &Point2<T>, // must be barycentric_uv in the SAME (a,b,c) basis
-    pa: &Point<T, N>,
-    pb: &Point<T, N>,
-    pc: &Point<T, N>,
-) -> Option<usize>
-where
-    Point<T, N>: PointOps<T, N, Vector = Vector<T, N>>,
-    Vector<T, N>: VectorOps<T, N>,
-    for<'a> &'a T: std::ops::Sub<&'a T, Output = T>
-        + std::ops::Mul<&'a T, Output = T>
-        + std::ops::Add<&'a T, Output = T>
-        + std::ops::Div<&'a T, Output = T>
-        + std::ops::Neg<Output = T>,
-{
-    // 1) prefer a candidate that touches this face
-    for &g in candidates {
-        if g < mesh.vertices.len() && mesh.vertex_touches_face(g, face_id) {
-            return Some(g);
-        }
-    }
-    // 2) otherwise: minimal barycentric-UV distance
-    let mut best: Option<(usize, T)> = None;
-    for &g in candidates {
-        if g >= mesh.vertices.len() {
-            continue;
-        }
-        let p = &mesh.vertices[g].position;
-        let (u, v, _) = barycentric_coords(p, pa, pb, pc).unwrap();
-        let du = &u - &projected_uv[0];
-        let dv = &v - &projected_uv[1];
-        let d2 = &du * &du + &dv * &dv;
-        if best.as_ref().map_or(true, |(_, bd2)| d2 < *bd2) {
-            best = Some((g, d2));
-        }
-    }
-    best.map(|(g, _)| g)
-}
-- 
2.43.0


From 7dc2790594029569b510312772c7a472015e540e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:52:18 +0000
Subject: [PATCH 35/53] fix: skip removed faces when intersecting two meshes

---
 src/mesh_processing/boolean.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh_processing/boolean.rs b/src/mesh_processing/boolean.rs
index e16a2c6..695e0b1 100644
--- a/src/mesh_processing/boolean.rs
+++ b/src/mesh_processing/boolean.rs
@@ -393,6 +393,9 @@ where
         let mut ends_vec = Vec::with_capacity(64);
 
         for fa in 0..self.faces.len() {
+            if self.faces[fa].removed {
+                continue;
+            }
             candidates.clear();
             tree_b.query(&self.face_aabb(fa), &mut candidates);
 
-- 
2.43.0


From 4ec1e03068799f638e22124ea1b83112fd8dfc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:52:18 +0000
Subject: [PATCH 36/53] fix: intersect with a mesh that has no faces left

---
 src/mesh_processing/boolean.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh_processing/boolean.rs b/src/mesh_processing/boolean.rs
index 695e0b1..7354783 100644
--- a/src/mesh_processing/boolean.rs
+++ b/src/mesh_processing/boolean.rs
@@ -382,6 +382,9 @@ where
         Vec<IntersectionSegment<T, N>>,
     ) {
         let start = Instant::now();
+        if other.faces.iter().all(|f| f.removed) {
+            return (Vec::new(), Vec::new());
+        }
         let tree_b = other.build_face_tree();
         println!("Total AABB computation: {:.2?}", start.elapsed());
         let mut intersection_segments_a = Vec::new();
-- 
2.43.0


From 19653b00acbde1113a369e35724f97d79f24f200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:52:18 +0000
Subject: [PATCH 37/53] fix: decide for every region of a cut mesh which side
 of the other it is on

---
 src/mesh_processing/boolean.rs | 660 +++++++--------------------------
 1 file changed, 131 insertions(+), 529 deletions(-)

diff --git a/src/mesh_processing/boolean.rs b/src/mesh_processing/boolean.rs
index 7354783..920c12b 100644
--- a/src/mesh_processing/boolean.rs
+++ b/src/mesh_processing/boolean.rs
@@ -32,7 +32,7 @@ use ahash::{AHashMap, AHashSet};
 
 use crate::{
     geometry::{
-        Aabb, AabbTree,
+        AabbTree,
         plane::{Plane, PlaneOps},
         point::{Point, PointOps},
         segment::{Segment, SegmentOps},
@@ -41,8 +41,9 @@ use crate::{
             ContactOnTri, TriPrecomp, TriTriIntersectionDetailed, segment_intersect_2d,
             tri_tri_intersection_with_precomp_detailed,
         },
-        vector::{Cross2, Cross3, Vector, VectorOps, vector_cross},
+        vector::{Cross2, Cross3, Vector, VectorOps},
     },
+    kernel::predicates::{TrianglePoint, point_in_or_on_triangle},
     mesh::{
         basic_types::{Mesh, PointInMeshResult, VertexSource},
         intersection_segment::{IntersectionEndPoint, IntersectionSegment},
@@ -101,6 +102,17 @@ pub enum BooleanOp {
     Difference,
 }
 
+/// Where a face of one mesh lies relative to the solid bounded by the other.
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+enum FaceSide {
+    Inside,
+    Outside,
+    /// On its surface, facing the same way
+    OnSame,
+    /// On its surface, facing the other way
+    OnOpposite,
+}
+
 impl<T: Scalar, const N: usize> Mesh<T, N>
 where
     Point<T, N>: PointOps<T, N, Vector = Vector<T, N>>,
@@ -113,169 +125,118 @@ where
         + Neg<Output = T>,
 {
     fn classify_faces_3(
-        &mut self,
+        &self,
         other: &Mesh<T, N>,
         intersection_segments: &Vec<IntersectionSegment<T, N>>,
-        coplanar_triangles: &Vec<CoplanarTriangle>,
-        include_on_surface: bool,
-    ) -> Vec<bool> {
-        // build adjacency & boundary‐map
-        let tree_b = AabbTree::<T, N, _, _>::build(
-            (0..other.faces.len())
-                .map(|i| {
-                    let aabb_n = other.face_aabb(i);
-                    let min = aabb_n.min();
-                    let max = aabb_n.max();
-                    // Convert Aabb<T, N, Point<T, N>> to Aabb<T, 3, Point<T, 3>>
-                    let aabb3 = Aabb::<T, N, Point<T, N>>::from_points(
-                        &Point::<T, N>::from_vals(from_fn(|i| min[i].clone())),
-                        &Point::<T, N>::from_vals(from_fn(|i| max[i].clone())),
-                    );
-                    (aabb3, i)
-                })
-                .collect::<Vec<(Aabb<T, N, Point<T, N>>, usize)>>(),
-        );
-
-        let mut visited = vec![false; self.faces.len()];
-        let mut inside = vec![false; self.faces.len()];
-
-        // Non-coplanar intersections first.
-        if intersection_segments.is_empty() {
-            for f in 0..self.faces.len() {
-                if self.faces[f].removed {
-                    continue;
-                }
-                let c = self.face_centroid_fast(f);
-                match other.point_in_mesh_3(&tree_b, &c) {
-                    PointInMeshResult::Inside => inside[f] = true,
-                    PointInMeshResult::OnSurface if include_on_surface => inside[f] = true,
-                    _ => {}
-                }
-            }
-            return inside;
-        } else {
-            let mut boundary_faces = AHashSet::new();
-            for seg in intersection_segments {
-                let v0 = seg.a.resulting_vertex.unwrap();
-                let v1 = seg.b.resulting_vertex.unwrap();
-
-                if let Some(&he) = self.edge_map.get(&(v0, v1)) {
-                    if let Some(f0) = self.half_edges[he].face {
-                        boundary_faces.insert(f0);
-                    }
-                    if let Some(f1) = self.half_edges[self.half_edges[he].twin].face {
-                        boundary_faces.insert(f1);
-                    }
-                }
-            }
-
-            // 3) pick a seed face that lies inside B
-            let seed_result = Self::get_seed_face_3(
-                &self,
-                &other,
-                &tree_b,
-                intersection_segments,
-                &boundary_faces,
-                include_on_surface,
-            );
+    ) -> Vec<FaceSide>
+    where
+        Vector<T, 3>: Cross3<T>,
+    {
+        if other.faces.iter().all(|f| f.removed) {
+            return vec![FaceSide::Outside; self.faces.len()];
+        }
+        let tree_b = other.build_face_tree();
 
-            if seed_result.is_none() {
-                for (f, face) in self.faces.iter().enumerate() {
-                    if face.removed {
-                        continue;
-                    }
-                    let c = self.face_centroid_fast(f);
-                    match other.point_in_mesh_3(&tree_b, &c) {
-                        PointInMeshResult::Inside => inside[f] = true,
-                        PointInMeshResult::OnSurface if include_on_surface => inside[f] = true,
-                        _ => {}
-                    }
-                }
-                return inside;
+        // 1) faces on either side of a segment
+        let mut face_pairs: AHashMap<usize, Vec<usize>> = AHashMap::new();
+        for seg in intersection_segments {
+            if seg[0].resulting_vertex == seg[1].resulting_vertex {
+                continue; // degenerate segment
             }
+            let he = self
+                .edge_map
+                .get(&(
+                    seg.a.resulting_vertex.unwrap(),
+                    seg.b.resulting_vertex.unwrap(),
+                ))
+                .expect("Edge must exist in edge_map");
 
-            let (_seed_intersection_idx, selected_face) = seed_result.unwrap();
-
-            let mut face_pairs: AHashMap<usize, Vec<usize>> = AHashMap::new();
-            for seg_idx in 0..intersection_segments.len() {
-                let seg = &intersection_segments[seg_idx];
-                if seg[0].resulting_vertex == seg[1].resulting_vertex {
-                    continue; // degenerate segment
-                }
-                let he = self
-                    .edge_map
-                    .get(&(
-                        seg.a.resulting_vertex.unwrap(),
-                        seg.b.resulting_vertex.unwrap(),
-                    ))
-                    .expect("Edge must exist in edge_map");
-
-                let f0 = self.half_edges[*he]
-                    .face
-                    .expect("Half-edge must have a face");
-                let f1 = self.half_edges
-                    [self.find_valid_half_edge(self.half_edges[*he].twin, &seg.segment.b)]
+            let f0 = self.half_edges[*he]
                 .face
                 .expect("Half-edge must have a face");
+            let f1 = self.half_edges
+                [self.find_valid_half_edge(self.half_edges[*he].twin, &seg.segment.b)]
+            .face
+            .expect("Half-edge must have a face");
 
-                face_pairs.entry(f0).or_default().push(f1);
-                face_pairs.entry(f1).or_default().push(f0);
-            }
-
-            // 4) iterative flood‐fill without crossing the boundary_map
-            let mut queue = VecDeque::new();
+            face_pairs.entry(f0).or_default().push(f1);
+            face_pairs.entry(f1).or_default().push(f0);
+        }
 
-            // seed found as before
-            visited[selected_face] = true;
-            inside[selected_face] = true;
-            queue.push_back(selected_face);
-            let mut num_visited = 1;
+        // 2) flood‐fill each region without crossing the segments: it has one side
+        let mut visited = vec![false; self.faces.len()];
+        let mut sides = vec![FaceSide::Outside; self.faces.len()];
+        for start in 0..self.faces.len() {
+            if visited[start] || self.faces[start].removed {
+                continue;
+            }
+            let side = self.face_side(start, other, &tree_b);
+            let mut queue = VecDeque::from([start]);
+            visited[start] = true;
 
             while let Some(curr) = queue.pop_front() {
+                sides[curr] = side;
                 for nbr in self.adjacent_faces(curr) {
                     if visited[nbr] {
                         continue;
                     }
 
-                    let paired = face_pairs.get(&curr);
                     // skip exactly the neighbor that comes from the same segment split
-                    if let Some(pv) = paired {
+                    if let Some(pv) = face_pairs.get(&curr) {
                         if pv.iter().any(|&pf| pf == nbr) {
                             // this nbr is the other half of a segment splitting curr
                             continue;
                         }
                     }
 
-                    // otherwise, it's a genuine inside‐region adjacency
                     visited[nbr] = true;
-                    inside[nbr] = true;
-                    num_visited += 1;
                     queue.push_back(nbr);
                 }
             }
+        }
 
-            println!(
-                "Flood-fill visited {} faces out of {}",
-                num_visited,
-                self.faces.len()
-            );
+        sides
+    }
+
+    /// Where the inner part of face `f` lies relative to `other`.
+    fn face_side(
+        &self,
+        f: usize,
+        other: &Mesh<T, N>,
+        tree: &AabbTree<T, N, Point<T, N>, usize>,
+    ) -> FaceSide
+    where
+        Vector<T, 3>: Cross3<T>,
+    {
+        let centroid = self.face_centroid(f);
+        let p = Point::<T, N>::from_vals(from_fn(|i| centroid[i].clone()));
+        match other.point_in_mesh_3(tree, &p) {
+            PointInMeshResult::Inside => return FaceSide::Inside,
+            PointInMeshResult::Outside => return FaceSide::Outside,
+            PointInMeshResult::OnSurface => {}
         }
 
-        if include_on_surface {
-            // Now do co-planar intersections.
-            for triangle in coplanar_triangles {
-                let face = self.face_from_vertices(
-                    triangle.verts[0],
-                    triangle.verts[1],
-                    triangle.verts[2],
-                );
-                if face != usize::MAX {
-                    inside[face] = true;
-                }
+        // compare with the face of `other` that lies in the same plane
+        let n = self.face_normal(f);
+        let mut candidates = Vec::new();
+        tree.query(&self.face_aabb(f), &mut candidates);
+        for &&g in &candidates {
+            let m = other.face_normal(g);
+            let cr = n.cross(&m);
+            if !(0..3).all(|i| cr[i].is_zero()) {
+                continue;
+            }
+            let [a, b, c] = other.face_vertices(g).map(|v| &other.vertices[v].position);
+            let pa = (&p - a).as_vector_3();
+            if m.dot(&pa).is_zero() && point_in_or_on_triangle(&p, a, b, c) != TrianglePoint::Off {
+                return if n.dot(&m).is_positive() {
+                    FaceSide::OnSame
+                } else {
+                    FaceSide::OnOpposite
+                };
             }
         }
-
-        inside
+        FaceSide::Outside
     }
 
     fn classify_faces_2(
@@ -817,44 +778,36 @@ where
             vid_map.insert((VertexSource::A, i), ni);
         }
 
-        // Build chains
-        let start = Instant::now();
-        let mut a_coplanars = Self::build_links(&a, &mut intersection_segments_a);
-        let mut b_coplanars = Self::build_links(&b, &mut intersection_segments_b);
-        println!("Chains built in {:.2?}", start.elapsed());
-
         // Classify faces using topological method
         let start = Instant::now();
-        let a_classification = {
-            if N == 3 {
-                a.classify_faces_3(&b, &mut intersection_segments_a, &mut a_coplanars, true)
-            } else {
-                a.classify_faces_2(&b, &intersection_segments_a)
-            }
-        };
-
-        println!(
-            "A faces classified inside intersection loops in {:.2?}",
-            start.elapsed()
-        );
-
-        let inside = match op {
-            BooleanOp::Union => false,
-            BooleanOp::Intersection => true,
-            BooleanOp::Difference => false,
+        let (a_sides, b_sides) = if N == 3 {
+            (
+                a.classify_faces_3(&b, &intersection_segments_a),
+                b.classify_faces_3(&a, &intersection_segments_b),
+            )
+        } else {
+            let side = |inside| if inside { FaceSide::Inside } else { FaceSide::Outside };
+            let a_inside = a.classify_faces_2(&b, &intersection_segments_a);
+            let b_inside = b.classify_faces_2(&a, &intersection_segments_b);
+            (
+                a_inside.into_iter().map(side).collect(),
+                b_inside.into_iter().map(side).collect(),
+            )
         };
+        println!("Faces classified in {:.2?}", start.elapsed());
 
-        let include_on_surface = match op {
-            BooleanOp::Union => true,
-            BooleanOp::Intersection => true,
-            BooleanOp::Difference => false,
+        // Where the surfaces coincide, only A's faces are kept
+        let (keep_a, keep_b) = match op {
+            BooleanOp::Union => ([FaceSide::Outside, FaceSide::OnSame], FaceSide::Outside),
+            BooleanOp::Intersection => ([FaceSide::Inside, FaceSide::OnSame], FaceSide::Inside),
+            BooleanOp::Difference => ([FaceSide::Outside, FaceSide::OnOpposite], FaceSide::Inside),
         };
 
-        for (fa, fa_inside) in a_classification.iter().enumerate() {
+        for (fa, side) in a_sides.iter().enumerate() {
             if a.faces[fa].removed {
                 continue;
             }
-            if *fa_inside == inside {
+            if keep_a.contains(side) {
                 let vs = a.face_vertices(fa);
                 result.add_triangle(
                     vid_map[&(VertexSource::A, vs[0])],
@@ -864,108 +817,25 @@ where
             }
         }
 
-        // Handle B faces based on operation
-        match op {
-            BooleanOp::Union => {
-                // Add B vertices and classify B faces
-                for (i, v) in b.vertices.iter().enumerate() {
-                    let ni = result.add_vertex(v.position.clone());
-                    vid_map.insert((VertexSource::B, i), ni);
-                }
-
-                let b_classification = if N == 3 {
-                    b.classify_faces_3(
-                        &a,
-                        &mut intersection_segments_b,
-                        &mut b_coplanars,
-                        include_on_surface,
-                    )
-                } else {
-                    b.classify_faces_2(&a, &intersection_segments_b)
-                };
-
-                for (fb, inside) in b_classification.iter().enumerate() {
-                    if b.faces[fb].removed {
-                        continue;
-                    }
-                    if !*inside {
-                        let vs = b.face_vertices(fb);
-                        result.add_triangle(
-                            vid_map[&(VertexSource::B, vs[0])],
-                            vid_map[&(VertexSource::B, vs[1])],
-                            vid_map[&(VertexSource::B, vs[2])],
-                        );
-                    }
-                }
-            }
-            BooleanOp::Intersection => {
-                // Similar to Union but with intersection logic
-                for (i, v) in b.vertices.iter().enumerate() {
-                    let ni = result.add_vertex(v.position.clone());
-                    vid_map.insert((VertexSource::B, i), ni);
-                }
+        for (i, v) in b.vertices.iter().enumerate() {
+            let ni = result.add_vertex(v.position.clone());
+            vid_map.insert((VertexSource::B, i), ni);
+        }
 
-                let b_classification = if N == 3 {
-                    b.classify_faces_3(
-                        &a,
-                        &mut intersection_segments_b,
-                        &mut b_coplanars,
-                        include_on_surface,
-                    )
-                } else {
-                    b.classify_faces_2(&a, &intersection_segments_b)
-                };
-                for (fb, inside) in b_classification.iter().enumerate() {
-                    if b.faces[fb].removed {
-                        continue;
-                    }
-                    if *inside {
-                        let vs = b.face_vertices(fb);
-                        result.add_triangle(
-                            vid_map[&(VertexSource::B, vs[0])],
-                            vid_map[&(VertexSource::B, vs[1])],
-                            vid_map[&(VertexSource::B, vs[2])],
-                        );
-                    }
-                }
+        for (fb, side) in b_sides.iter().enumerate() {
+            if b.faces[fb].removed {
+                continue;
             }
-            BooleanOp::Difference => {
-                // Add B vertices and flip B faces that are inside A
-                for (i, v) in b.vertices.iter().enumerate() {
-                    let ni = result.add_vertex(v.position.clone());
-                    vid_map.insert((VertexSource::B, i), ni);
+            if *side == keep_b {
+                let mut vs = b.face_vertices(fb);
+                if op == BooleanOp::Difference {
+                    // Flip face orientation for caps
+                    vs.reverse();
                 }
-
-                let start = Instant::now();
-                let b_classification = if N == 3 {
-                    b.classify_faces_3(
-                        &a,
-                        &mut intersection_segments_b,
-                        &mut b_coplanars,
-                        include_on_surface,
-                    )
-                } else {
-                    b.classify_faces_2(&a, &intersection_segments_b)
-                };
-
-                println!("B CLASSIFICATION:");
-                for (fb, inside) in b_classification.iter().enumerate() {
-                    if b.faces[fb].removed {
-                        continue;
-                    }
-                    if *inside {
-                        let vs = b.face_vertices(fb);
-                        // Flip face orientation for caps
-                        result.add_triangle(
-                            vid_map[&(VertexSource::B, vs[2])],
-                            vid_map[&(VertexSource::B, vs[1])],
-                            vid_map[&(VertexSource::B, vs[0])],
-                        );
-                    }
-                }
-                println!(
-                    "B faces classified inside intersection loops in {:.2?}",
-                    start.elapsed()
+                result.add_triangle(
+                    vid_map[&(VertexSource::B, vs[0])],
+                    vid_map[&(VertexSource::B, vs[1])],
+                    vid_map[&(VertexSource::B, vs[2])],
                 );
             }
         }
@@ -983,183 +853,6 @@ where
         result
     }
 
-    /// Build clean links between "intersection_segments" in-place. Removing coplanars from the collection.
-    /// Returns a separate vector of vectors of intersections that are coplanar and form graphs.
-    /// The coplanar segments are grouped by a shared plane.
-    fn build_links(
-        mesh: &Mesh<T, N>,
-        intersection_segments: &mut Vec<IntersectionSegment<T, N>>,
-    ) -> Vec<CoplanarTriangle> {
-        if intersection_segments.is_empty() {
-            return Vec::new();
-        }
-
-        if N == 2 {
-            let mut vertex_to_segments: AHashMap<usize, Vec<usize>> = AHashMap::new();
-
-            for (seg_idx, seg) in intersection_segments.iter().enumerate() {
-                let [v0, v1] = [
-                    seg.a.resulting_vertex.unwrap(),
-                    seg.b.resulting_vertex.unwrap(),
-                ];
-                vertex_to_segments.entry(v0).or_default().push(seg_idx);
-                vertex_to_segments.entry(v1).or_default().push(seg_idx);
-            }
-
-            for (seg_idx, seg) in intersection_segments.iter_mut().enumerate() {
-                let [v0, v1] = [
-                    seg.a.resulting_vertex.unwrap(),
-                    seg.b.resulting_vertex.unwrap(),
-                ];
-                let mut connected_segments = AHashSet::new();
-
-                if let Some(segments) = vertex_to_segments.get(&v0) {
-                    for &other_idx in segments {
-                        if other_idx != seg_idx {
-                            connected_segments.insert(other_idx);
-                        }
-                    }
-                }
-                if let Some(segments) = vertex_to_segments.get(&v1) {
-                    for &other_idx in segments {
-                        if other_idx != seg_idx {
-                            connected_segments.insert(other_idx);
-                        }
-                    }
-                }
-
-                seg.links.extend(connected_segments);
-            }
-
-            return Vec::new();
-        }
-
-        // First let's drain the coplanar segments into a separate structure
-        let mut coplanar_groups: AHashMap<Plane<T, N>, Vec<IntersectionSegment<T, N>>> =
-            AHashMap::new();
-
-        println!(
-            "intersection_segments.len() = {}",
-            intersection_segments.len()
-        );
-        let mut i = 0;
-        while i < intersection_segments.len() {
-            if intersection_segments[i].coplanar {
-                let seg = intersection_segments.remove(i);
-                let edge = mesh.edge_map.get(&(
-                    seg.a.resulting_vertex.unwrap(),
-                    seg.b.resulting_vertex.unwrap(),
-                ));
-                if let Some(half_edge) = edge {
-                    if let Some(face_0) = mesh.half_edges[*half_edge].face {
-                        let plane_key = mesh.plane_from_face(face_0).canonicalized();
-                        coplanar_groups
-                            .entry(plane_key)
-                            .or_default()
-                            .push(seg.clone());
-                    }
-                    if let Some(face_1) = mesh.half_edges[mesh.half_edges[*half_edge].twin].face {
-                        let plane_key = mesh.plane_from_face(face_1).canonicalized();
-                        coplanar_groups.entry(plane_key).or_default().push(seg);
-                    }
-                }
-            } else {
-                i += 1;
-            }
-        }
-        println!(
-            "intersection_segments.len() = {}",
-            intersection_segments.len()
-        );
-
-        let mut vertex_to_segments: AHashMap<usize, Vec<usize>> = AHashMap::new();
-
-        for (seg_idx, seg) in intersection_segments.iter().enumerate() {
-            let [v0, v1] = [
-                seg.a.resulting_vertex.unwrap(),
-                seg.b.resulting_vertex.unwrap(),
-            ];
-            vertex_to_segments.entry(v0).or_default().push(seg_idx);
-            vertex_to_segments.entry(v1).or_default().push(seg_idx);
-        }
-
-        // === NON-COPLANAR SEGMENTS: Build double-linked structure ===
-        for (seg_idx, seg) in intersection_segments.iter_mut().enumerate() {
-            let [v0, v1] = [
-                seg.a.resulting_vertex.unwrap(),
-                seg.b.resulting_vertex.unwrap(),
-            ];
-            let mut connected_segments = AHashSet::new();
-
-            if let Some(segments) = vertex_to_segments.get(&v0) {
-                for &other_idx in segments {
-                    if other_idx != seg_idx {
-                        connected_segments.insert(other_idx);
-                    }
-                }
-            }
-            if let Some(segments) = vertex_to_segments.get(&v1) {
-                for &other_idx in segments {
-                    if other_idx != seg_idx {
-                        connected_segments.insert(other_idx);
-                    }
-                }
-            }
-
-            let mut links: Vec<usize> = connected_segments.into_iter().collect();
-            links.sort_unstable();
-
-            seg.links.extend_from_slice(&links);
-        }
-
-        let mut triangles_per_group: Vec<CoplanarTriangle> = Vec::new();
-        for (_plane, group) in &coplanar_groups {
-            if group.len() >= 3 {
-                let triangles = extract_triangles_in_group(mesh, group);
-                triangles_per_group.extend(triangles);
-            }
-        }
-
-        // panic!("testing");
-
-        triangles_per_group
-    }
-
-    fn get_seed_face_3(
-        a: &Mesh<T, N>,
-        b: &Mesh<T, N>,
-        tree_b: &AabbTree<T, N, Point<T, N>, usize>,
-        intersection_segments: &Vec<IntersectionSegment<T, N>>,
-        boundary_faces: &AHashSet<usize>,
-        include_on_surface: bool,
-    ) -> Option<(usize, usize)> {
-        for (seg_idx, seg) in intersection_segments.iter().enumerate() {
-            let v0 = seg.a.resulting_vertex.unwrap();
-            let v1 = seg.b.resulting_vertex.unwrap();
-
-            if let Some(&he) = a.edge_map.get(&(v0, v1)) {
-                for &face_id in &[
-                    a.half_edges[he].face,
-                    a.half_edges[a.half_edges[he].twin].face,
-                ] {
-                    if let Some(f) = face_id {
-                        if boundary_faces.contains(&f) {
-                            let centroid = a.face_centroid_fast(f);
-                            match b.point_in_mesh_3(tree_b, &centroid) {
-                                PointInMeshResult::Inside => return Some((seg_idx, f)),
-                                PointInMeshResult::OnSurface if include_on_surface => {
-                                    return Some((seg_idx, f));
-                                }
-                                _ => {}
-                            }
-                        }
-                    }
-                }
-            }
-        }
-        None
-    }
-
     fn get_seed_face_2(
         a: &Mesh<T, N>,
         b: &Mesh<T, N>,
@@ -1280,101 +973,10 @@ pub fn remove_duplicate_and_invalid_segments<T: Scalar + Eq + Hash, const N: usi
     }
 }
 
-#[derive(Debug, Clone, Copy)]
-pub struct CoplanarTriangle {
-    verts: [usize; 3], // (a,b,c) with a<b<c
-}
-
 fn ordered(a: usize, b: usize) -> (usize, usize) {
     if a < b { (a, b) } else { (b, a) }
 }
 
-fn extract_triangles_in_group<T: Scalar, const N: usize>(
-    mesh: &Mesh<T, N>,
-    group: &[IntersectionSegment<T, N>],
-) -> Vec<CoplanarTriangle>
-where
-    Point<T, N>: PointOps<T, N, Vector = Vector<T, N>>,
-    Vector<T, N>: VectorOps<T, N>,
-    for<'a> &'a T: Sub<&'a T, Output = T>
-        + Mul<&'a T, Output = T>
-        + Add<&'a T, Output = T>
-        + Div<&'a T, Output = T>,
-{
-    // 1) adjacency and one seg index per undirected edge
-    let mut adj: AHashMap<usize, AHashSet<usize>> = AHashMap::new();
-    let mut edge_to_seg: AHashMap<(usize, usize), usize> = AHashMap::new();
-
-    for (ei, seg) in group.iter().enumerate() {
-        let [v0, v1] = [
-            seg.a.resulting_vertex.unwrap(),
-            seg.b.resulting_vertex.unwrap(),
-        ];
-        adj.entry(v0).or_default().insert(v1);
-        adj.entry(v1).or_default().insert(v0);
-        edge_to_seg.entry(ordered(v0, v1)).or_insert(ei);
-    }
-
-    // quick accessor for point coords
-    let get_p = |i: usize| &mesh.vertices[i].position;
-
-    // 2) enumerate unique triangles a<b<c s.t. (a,b), (a,c), (b,c) are edges
-    let mut verts: Vec<usize> = adj.keys().copied().collect();
-    verts.sort_unstable();
-
-    let mut out = Vec::new();
-
-    for (_, &a) in verts.iter().enumerate() {
-        // neighbors of a
-        let mut na: Vec<usize> = adj[&a].iter().copied().collect();
-        na.sort_unstable();
-
-        for (bi, &b) in na.iter().enumerate() {
-            if b <= a {
-                continue;
-            }
-
-            // candidates c are neighbors of a with c>b
-            for &c in na.iter().skip(bi + 1) {
-                if c <= b {
-                    continue;
-                }
-
-                // edge (b,c) must exist to close the triangle
-                if !adj.get(&b).map_or(false, |nb| nb.contains(&c)) {
-                    continue;
-                }
-
-                // 3) reject collinear (degenerate) triangles
-                let ab = (get_p(b) - get_p(a)).as_vector();
-                let ac = (get_p(c) - get_p(a)).as_vector();
-
-                let cr = vector_cross(&ab, &ac);
-
-                let area2 = cr.dot(&cr); // squared area
-                if area2 == T::zero() {
-                    // exact-zero ok for rationals
-                    continue;
-                }
-
-                // 4) pick one segment index per edge
-                let e_ab = *edge_to_seg.get(&ordered(a, b)).unwrap();
-                let e_bc = *edge_to_seg.get(&ordered(b, c)).unwrap();
-                let e_ca = *edge_to_seg.get(&ordered(c, a)).unwrap();
-
-                // (paranoia) ensure distinct segment indices
-                if e_ab == e_bc || e_bc == e_ca || e_ab == e_ca {
-                    continue;
-                }
-
-                out.push(CoplanarTriangle { verts: [a, b, c] });
-            }
-        }
-    }
-
-    out
-}
-
 #[inline(always)]
 fn bucket_u(u: f64, eps: f64) -> i64 {
     // Quantize to tolerance-sized bins
-- 
2.43.0


From 16c57c3e3784d457c7cf68fbc5814986b99261ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:07 +0000
Subject: [PATCH 38/53] fix: hash positions far below zero without overflow

---
 src/mesh/spatial_hash.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh/spatial_hash.rs b/src/mesh/spatial_hash.rs
index 51611b6..a72407a 100644
--- a/src/mesh/spatial_hash.rs
+++ b/src/mesh/spatial_hash.rs
@@ -38,9 +38,9 @@ impl_mesh! {
 
     #[inline(always)]
     fn floor_sat_i64(x: f64) -> i64 {
-        if !x.is_finite() { return if x.is_sign_positive() { i64::MAX } else { i64::MIN }; }
+        // saturate one short of the ends, so that the neighboring cells have keys as well
         let i = x as i64;
-        i - ((i as f64 > x) as i64)
+        i.saturating_sub((i as f64 > x) as i64).clamp(i64::MIN + 1, i64::MAX - 1)
     }
 
     #[inline(always)]
-- 
2.43.0


From daa8d61a214ad9523c44300359892a673735096d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:07 +0000
Subject: [PATCH 39/53] fix: report malformed OBJ lines as errors instead of
 panicking

---
 src/io/obj.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/io/obj.rs b/src/io/obj.rs
index cd6fe3e..fccbddd 100644
--- a/src/io/obj.rs
+++ b/src/io/obj.rs
@@ -93,8 +93,11 @@ where
     let file = File::open(path)?;
     let reader = BufReader::new(file);
 
+    fn bad(what: &str, line: &str) -> io::Error {
+        io::Error::new(io::ErrorKind::InvalidData, format!("OBJ: {what} in '{line}'"))
+    }
+
     let mut mesh = Mesh::new();
-    let mut vertex_map = Vec::new();
 
     for line in reader.lines() {
         let l = line?;
@@ -102,17 +105,23 @@ where
         match parts.next() {
             Some("v") => {
                 // parse three floats
-                let x: f64 = parts.next().unwrap().parse().unwrap();
-                let y: f64 = parts.next().unwrap().parse().unwrap();
-                let z: f64 = parts.next().unwrap().parse().unwrap();
-                let vid = mesh.add_vertex(Point3::<T>::from_vals([x, y, z]));
-                vertex_map.push(vid);
+                let mut coord = || {
+                    let x = parts.next().and_then(|s| s.parse::<f64>().ok());
+                    x.filter(|x| x.is_finite())
+                        .ok_or_else(|| bad("missing or bad coordinate", &l))
+                };
+                let (x, y, z) = (coord()?, coord()?, coord()?);
+                mesh.add_vertex(Point3::<T>::from_vals([x, y, z]));
             }
             Some("f") => {
                 // parse three vertex indices (1-based OBJ)
-                let i: usize = parts.next().unwrap().parse().unwrap();
-                let j: usize = parts.next().unwrap().parse().unwrap();
-                let k: usize = parts.next().unwrap().parse().unwrap();
+                let vertices = 1..=mesh.vertices.len();
+                let mut index = || {
+                    let i = parts.next().and_then(|s| s.parse::<usize>().ok());
+                    i.filter(|i| vertices.contains(i))
+                        .ok_or_else(|| bad("missing or bad vertex index", &l))
+                };
+                let (i, j, k) = (index()?, index()?, index()?);
                 // subtract 1 for zero-based
                 mesh.add_triangle(i - 1, j - 1, k - 1);
             }
-- 
2.43.0


From 78f10ad33f0939753165cafe750a38d5a94484f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:15 +0000
Subject: [PATCH 40/53] fix: refuse OFF and STL files with indices out of range
 or coordinates that are not finite

---
 src/io/off.rs | 16 +++++++++++++++-
 src/io/stl.rs |  6 ++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/io/off.rs b/src/io/off.rs
index 7509a44..228af69 100644
--- a/src/io/off.rs
+++ b/src/io/off.rs
@@ -189,6 +189,12 @@ where
             })?
             .parse()
             .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "OFF: bad vertex z"))?;
+        if ![x, y, z].iter().all(|c| c.is_finite()) {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "OFF: vertex is not finite",
+            ));
+        }
 
         // Assuming Point3::<T>::from_vals accepts f64s as in your OBJ reader
         let _vid = mesh.add_vertex(Point::<T, 3>::from_vals([x, y, z]));
@@ -230,11 +236,19 @@ where
                 })?
                 .parse()
                 .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "OFF: bad index c"))?;
+            if [a, b, c].iter().any(|&i| i >= vcount) {
+                return Err(io::Error::new(
+                    io::ErrorKind::InvalidData,
+                    "OFF: face index out of range",
+                ));
+            }
             mesh.add_triangle(a, b, c);
         } else {
             // Skip non-triangle indices
             for _ in 0..poly_size {
-                let _ = it.next(); // discard
+                it.next().ok_or_else(|| {
+                    io::Error::new(io::ErrorKind::InvalidData, "OFF: incomplete face")
+                })?; // discard
             }
         }
     }
diff --git a/src/io/stl.rs b/src/io/stl.rs
index 4a5b6b5..91d6973 100644
--- a/src/io/stl.rs
+++ b/src/io/stl.rs
@@ -172,6 +172,12 @@ where
                     })?
                     .parse()
                     .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "STL: bad vertex z"))?;
+                if ![x, y, z].iter().all(|c| c.is_finite()) {
+                    return Err(io::Error::new(
+                        io::ErrorKind::InvalidData,
+                        "STL: vertex is not finite",
+                    ));
+                }
 
                 let vid = mesh.add_vertex(Point::<T, 3>::from_vals([x, y, z]));
                 vertices.push(vid);
-- 
2.43.0


From a9dda9238bcf377485c9090b567de915545b4acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:15 +0000
Subject: [PATCH 41/53] fix: keep vertex lookup in step when smoothing

---
 src/mesh/core.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index 368c659..3f96ae5 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -1396,9 +1396,7 @@ impl_mesh! {
         // ...existing degeneracy check...
 
         // Commit new position
-        self.vertices[v].position[0] = axp;
-        self.vertices[v].position[1] = ayp;
-        self.vertices[v].position[2] = azp;
+        self.move_vertex(v, new_pos);
 
         true
     }
-- 
2.43.0


From 6ca0a80d78735901abad0305f9e0a79c6174fbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:15 +0000
Subject: [PATCH 42/53] fix: do not fold triangles over when flipping edges in
 remeshing

---
 src/mesh_processing/remesh.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mesh_processing/remesh.rs b/src/mesh_processing/remesh.rs
index f09f11b..b1c5598 100644
--- a/src/mesh_processing/remesh.rs
+++ b/src/mesh_processing/remesh.rs
@@ -243,6 +243,16 @@ impl_mesh! {
             let z  = n.norm2();
             z > T::zero()
         };
+
+        // Fold-over guard: both new triangles must face the way the old pair does
+        let normal = |p0: &Point::<T, N>, p1: &Point::<T, N>, p2: &Point::<T, N>| {
+            (p1 - p0).as_vector().cross(&(p2 - p0).as_vector())
+        };
+        let n_old = &normal(pa, pb, pc) + &normal(pb, pa, pd);
+        if !n_old.dot(&normal(pa, pd, pc)).is_positive() || !n_old.dot(&normal(pb, pc, pd)).is_positive() {
+            return false;
+        }
+
         area_safe(&pa,&pb,&pc) &&
         area_safe(&pb,&pa,&pd) &&
         area_safe(&pa,&pc,&pd) &&
-- 
2.43.0


From 76ff08bd1a55df818dea21ae19e391b7d0f180e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:15 +0000
Subject: [PATCH 43/53] fix: give the same remeshing result on every run

---
 src/mesh_processing/remesh.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mesh_processing/remesh.rs b/src/mesh_processing/remesh.rs
index b1c5598..04c88f8 100644
--- a/src/mesh_processing/remesh.rs
+++ b/src/mesh_processing/remesh.rs
@@ -20,6 +20,8 @@
 // OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
 // SOFTWARE.
 
+use std::collections::BTreeSet;
+
 use crate::{
     geometry::{
         point::{Point, PointOps},
@@ -378,8 +380,8 @@ impl_mesh! {
         for<'a> &'a T: std::ops::Mul<&'a T, Output = T>
     {
         let thresh2 = collapse_len * collapse_len;
-        use ahash::AHashSet;
-        let mut set: AHashSet<(usize,usize)> = AHashSet::with_capacity(self.half_edges.len()/8);
+        // Ordered, so that the same mesh always gives the same result
+        let mut set: BTreeSet<(usize,usize)> = BTreeSet::new();
 
         for h in 0..self.half_edges.len() {
             let he = &self.half_edges[h];
-- 
2.43.0


From 4b661860174a0977dd48ccde48bc8fae4661d424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:35:03 +0000
Subject: [PATCH 44/53] fix: measure the parameter along an edge in every
 dimension

---
 src/geometry/canonical_edge.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/geometry/canonical_edge.rs b/src/geometry/canonical_edge.rs
index ea7fa15..dbbd920 100644
--- a/src/geometry/canonical_edge.rs
+++ b/src/geometry/canonical_edge.rs
@@ -56,13 +56,16 @@ impl<T: Scalar, const N: usize> CanonicalEdge<T, N> {
         let edge_vec = &self.b - &self.a;
         let point_vec = p - &self.a;
 
-        let edge_len2 = &(&edge_vec[0] * &edge_vec[0]) + &(&edge_vec[1] * &edge_vec[1]);
+        let dot = |u: &Point<T, N>, v: &Point<T, N>| {
+            (0..N).fold(T::zero(), |sum, i| &sum + &(&u[i] * &v[i]))
+        };
+
+        let edge_len2 = dot(&edge_vec, &edge_vec);
 
         if edge_len2.is_zero() {
             return T::zero();
         }
 
-        let dot = &(&point_vec[0] * &edge_vec[0]) + &(&point_vec[1] * &edge_vec[1]);
-        dot / edge_len2
+        dot(&point_vec, &edge_vec) / edge_len2
     }
 }
-- 
2.43.0


From e8b3eabc9ad3478b9c8f0132812f50bcb6b4bcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:35:03 +0000
Subject: [PATCH 45/53] fix: merge duplicate vertices at very large coordinates
 without overflow

---
 src/mesh/core.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index 3f96ae5..d1e8349 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -273,7 +273,7 @@ impl_mesh! {
             // Equal positions may be approximated on either side of a cell border
             let (kx, ky, kz) = self.position_to_hash_key(&vertex.position);
             let canonical = (0..27).find_map(|i| {
-                let key = Self::pack_key3(kx + i % 3 - 1, ky + i / 3 % 3 - 1, kz + i / 9 - 1);
+                let key = Self::pack_key3(kx + (i % 3 - 1), ky + (i / 3 % 3 - 1), kz + (i / 9 - 1));
                 let group = spatial_groups.get(&key)?;
                 group
                     .iter()
-- 
2.43.0


From a2e08273ed3cdc2d10ce0bcb6440db802a582898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:35:03 +0000
Subject: [PATCH 46/53] fix: cast rays past the far end of the mesh, however
 large it is

---
 src/geometry/aabb_tree.rs |  2 +-
 src/mesh/topology.rs      | 17 ++++++++++++-----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/geometry/aabb_tree.rs b/src/geometry/aabb_tree.rs
index 89e1f25..f489dbe 100644
--- a/src/geometry/aabb_tree.rs
+++ b/src/geometry/aabb_tree.rs
@@ -142,7 +142,7 @@ where
     }
 
     /// Get AABB of this node/leaf
-    fn aabb(&self) -> &Aabb<T, N, P> {
+    pub(crate) fn aabb(&self) -> &Aabb<T, N, P> {
         match self {
             AabbTree::Leaf { aabb, .. } => aabb,
             AabbTree::Node { aabb, .. } => aabb,
diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index e2d01db..87fc1d8 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -675,11 +675,18 @@ impl_mesh! {
     {
         let mut hits = Vec::new();
 
-        let far_multiplier = T::from(10e6); // 10 km in mm units
-        let far_point = Point::<T, N>::from_vals(std::array::from_fn(|i| {
-            &p[i] + &(&dir[i] * &far_multiplier)
-        }));
-        let ray_aabb = Aabb::<T, N, Point<T, N>>::from_points(p, &far_point);
+        // Reach past everything in the tree, however far away and whatever the length of `dir`
+        let bounds = tree.aabb();
+        let zero = T::zero();
+        let reach = |i: usize, ahead: bool| {
+            let b = if ahead { &bounds.max()[i] } else { &bounds.min()[i] };
+            let away = if ahead { dir[i].is_negative() } else { dir[i].is_positive() };
+            if away || dir[i] == zero || (b < &p[i]) == ahead { p[i].clone() } else { b.clone() }
+        };
+        let ray_aabb = Aabb::<T, N, Point<T, N>>::from_points(
+            &Point::<T, N>::from_vals(std::array::from_fn(|i| reach(i, false))),
+            &Point::<T, N>::from_vals(std::array::from_fn(|i| reach(i, true))),
+        );
 
         let mut candidate_faces = Vec::new();
         tree.query_valid(&ray_aabb, &mut candidate_faces);
-- 
2.43.0


From 93490094722e653f328056c7e6a20eae4a0f003f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:35:03 +0000
Subject: [PATCH 47/53] fix: convert rationals to integers without going
 through a double

---
 src/numeric/cgar_rational.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/numeric/cgar_rational.rs b/src/numeric/cgar_rational.rs
index 7d9c4f6..d861d95 100644
--- a/src/numeric/cgar_rational.rs
+++ b/src/numeric/cgar_rational.rs
@@ -254,10 +254,10 @@ impl From<LazyExact> for CgarRational {
 
 impl ToPrimitive for CgarRational {
     fn to_i64(&self) -> Option<i64> {
-        Some(self.0.to_f64() as i64)
+        rug::Integer::from(self.0.trunc_ref()).to_i64()
     }
     fn to_u64(&self) -> Option<u64> {
-        Some(self.0.to_f64() as u64)
+        rug::Integer::from(self.0.trunc_ref()).to_u64()
     }
     fn to_f32(&self) -> Option<f32> {
         Some(self.0.to_f64() as f32)
-- 
2.43.0


From a45c25c1549b5090b33972fa4ffe15b1adaf69a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:35:12 +0000
Subject: [PATCH 48/53] fix: keep far apart cut points distinct when their
 coordinates are very large

---
 src/mesh_processing/boolean.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mesh_processing/boolean.rs b/src/mesh_processing/boolean.rs
index 920c12b..398df9b 100644
--- a/src/mesh_processing/boolean.rs
+++ b/src/mesh_processing/boolean.rs
@@ -73,7 +73,13 @@ pub fn point_key<T: Scalar, const N: usize>(p: &Point<T, N>) -> ApproxPointKey {
     // Read coords via approx, then quantize
     let q = |i: usize| -> i64 {
         let ai: CgarF64 = (&p[i]).ref_into();
-        (ai.0 * s).round() as i64
+        let v = (ai.0 * s).round();
+        if v.abs() < (1u64 << 53) as f64 {
+            v as i64
+        } else {
+            // too far out to quantize: as an integer these would all saturate
+            v.to_bits() as i64
+        }
     };
 
     ApproxPointKey {
-- 
2.43.0


From bfffdd152eaf58229e18533d926461dd4be30024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:35:12 +0000
Subject: [PATCH 49/53] fix: intersect meshes whose border edges are crossed

---
 src/mesh_processing/boolean.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh_processing/boolean.rs b/src/mesh_processing/boolean.rs
index 398df9b..3044c56 100644
--- a/src/mesh_processing/boolean.rs
+++ b/src/mesh_processing/boolean.rs
@@ -437,7 +437,7 @@ where
                                     let f2 = meshes[mesh_x].half_edges
                                         [meshes[mesh_x].half_edges[he].twin]
                                         .face
-                                        .unwrap();
+                                        .unwrap_or(usize::MAX);
 
                                     intersection_endpoints[end_x].faces_hint = Some([f1, f2]);
                                     intersection_endpoints[end_x].half_edge_hint = Some(he);
-- 
2.43.0


From ff2eb8d690829b9ae7ea043aff7695e768b0456a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:35:12 +0000
Subject: [PATCH 50/53] fix: intersect planar meshes from which faces were
 removed

---
 src/mesh_processing/boolean.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mesh_processing/boolean.rs b/src/mesh_processing/boolean.rs
index 3044c56..3a8318a 100644
--- a/src/mesh_processing/boolean.rs
+++ b/src/mesh_processing/boolean.rs
@@ -473,6 +473,9 @@ where
         Vec<IntersectionSegment<T, N>>,
         Vec<IntersectionSegment<T, N>>,
     ) {
+        if other.faces.iter().all(|f| f.removed) {
+            return (Vec::new(), Vec::new());
+        }
         let tree_b = other.build_face_tree();
         let mut intersection_segments_a = Vec::new();
         let mut intersection_segments_b = Vec::new();
@@ -488,6 +491,9 @@ where
         let one = T::one();
 
         for fa in 0..self.faces.len() {
+            if self.faces[fa].removed {
+                continue;
+            }
             candidates.clear();
             tree_b.query(&self.face_aabb(fa), &mut candidates);
 
-- 
2.43.0


From d69cd500601c1a5d788ad2cf713c0560c97bdd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:36:57 +0000
Subject: [PATCH 51/53] fix: dividing an exact zero by zero no longer gives
 zero

---
 src/numeric/lazy_exact.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numeric/lazy_exact.rs b/src/numeric/lazy_exact.rs
index 42a09d1..e558e23 100644
--- a/src/numeric/lazy_exact.rs
+++ b/src/numeric/lazy_exact.rs
@@ -601,7 +601,7 @@ impl LazyExact {
                 }
             }
             Div(a, b) => {
-                if a.is_exact_zero() {
+                if a.is_exact_zero() && !b.is_zero() {
                     return Kind::LeafExact(Arc::new(CgarRational::from(0)));
                 }
                 if b.is_exact_one() {
-- 
2.43.0


From 169715dad2d535bf4720c5983aba7cfaec4d37e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:24:53 +0000
Subject: [PATCH 52/53] fix: box faces whose coordinates are beyond the range
 of doubles

---
 src/mesh/core.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index d1e8349..a8b1a8a 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -1443,7 +1443,7 @@ where
     // A rounded coordinate would give a box that does not enclose the triangle
     for i in 0..N {
         for (c, p) in coords.iter().zip([p0, p1, p2]) {
-            if T::from(c[i]) != p[i] {
+            if !c[i].is_finite() || T::from(c[i]) != p[i] {
                 return None;
             }
         }
-- 
2.43.0


From 84eb3ec747401092b49b9469df653c8272fdb00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:24:53 +0000
Subject: [PATCH 53/53] fix: orient2d of exact points beyond the range of
 doubles

---
 src/kernel/predicates.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/predicates.rs b/src/kernel/predicates.rs
index f108171..ab81a3e 100755
--- a/src/kernel/predicates.rs
+++ b/src/kernel/predicates.rs
@@ -461,7 +461,7 @@ where
     };
 
     if let Some(det_approx) = det.as_f64_fast() {
-        if det_approx.abs() <= scale_approx {
+        if scale_approx.is_finite() && det_approx.abs() <= scale_approx {
             T::zero()
         } else {
             det
-- 
2.43.0

