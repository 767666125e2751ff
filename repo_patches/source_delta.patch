From 6827eea27171db12b2ae85e0ec9f9823213b4600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 01/12] fix: AxisTransform2d::inverse must divide the position
 by the scale

---
 src/col2d/transformation2d/axis_transform2d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/col2d/transformation2d/axis_transform2d.rs b/src/col2d/transformation2d/axis_transform2d.rs
index e5dd49e..2012b0f 100644
--- a/src/col2d/transformation2d/axis_transform2d.rs
+++ b/src/col2d/transformation2d/axis_transform2d.rs
@@ -41,7 +41,7 @@ impl Transformation2d for AxisTransform2d {
 impl Invertible for AxisTransform2d {
     fn inverse(&self) -> Self {
         Self {
-            pos: -self.pos,
+            pos: -self.pos / self.scale,
             scale: 1.0 / self.scale,
         }
     }
-- 
2.43.0


From cbb61b764a533cca721594a396cf274e3f389e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 02/12] fix: Rect2i32::pad must grow the rectangle on both
 sides

---
 src/utils/rect2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/rect2.rs b/src/utils/rect2.rs
index 9037e88..77455f5 100644
--- a/src/utils/rect2.rs
+++ b/src/utils/rect2.rs
@@ -14,7 +14,7 @@ impl Rect2i32 {
     pub fn pad(self, padding: V2i32) -> Self {
         Self {
             min: self.min - padding,
-            max: self.max - padding,
+            max: self.max + padding,
         }
     }
 
-- 
2.43.0


From b48b1b8a534a8fe80ae42f7e931001ff94381092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 03/12] fix: a NaN vector is not approximately equal to zero

---
 src/utils/approx.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/utils/approx.rs b/src/utils/approx.rs
index f35f834..9408596 100644
--- a/src/utils/approx.rs
+++ b/src/utils/approx.rs
@@ -37,15 +37,16 @@ impl Approx for f32 {
 
 impl Approx for Vec2 {
     fn approx_eq_tolerance(&self, other: &Self, tolerance: f32) -> bool {
+        let error = *self - *other;
+        if error.x.is_nan() || error.y.is_nan() {
+            return false;
+        }
+
         let magn_sq = self.length_squared().max(other.length_squared());
         if magn_sq == 0.0 {
             return true;
         }
 
-        let error = *self - *other;
-        if error.x.is_nan() || error.y.is_nan() {
-            return false;
-        }
         if error.x.is_infinite() || error.y.is_infinite() {
             // @note(lubo): we can be more lenient here when the need arises
             return self == other;
@@ -73,15 +74,16 @@ impl Approx for Vec2 {
 
 impl Approx for Vec3 {
     fn approx_eq_tolerance(&self, other: &Self, tolerance: f32) -> bool {
+        let error = *self - *other;
+        if error.x.is_nan() || error.y.is_nan() || error.z.is_nan() {
+            return false;
+        }
+
         let magn_sq = self.length_squared().max(other.length_squared());
         if magn_sq == 0.0 {
             return true;
         }
 
-        let error = *self - *other;
-        if error.x.is_nan() || error.y.is_nan() || error.z.is_nan() {
-            return false;
-        }
         if error.x.is_infinite() || error.y.is_infinite() || error.z.is_infinite() {
             // @note(lubo): we can be more lenient here when the need arises
             return self == other;
-- 
2.43.0


From 822269e06a42c394de60beb41d788064d11a6c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 04/12] fix: signed distance between a box and a ball

---
 src/col2d/shape/box2d/v_ball.rs | 19 +------------------
 1 file changed, 1 insertion(+), 18 deletions(-)

diff --git a/src/col2d/shape/box2d/v_ball.rs b/src/col2d/shape/box2d/v_ball.rs
index 575c54d..45e238d 100644
--- a/src/col2d/shape/box2d/v_ball.rs
+++ b/src/col2d/shape/box2d/v_ball.rs
@@ -17,23 +17,6 @@ impl<const COMPUTE_PENETRATION: bool, const COMPUTE_DISTANCE: bool, T: Transform
 
 impl SdfRel2d<Ball> for Box2d {
     fn sdf_rel(&self, b: &Ball, rel: &impl Transformation2d) -> f32 {
-        let b_center = rel.apply_origin();
-        let towards_self = -b_center;
-        // TODO: Exploit ball symmetry
-        let p = b.extreme_point_t(rel, towards_self);
-        let px = p.x.abs() - self.halfsize.x;
-        let py = p.y.abs() - self.halfsize.y;
-
-        if self.collides_rel(b, rel) {
-            px.min(py)
-        } else {
-            if px.is_sign_negative() {
-                py
-            } else if py.is_sign_negative() {
-                px
-            } else {
-                Vec2::new(px, py).length()
-            }
-        }
+        SdfRel2d::sdf_rel(self, &Point, rel) - b.radius
     }
 }
-- 
2.43.0


From 0f020f50c6f3d06c6af23cf6a84fb56e1836a408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 05/12] fix: contact vector of a ball centred on the vertical
 edge of a box

---
 src/col2d/shape/rounded_box2d/v_point.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/col2d/shape/rounded_box2d/v_point.rs b/src/col2d/shape/rounded_box2d/v_point.rs
index 027af39..5cf84b1 100644
--- a/src/col2d/shape/rounded_box2d/v_point.rs
+++ b/src/col2d/shape/rounded_box2d/v_point.rs
@@ -21,7 +21,7 @@ impl<const COMPUTE_PENETRATION: bool, const COMPUTE_DISTANCE: bool, T: Transform
                 )
             }
         } else {
-            if delta_x <= 0.0 {
+            if delta_x <= 0.0 && delta_x <= delta_y {
                 (
                     delta_y < self.radius,
                     Vec2::new(0.0, (delta_y - self.radius) * delta.y.signum()),
-- 
2.43.0


From 6652cbeb579053029cc35522d6f91f25ea16b363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 06/12] fix: remove_tile must report a changed chunk, and only
 an existing chunk as removed

---
 src/col2d/shape/tilemap.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/col2d/shape/tilemap.rs b/src/col2d/shape/tilemap.rs
index 12e5cd4..eca3ca3 100644
--- a/src/col2d/shape/tilemap.rs
+++ b/src/col2d/shape/tilemap.rs
@@ -108,11 +108,16 @@ impl Tilemap {
 
     pub fn remove_tile(&mut self, pos: V2i32) {
         let (chunk_pos, local) = pos.modular_decompose(CHUNK_SIZE);
-        let chunk = self.chunks.entry(chunk_pos).or_default();
+        let Some(chunk) = self.chunks.get_mut(&chunk_pos) else {
+            return;
+        };
+        let changed = chunk.array2d.get(local).is_some_and(|x| x != &0);
         chunk.array2d.set(local, 0);
         if chunk.array2d.data.iter().all(|x| x == &0) {
             self.events.notify(TilemapEvent::ChunkRemoved(chunk_pos));
             self.chunks.remove(&chunk_pos);
+        } else if changed {
+            self.events.notify(TilemapEvent::ChunkChanged(chunk_pos));
         }
     }
 
-- 
2.43.0


From cd3c5f38b707690e564470b0b38a2186b1988c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 07/12] fix: collision queries must not print to standard
 output

---
 src/col2d/shape/local_minkowski_diff/v.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/col2d/shape/local_minkowski_diff/v.rs b/src/col2d/shape/local_minkowski_diff/v.rs
index 4be036a..ce1ca96 100644
--- a/src/col2d/shape/local_minkowski_diff/v.rs
+++ b/src/col2d/shape/local_minkowski_diff/v.rs
@@ -17,7 +17,7 @@ where
     T: Transformation2d,
 {
     fn sdfv_minkowski(&self) -> (bool, Vec2) {
-        println!("[ GJK (collision only)]");
+        trace!("[ GJK (collision only)]");
         let mut direction = self.initial_direction();
         trace!("initial direction: {}", direction);
         let mut simplex = Simplex2d::new();
@@ -60,7 +60,7 @@ where
     T: Transformation2d,
 {
     fn sdfv_minkowski(&self) -> (bool, Vec2) {
-        println!("[ GJK (distance only)]");
+        trace!("[ GJK (distance only)]");
         let mut direction = self.initial_direction();
         let mut simplex = Simplex2d::new();
         let iteration_limit = 20;
-- 
2.43.0


From 76348e6cf8a35e48c07265dbd3021bffec3c0f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:47 +0000
Subject: [PATCH 08/12] fix: EPA must not report a zero vector when it runs out
 of iterations

---
 src/col2d/shape/local_minkowski_diff/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/col2d/shape/local_minkowski_diff/mod.rs b/src/col2d/shape/local_minkowski_diff/mod.rs
index 1b3f4a7..0210119 100644
--- a/src/col2d/shape/local_minkowski_diff/mod.rs
+++ b/src/col2d/shape/local_minkowski_diff/mod.rs
@@ -110,7 +110,9 @@ impl EpaPoly2d {
 
         warn!("EPA did not converge in {} iterations", iteration_limit);
 
-        Vec2::ZERO
+        let (_, a, b) = self.find_closest_edge();
+        let normal = (b - a).perp_right();
+        normal * (-a.dot(normal) / normal.dot(normal))
     }
 
     fn find_closest_edge(&self) -> (usize, Vec2, Vec2) {
-- 
2.43.0


From eec52c2d1adb8c6fb8adbbb62cc198fa241b7402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:47 +0000
Subject: [PATCH 09/12] fix: sdfv must not panic when the simplex degenerates
 after a separating direction was found

---
 src/col2d/shape/local_minkowski_diff/mod.rs | 2 +-
 src/col2d/shape/local_minkowski_diff/v.rs   | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/col2d/shape/local_minkowski_diff/mod.rs b/src/col2d/shape/local_minkowski_diff/mod.rs
index 0210119..c43fdb7 100644
--- a/src/col2d/shape/local_minkowski_diff/mod.rs
+++ b/src/col2d/shape/local_minkowski_diff/mod.rs
@@ -1,6 +1,6 @@
 mod v;
 
-use crate::{error, info, trace, warn};
+use crate::{info, trace, warn};
 
 use super::*;
 
diff --git a/src/col2d/shape/local_minkowski_diff/v.rs b/src/col2d/shape/local_minkowski_diff/v.rs
index ce1ca96..c8710f0 100644
--- a/src/col2d/shape/local_minkowski_diff/v.rs
+++ b/src/col2d/shape/local_minkowski_diff/v.rs
@@ -212,8 +212,11 @@ where
 
             let (collides, new_direction) = simplex.add_point(a);
             if collides && !collision_possible {
-                error!("Simplex collided after collision was no longer possible");
-                panic!("Simplex collided after collision was no longer possible");
+                // The origin lies on the boundary of the simplex (up to rounding), yet a separating
+                // direction is known: the previous simplex is the closest feature.
+                trace!("Simplex collided after collision was no longer possible");
+                simplex.0.points.remove(0);
+                return (false, simplex.distance_to_origin());
             }
             trace!("new direction: {}", new_direction);
             // very close to zero. This is a sign that the origin lies on the boundary of the
-- 
2.43.0


From 7b5d60621fde382e2164de58dbe753894e8a70cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:30 +0000
Subject: [PATCH 10/12] fix: distance_to must report separated shapes as
 separated

---
 src/col2d/shape/local_minkowski_diff/v.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/col2d/shape/local_minkowski_diff/v.rs b/src/col2d/shape/local_minkowski_diff/v.rs
index c8710f0..7cb3692 100644
--- a/src/col2d/shape/local_minkowski_diff/v.rs
+++ b/src/col2d/shape/local_minkowski_diff/v.rs
@@ -68,19 +68,30 @@ where
         let mut last_a = self.extreme_point(direction);
         direction = simplex.add_point(last_a).1;
 
+        let mut collision_possible = true;
+
         for _ in 0..iteration_limit {
             let a = self.extreme_point(direction);
             let fitness = a.dot(direction);
 
             if fitness <= 0.0 {
+                collision_possible = false;
                 let last_fitness = last_a.dot(direction);
-                if fitness <= last_fitness {
+                if !is_a_sufficiently_better_than_b(
+                    fitness,
+                    last_fitness,
+                    DISTANCE_ITERATION_FITNESS_RELATIVE_IMPROVEMENT_REQUIRED,
+                ) {
                     return (false, simplex.distance_to_origin());
                 }
             }
             last_a = a;
 
             let (collides, new_direction) = simplex.add_point(a);
+            if collides && !collision_possible {
+                simplex.0.points.remove(0);
+                return (false, simplex.distance_to_origin());
+            }
             let new_direction_too_small = direction_is_too_small(new_direction);
             let new_direction = if new_direction_too_small {
                 // panic!("new direction too small: {new_direction:?}");
-- 
2.43.0


From f99619da9dcaafff79caaa0e6dde6b10d753a5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 11/12] fix: penetrates and distance_to must answer in world
 directions like sdfv

---
 src/col2d/detection/distance_to.rs | 3 ++-
 src/col2d/detection/penetrates.rs  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/col2d/detection/distance_to.rs b/src/col2d/detection/distance_to.rs
index 23f6f4f..403c333 100644
--- a/src/col2d/detection/distance_to.rs
+++ b/src/col2d/detection/distance_to.rs
@@ -79,6 +79,7 @@ where
         let a: Collider2d<'a, A, T> = self.into();
         let b: Collider2d<'a, B, T> = bb.into();
         let rel = a.transform.delta_transform(b.transform);
-        a.shape.distance_to_rel(b.shape, &rel)
+        let local = a.shape.distance_to_rel(b.shape, &rel);
+        local.map(|v| a.transform.apply_normal(v))
     }
 }
diff --git a/src/col2d/detection/penetrates.rs b/src/col2d/detection/penetrates.rs
index db96494..3ef88e6 100644
--- a/src/col2d/detection/penetrates.rs
+++ b/src/col2d/detection/penetrates.rs
@@ -71,6 +71,7 @@ where
         let a: Collider2d<'a, A, T> = self.into();
         let b: Collider2d<'a, B, T> = bb.into();
         let rel = a.transform.delta_transform(b.transform);
-        a.shape.penetrates_rel(b.shape, &rel)
+        let local = a.shape.penetrates_rel(b.shape, &rel);
+        local.map(|v| a.transform.apply_normal(v))
     }
 }
-- 
2.43.0


From b23ca9fc408c7da337773bfdbf1727c3c1fa8c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:20 +0000
Subject: [PATCH 12/12] fix: a small GJK direction does not mean that the
 origin was reached

The perpendicular directions are cubic in the size of the shapes, so for shapes
of a few hundredths of a unit they fell below the absolute threshold and
separated shapes were reported as colliding.
---
 src/col2d/shape/local_minkowski_diff/v.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/col2d/shape/local_minkowski_diff/v.rs b/src/col2d/shape/local_minkowski_diff/v.rs
index 7cb3692..b9bf8f8 100644
--- a/src/col2d/shape/local_minkowski_diff/v.rs
+++ b/src/col2d/shape/local_minkowski_diff/v.rs
@@ -263,5 +263,5 @@ where
 }
 
 fn direction_is_too_small(direction: Vec2) -> bool {
-    direction.length_squared() < f32::EPSILON * f32::EPSILON
+    direction.length_squared() < f32::MIN_POSITIVE
 }
-- 
2.43.0

