From 72a034b0b6bf50a1a62b57e91317a5a73ef9e38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 01/29] fix: keep GJK distance queries from reporting a
 collision of separated shapes

The distance-only variant took any simplex seeming to contain the origin for
a collision (even after a separating direction was found) and gave up on the
first non-improving direction, so distance_to returned None or a vector much
too long. The full variant panicked in the same situation.
---
 src/col2d/shape/local_minkowski_diff/mod.rs |  8 +++++
 src/col2d/shape/local_minkowski_diff/v.rs   | 35 ++++++++++++++++-----
 2 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/col2d/shape/local_minkowski_diff/mod.rs b/src/col2d/shape/local_minkowski_diff/mod.rs
index 1b3f4a7..a380d28 100644
--- a/src/col2d/shape/local_minkowski_diff/mod.rs
+++ b/src/col2d/shape/local_minkowski_diff/mod.rs
@@ -290,6 +290,14 @@ impl Simplex2d {
     }
 }
 
+fn shorter(a: Vec2, b: Vec2) -> Vec2 {
+    if b.length_squared() < a.length_squared() {
+        b
+    } else {
+        a
+    }
+}
+
 fn same_direction(a: Vec2, b: Vec2) -> bool {
     a.dot(b) >= 0.0
 }
diff --git a/src/col2d/shape/local_minkowski_diff/v.rs b/src/col2d/shape/local_minkowski_diff/v.rs
index 4be036a..25d57a4 100644
--- a/src/col2d/shape/local_minkowski_diff/v.rs
+++ b/src/col2d/shape/local_minkowski_diff/v.rs
@@ -68,19 +68,34 @@ where
         let mut last_a = self.extreme_point(direction);
         direction = simplex.add_point(last_a).1;
 
+        let mut collision_possible = true;
+        let mut closest = simplex.distance_to_origin();
+
         for _ in 0..iteration_limit {
             let a = self.extreme_point(direction);
             let fitness = a.dot(direction);
 
             if fitness <= 0.0 {
+                collision_possible = false;
                 let last_fitness = last_a.dot(direction);
-                if fitness <= last_fitness {
-                    return (false, simplex.distance_to_origin());
+                if !is_a_sufficiently_better_than_b(
+                    fitness,
+                    last_fitness,
+                    DISTANCE_ITERATION_FITNESS_RELATIVE_IMPROVEMENT_REQUIRED,
+                ) {
+                    return (false, closest);
                 }
             }
             last_a = a;
 
             let (collides, new_direction) = simplex.add_point(a);
+            if !collides {
+                // Any simplex can only overestimate the distance, keep the best one.
+                closest = shorter(closest, simplex.distance_to_origin());
+            } else if !collision_possible {
+                // The simplex can only seem to contain the origin because of rounding errors.
+                return (false, closest);
+            }
             let new_direction_too_small = direction_is_too_small(new_direction);
             let new_direction = if new_direction_too_small {
                 // panic!("new direction too small: {new_direction:?}");
@@ -99,7 +114,7 @@ where
 
         warn_simplex_not_converged!(iteration_limit);
 
-        (false, simplex.distance_to_origin())
+        (false, closest)
     }
 }
 
@@ -181,6 +196,7 @@ where
         direction = simplex.add_point(last_a).1;
 
         let mut collision_possible = true;
+        let mut closest = simplex.distance_to_origin();
 
         for _i in 0..iteration_limit {
             let _human_counter = _i + 2;
@@ -204,16 +220,19 @@ where
                 ) {
                     trace!("fitness: {fitness} is *NOT* sufficiently better than last_fitness: {last_fitness} (break)");
                     trace!("No intersection");
-                    return (false, simplex.distance_to_origin());
+                    return (false, closest);
                 }
                 trace!("fitness: {fitness} *is* sufficiently better than last_fitness: {last_fitness} (continue)");
             }
             last_a = a;
 
             let (collides, new_direction) = simplex.add_point(a);
-            if collides && !collision_possible {
-                error!("Simplex collided after collision was no longer possible");
-                panic!("Simplex collided after collision was no longer possible");
+            if !collides {
+                // Any simplex can only overestimate the distance, keep the best one.
+                closest = shorter(closest, simplex.distance_to_origin());
+            } else if !collision_possible {
+                // The simplex can only seem to contain the origin because of rounding errors.
+                return (false, closest);
             }
             trace!("new direction: {}", new_direction);
             // very close to zero. This is a sign that the origin lies on the boundary of the
@@ -244,7 +263,7 @@ where
 
         warn_simplex_not_converged!(iteration_limit);
 
-        (false, simplex.distance_to_origin())
+        (false, closest)
     }
 }
 
-- 
2.43.0


From 3f975b89aac35c54b0ca22456e223b4e077d4ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 02/29] fix: do not treat GJK directions of small shapes as
 zero

The search directions shrink with the cube of the simplex size, so comparing
them with an absolute epsilon mistakes close or small shapes for touching.
---
 src/col2d/shape/local_minkowski_diff/v.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/col2d/shape/local_minkowski_diff/v.rs b/src/col2d/shape/local_minkowski_diff/v.rs
index 25d57a4..54ff603 100644
--- a/src/col2d/shape/local_minkowski_diff/v.rs
+++ b/src/col2d/shape/local_minkowski_diff/v.rs
@@ -268,5 +268,5 @@ where
 }
 
 fn direction_is_too_small(direction: Vec2) -> bool {
-    direction.length_squared() < f32::EPSILON * f32::EPSILON
+    direction.length_squared() < f32::MIN_POSITIVE
 }
-- 
2.43.0


From d8a26d55237a17b92c6d78b4c4e16735fe635ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 03/29] fix: reduce the GJK simplex to the newest point when it
 is the closest feature

Keeping the edge ac sent the search away from the closest point, so distances
to curved shapes came out several percent too long.
---
 src/col2d/shape/local_minkowski_diff/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/col2d/shape/local_minkowski_diff/mod.rs b/src/col2d/shape/local_minkowski_diff/mod.rs
index a380d28..0b0ab5e 100644
--- a/src/col2d/shape/local_minkowski_diff/mod.rs
+++ b/src/col2d/shape/local_minkowski_diff/mod.rs
@@ -204,11 +204,16 @@ impl Simplex2d {
                         self.0.points = vec![a, b];
                         trace!("points after: {:?}", self.0.points);
                         (false, ab_perp)
-                    } else {
+                    } else if same_direction(ac, ao) {
                         trace!("opposite direction ab ao");
                         self.0.points = vec![a, c];
                         trace!("points after: {:?}", self.0.points);
                         (false, ac_perp)
+                    } else {
+                        trace!("opposite direction ab ao and ac ao");
+                        self.0.points = vec![a];
+                        trace!("points after: {:?}", self.0.points);
+                        (false, ao)
                     }
                     // trace!("same direction ab_perp ao");
                     // self.0.points = vec![a, b];
-- 
2.43.0


From 7784b0c095138c151f84a0efcfc5b693e6c0495c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 04/29] fix: return the best penetration found when EPA does
 not converge

It returned a zero vector, e.g. for concentric balls.
---
 src/col2d/shape/local_minkowski_diff/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/col2d/shape/local_minkowski_diff/mod.rs b/src/col2d/shape/local_minkowski_diff/mod.rs
index 0b0ab5e..88348b9 100644
--- a/src/col2d/shape/local_minkowski_diff/mod.rs
+++ b/src/col2d/shape/local_minkowski_diff/mod.rs
@@ -79,6 +79,8 @@ impl EpaPoly2d {
             self.0.points
         );
 
+        let mut best = Vec2::INFINITY;
+
         for _i in 0..iteration_limit {
             trace!("[EPA] iteration {}", _i);
             let (edge_index, a, b) = self.find_closest_edge();
@@ -92,16 +94,19 @@ impl EpaPoly2d {
             let fitness_to_beat = a.dot(normal);
             trace!("fitness to beat: {}", fitness_to_beat);
 
+            let denom = normal.dot(normal);
+            trace!("denom: {}", denom);
+            let penetration = normal * (-fitness / denom);
+
             if !is_a_sufficiently_better_than_b(
                 fitness,
                 fitness_to_beat,
                 DISTANCE_ITERATION_FITNESS_RELATIVE_IMPROVEMENT_REQUIRED,
             ) {
                 trace!("EPA converged");
-                let denom = normal.dot(normal);
-                trace!("denom: {}", denom);
-                return normal * (-fitness / denom);
+                return penetration;
             }
+            best = shorter(best, penetration);
 
             trace!("splitting edge at index {}", edge_index);
             self.0.points.insert(edge_index + 1, point);
@@ -110,7 +115,7 @@ impl EpaPoly2d {
 
         warn!("EPA did not converge in {} iterations", iteration_limit);
 
-        Vec2::ZERO
+        best
     }
 
     fn find_closest_edge(&self) -> (usize, Vec2, Vec2) {
-- 
2.43.0


From abea10f8b02b9cb5e737f216038de5885d727a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 05/29] fix: do not print to stdout on every GJK query

---
 src/col2d/shape/local_minkowski_diff/v.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/col2d/shape/local_minkowski_diff/v.rs b/src/col2d/shape/local_minkowski_diff/v.rs
index 54ff603..3488e7f 100644
--- a/src/col2d/shape/local_minkowski_diff/v.rs
+++ b/src/col2d/shape/local_minkowski_diff/v.rs
@@ -17,7 +17,7 @@ where
     T: Transformation2d,
 {
     fn sdfv_minkowski(&self) -> (bool, Vec2) {
-        println!("[ GJK (collision only)]");
+        trace!("[ GJK (collision only)]");
         let mut direction = self.initial_direction();
         trace!("initial direction: {}", direction);
         let mut simplex = Simplex2d::new();
@@ -60,7 +60,7 @@ where
     T: Transformation2d,
 {
     fn sdfv_minkowski(&self) -> (bool, Vec2) {
-        println!("[ GJK (distance only)]");
+        trace!("[ GJK (distance only)]");
         let mut direction = self.initial_direction();
         let mut simplex = Simplex2d::new();
         let iteration_limit = 20;
-- 
2.43.0


From f9d459b182267d164558dd0de4d4220c8bb885bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 06/29] fix: push balls out of the nearest box side when
 centered exactly on a side

A ball center on the left or right side of a box was neither inside of nor
outside of it, and the penetration was measured along the wrong axis.
---
 src/col2d/shape/rounded_box2d/v_point.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/col2d/shape/rounded_box2d/v_point.rs b/src/col2d/shape/rounded_box2d/v_point.rs
index 027af39..6f2b7a8 100644
--- a/src/col2d/shape/rounded_box2d/v_point.rs
+++ b/src/col2d/shape/rounded_box2d/v_point.rs
@@ -8,7 +8,7 @@ impl<const COMPUTE_PENETRATION: bool, const COMPUTE_DISTANCE: bool, T: Transform
         let delta_x = delta.x.abs() - self.halfsize.x;
         let delta_y = delta.y.abs() - self.halfsize.y;
 
-        if self.box_part().collides_rel(&Point, rel) {
+        if delta_x <= 0.0 && delta_y <= 0.0 {
             if delta_x > delta_y {
                 (
                     true,
-- 
2.43.0


From 912b65e5bbeeefd2272f4e480df3bd234d942490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 07/29] fix: compute the signed distance from boxes to balls

It was derived from the ball point closest to the box center, which is not
the one closest to the box.
---
 src/col2d/shape/box2d/v_ball.rs | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/src/col2d/shape/box2d/v_ball.rs b/src/col2d/shape/box2d/v_ball.rs
index 575c54d..ddb8ce7 100644
--- a/src/col2d/shape/box2d/v_ball.rs
+++ b/src/col2d/shape/box2d/v_ball.rs
@@ -17,23 +17,7 @@ impl<const COMPUTE_PENETRATION: bool, const COMPUTE_DISTANCE: bool, T: Transform
 
 impl SdfRel2d<Ball> for Box2d {
     fn sdf_rel(&self, b: &Ball, rel: &impl Transformation2d) -> f32 {
-        let b_center = rel.apply_origin();
-        let towards_self = -b_center;
-        // TODO: Exploit ball symmetry
-        let p = b.extreme_point_t(rel, towards_self);
-        let px = p.x.abs() - self.halfsize.x;
-        let py = p.y.abs() - self.halfsize.y;
-
-        if self.collides_rel(b, rel) {
-            px.min(py)
-        } else {
-            if px.is_sign_negative() {
-                py
-            } else if py.is_sign_negative() {
-                px
-            } else {
-                Vec2::new(px, py).length()
-            }
-        }
+        let rounded_box = RoundedBox2d::new(self.halfsize, b.radius);
+        SdfRel2d::sdf_rel(&rounded_box, &Point, rel)
     }
 }
-- 
2.43.0


From 92dce658ec8c2df933cb9b95d30e60bf88cc6308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 08/29] fix: invert the translation of scaled AxisTransform2d

---
 src/col2d/transformation2d/axis_transform2d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/col2d/transformation2d/axis_transform2d.rs b/src/col2d/transformation2d/axis_transform2d.rs
index e5dd49e..2012b0f 100644
--- a/src/col2d/transformation2d/axis_transform2d.rs
+++ b/src/col2d/transformation2d/axis_transform2d.rs
@@ -41,7 +41,7 @@ impl Transformation2d for AxisTransform2d {
 impl Invertible for AxisTransform2d {
     fn inverse(&self) -> Self {
         Self {
-            pos: -self.pos,
+            pos: -self.pos / self.scale,
             scale: 1.0 / self.scale,
         }
     }
-- 
2.43.0


From 065812bbe1b17118b8add956e707655b44c8c3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 09/29] fix: rotate penetrates and distance_to results into
 world space

as sdfv does.
---
 src/col2d/detection/distance_to.rs | 3 ++-
 src/col2d/detection/penetrates.rs  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/col2d/detection/distance_to.rs b/src/col2d/detection/distance_to.rs
index 23f6f4f..c6828a4 100644
--- a/src/col2d/detection/distance_to.rs
+++ b/src/col2d/detection/distance_to.rs
@@ -79,6 +79,7 @@ where
         let a: Collider2d<'a, A, T> = self.into();
         let b: Collider2d<'a, B, T> = bb.into();
         let rel = a.transform.delta_transform(b.transform);
-        a.shape.distance_to_rel(b.shape, &rel)
+        let distance_local = a.shape.distance_to_rel(b.shape, &rel);
+        distance_local.map(|v| a.transform.apply_normal(v))
     }
 }
diff --git a/src/col2d/detection/penetrates.rs b/src/col2d/detection/penetrates.rs
index db96494..fcfc698 100644
--- a/src/col2d/detection/penetrates.rs
+++ b/src/col2d/detection/penetrates.rs
@@ -71,6 +71,7 @@ where
         let a: Collider2d<'a, A, T> = self.into();
         let b: Collider2d<'a, B, T> = bb.into();
         let rel = a.transform.delta_transform(b.transform);
-        a.shape.penetrates_rel(b.shape, &rel)
+        let penetration_local = a.shape.penetrates_rel(b.shape, &rel);
+        penetration_local.map(|v| a.transform.apply_normal(v))
     }
 }
-- 
2.43.0


From ef94bf07ee4f66fca57daadd758eb12efec4bfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 10/29] fix: grow Rect2i32 on all sides when padding

---
 src/utils/rect2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/rect2.rs b/src/utils/rect2.rs
index 9037e88..77455f5 100644
--- a/src/utils/rect2.rs
+++ b/src/utils/rect2.rs
@@ -14,7 +14,7 @@ impl Rect2i32 {
     pub fn pad(self, padding: V2i32) -> Self {
         Self {
             min: self.min - padding,
-            max: self.max - padding,
+            max: self.max + padding,
         }
     }
 
-- 
2.43.0


From 8a2260d9cdffb87478953f09c07b18011d77cfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 11/29] fix: report tile removals consistently in Tilemap
 events

Clearing a tile of a chunk that stays was not reported at all, and removing
from a chunk that does not exist reported a removal.
---
 src/col2d/shape/tilemap.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/col2d/shape/tilemap.rs b/src/col2d/shape/tilemap.rs
index 12e5cd4..528dca1 100644
--- a/src/col2d/shape/tilemap.rs
+++ b/src/col2d/shape/tilemap.rs
@@ -108,11 +108,15 @@ impl Tilemap {
 
     pub fn remove_tile(&mut self, pos: V2i32) {
         let (chunk_pos, local) = pos.modular_decompose(CHUNK_SIZE);
-        let chunk = self.chunks.entry(chunk_pos).or_default();
-        chunk.array2d.set(local, 0);
-        if chunk.array2d.data.iter().all(|x| x == &0) {
-            self.events.notify(TilemapEvent::ChunkRemoved(chunk_pos));
-            self.chunks.remove(&chunk_pos);
+        if let Some(chunk) = self.chunks.get_mut(&chunk_pos) {
+            let changed = chunk.array2d.get(local) != Some(&0);
+            chunk.array2d.set(local, 0);
+            if chunk.array2d.data.iter().all(|x| x == &0) {
+                self.events.notify(TilemapEvent::ChunkRemoved(chunk_pos));
+                self.chunks.remove(&chunk_pos);
+            } else if changed {
+                self.events.notify(TilemapEvent::ChunkChanged(chunk_pos));
+            }
         }
     }
 
-- 
2.43.0


From f31efc1d8e704fe5a0ca29e157a5bc2a55c7f8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 12/29] fix: treat equal infinities as approximately equal

---
 src/utils/approx.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/utils/approx.rs b/src/utils/approx.rs
index f35f834..69a2c6a 100644
--- a/src/utils/approx.rs
+++ b/src/utils/approx.rs
@@ -13,6 +13,10 @@ pub trait Approx {
 
 impl Approx for f32 {
     fn approx_eq_tolerance(&self, other: &Self, tolerance: f32) -> bool {
+        if self == other {
+            return true;
+        }
+
         let error = self - other;
         if error.is_nan() {
             return false;
@@ -37,6 +41,10 @@ impl Approx for f32 {
 
 impl Approx for Vec2 {
     fn approx_eq_tolerance(&self, other: &Self, tolerance: f32) -> bool {
+        if self == other {
+            return true;
+        }
+
         let magn_sq = self.length_squared().max(other.length_squared());
         if magn_sq == 0.0 {
             return true;
@@ -73,6 +81,10 @@ impl Approx for Vec2 {
 
 impl Approx for Vec3 {
     fn approx_eq_tolerance(&self, other: &Self, tolerance: f32) -> bool {
+        if self == other {
+            return true;
+        }
+
         let magn_sq = self.length_squared().max(other.length_squared());
         if magn_sq == 0.0 {
             return true;
-- 
2.43.0


From cde6c32a2ae521d256312caaf70ad962c63f1a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 13/29] fix: make Rotor2d::from_quaternion return a rotation
 for tilted quaternions

The tilt was left in the norm, so the result also scaled.
---
 src/col2d/transformation2d/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/col2d/transformation2d/mod.rs b/src/col2d/transformation2d/mod.rs
index 47b5fde..448c45b 100644
--- a/src/col2d/transformation2d/mod.rs
+++ b/src/col2d/transformation2d/mod.rs
@@ -107,7 +107,10 @@ impl Rotor2d {
 
     /// Ignore rotation outside of the XY plane.
     pub fn from_quaternion(quat: crate::Quat) -> Rotor2d {
-        let norm = quat.dot(quat).sqrt();
+        let norm = (quat.w * quat.w + quat.z * quat.z).sqrt();
+        if norm == 0.0 {
+            return Self::IDENTITY;
+        }
         let w = quat.w / norm;
         let z = quat.z / norm;
 
-- 
2.43.0


From 96e809e63ce7452e24d1b1a507d0442988fded1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 14/29] fix: reject polygons that do not contain the origin in
 Poly2d::strict_check

---
 src/col2d/shape/poly2d/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/col2d/shape/poly2d/mod.rs b/src/col2d/shape/poly2d/mod.rs
index 81f313b..33d3ec1 100644
--- a/src/col2d/shape/poly2d/mod.rs
+++ b/src/col2d/shape/poly2d/mod.rs
@@ -50,7 +50,12 @@ impl Poly2d {
     /// This is a strict check, meaning that the origin must be strictly contained within the
     /// polygon to pass.
     pub fn strict_check(&self) -> bool {
-        self.points.iter().all(|&p| self.extreme_point(p) == p)
+        self.points.iter().all(|&p| {
+            let side = p.perp();
+            self.extreme_point(p) == p
+                && self.extreme_point(side).dot(side) > 0.0
+                && self.extreme_point(-side).dot(side) < 0.0
+        })
     }
 }
 
-- 
2.43.0


From c91ab360161e2e508f5999c8ec081772d3f278db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:17 +0000
Subject: [PATCH 15/29] fix: respect the relative scale in ball and point
 queries

The scale of the other collider was ignored, unlike in GJK queries.
---
 src/col2d/shape/ball2d/v_ball2d.rs | 4 ++--
 src/col2d/shape/box2d/v_ball.rs    | 4 ++--
 src/col2d/shape/point2d.rs         | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/col2d/shape/ball2d/v_ball2d.rs b/src/col2d/shape/ball2d/v_ball2d.rs
index 3549fba..8e73aa1 100644
--- a/src/col2d/shape/ball2d/v_ball2d.rs
+++ b/src/col2d/shape/ball2d/v_ball2d.rs
@@ -4,7 +4,7 @@ impl<const COMPUTE_PENETRATION: bool, const COMPUTE_DISTANCE: bool, T: Transform
     SdfvCommonRel2d<COMPUTE_PENETRATION, COMPUTE_DISTANCE, Ball, T> for Ball
 {
     fn sdfv_common_rel(&self, b: &Ball, rel: &T) -> (bool, Vec2) {
-        let radius = self.radius + b.radius;
+        let radius = self.radius + rel.scaling_factor() * b.radius;
         let delta = rel.apply_origin();
         let length = delta.length();
         if length > 0.0 {
@@ -19,7 +19,7 @@ impl<const COMPUTE_PENETRATION: bool, const COMPUTE_DISTANCE: bool, T: Transform
 
 impl SdfRel2d<Ball> for Ball {
     fn sdf_rel(&self, b: &Ball, rel: &impl Transformation2d) -> f32 {
-        let radius = self.radius + b.radius;
+        let radius = self.radius + rel.scaling_factor() * b.radius;
         let delta = rel.apply_origin();
         delta.length() - radius
     }
diff --git a/src/col2d/shape/box2d/v_ball.rs b/src/col2d/shape/box2d/v_ball.rs
index ddb8ce7..e714115 100644
--- a/src/col2d/shape/box2d/v_ball.rs
+++ b/src/col2d/shape/box2d/v_ball.rs
@@ -6,7 +6,7 @@ impl<const COMPUTE_PENETRATION: bool, const COMPUTE_DISTANCE: bool, T: Transform
     SdfvCommonRel2d<COMPUTE_PENETRATION, COMPUTE_DISTANCE, Ball, T> for Box2d
 {
     fn sdfv_common_rel(&self, t: &Ball, rel: &T) -> (bool, Vec2) {
-        let rounded_box = RoundedBox2d::new(self.halfsize, t.radius);
+        let rounded_box = RoundedBox2d::new(self.halfsize, rel.scaling_factor() * t.radius);
         SdfvCommonRel2d::<COMPUTE_PENETRATION, COMPUTE_DISTANCE, _, T>::sdfv_common_rel(
             &rounded_box,
             &Point,
@@ -17,7 +17,7 @@ impl<const COMPUTE_PENETRATION: bool, const COMPUTE_DISTANCE: bool, T: Transform
 
 impl SdfRel2d<Ball> for Box2d {
     fn sdf_rel(&self, b: &Ball, rel: &impl Transformation2d) -> f32 {
-        let rounded_box = RoundedBox2d::new(self.halfsize, b.radius);
+        let rounded_box = RoundedBox2d::new(self.halfsize, rel.scaling_factor() * b.radius);
         SdfRel2d::sdf_rel(&rounded_box, &Point, rel)
     }
 }
diff --git a/src/col2d/shape/point2d.rs b/src/col2d/shape/point2d.rs
index bb944d7..6236efa 100644
--- a/src/col2d/shape/point2d.rs
+++ b/src/col2d/shape/point2d.rs
@@ -45,7 +45,7 @@ macro_rules! impl_reverse_sdfv_common_rel {
                 let (collides, sdfv) =
                     SdfvCommonRel2d::<P, D, $a, T>::sdfv_common_rel(b, self, &inv_rel);
                 let negated_sdfv = -sdfv;
-                let transformed_sdfv = rel.apply_normal(negated_sdfv);
+                let transformed_sdfv = rel.scaling_factor() * rel.apply_normal(negated_sdfv);
                 (collides, transformed_sdfv)
             }
         }
-- 
2.43.0


From 65713a878612b93fe7ec43a8bcc6ac4f5708e45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:17 +0000
Subject: [PATCH 16/29] fix: report world distances of scaled colliders in
 world units

They were reported in the units of the first collider.
---
 src/col2d/detection/distance_to.rs | 2 +-
 src/col2d/detection/penetrates.rs  | 2 +-
 src/col2d/detection/sdf.rs         | 2 +-
 src/col2d/detection/sdfv.rs        | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/col2d/detection/distance_to.rs b/src/col2d/detection/distance_to.rs
index c6828a4..492b827 100644
--- a/src/col2d/detection/distance_to.rs
+++ b/src/col2d/detection/distance_to.rs
@@ -80,6 +80,6 @@ where
         let b: Collider2d<'a, B, T> = bb.into();
         let rel = a.transform.delta_transform(b.transform);
         let distance_local = a.shape.distance_to_rel(b.shape, &rel);
-        distance_local.map(|v| a.transform.apply_normal(v))
+        distance_local.map(|v| a.transform.scaling_factor() * a.transform.apply_normal(v))
     }
 }
diff --git a/src/col2d/detection/penetrates.rs b/src/col2d/detection/penetrates.rs
index fcfc698..c3dffaf 100644
--- a/src/col2d/detection/penetrates.rs
+++ b/src/col2d/detection/penetrates.rs
@@ -72,6 +72,6 @@ where
         let b: Collider2d<'a, B, T> = bb.into();
         let rel = a.transform.delta_transform(b.transform);
         let penetration_local = a.shape.penetrates_rel(b.shape, &rel);
-        penetration_local.map(|v| a.transform.apply_normal(v))
+        penetration_local.map(|v| a.transform.scaling_factor() * a.transform.apply_normal(v))
     }
 }
diff --git a/src/col2d/detection/sdf.rs b/src/col2d/detection/sdf.rs
index 9564b59..20c6b27 100644
--- a/src/col2d/detection/sdf.rs
+++ b/src/col2d/detection/sdf.rs
@@ -72,6 +72,6 @@ where
         let a: Collider2d<'a, A, T> = self.into();
         let b: Collider2d<'a, B, T> = bb.into();
         let rel = a.transform.delta_transform(b.transform);
-        a.shape.sdf_rel(b.shape, &rel)
+        a.transform.scaling_factor() * a.shape.sdf_rel(b.shape, &rel)
     }
 }
diff --git a/src/col2d/detection/sdfv.rs b/src/col2d/detection/sdfv.rs
index 355ee79..de03161 100644
--- a/src/col2d/detection/sdfv.rs
+++ b/src/col2d/detection/sdfv.rs
@@ -72,7 +72,7 @@ where
         let b: Collider2d<'a, B, T> = bb.into();
         let rel = a.transform.delta_transform(b.transform);
         let (collides, sdfv_local) = a.shape.sdfv_rel(b.shape, &rel);
-        let sdfv = a.transform.apply_normal(sdfv_local);
+        let sdfv = a.transform.scaling_factor() * a.transform.apply_normal(sdfv_local);
         (collides, sdfv)
     }
 }
-- 
2.43.0


From 7acc6b45459e5b27371aff7e5d66ac203e649920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 17/29] fix: make the 3d feature compile

Box3d referred to Minkowski traits which are disabled everywhere else, and the
bevy transform module lives in crate::col.
---
 src/col3d/shape/box3d.rs          | 2 ++
 src/col3d/transformation3d/mod.rs | 4 ----
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/col3d/shape/box3d.rs b/src/col3d/shape/box3d.rs
index 5c6ed54..8c6f221 100644
--- a/src/col3d/shape/box3d.rs
+++ b/src/col3d/shape/box3d.rs
@@ -50,8 +50,10 @@ impl ExtremePoint3d for Box3d {
     }
 }
 
+#[cfg(minkowski)]
 impl MinkowskiNegationIsIdentity for Box3d {}
 
+#[cfg(minkowski)]
 impl MinkowskiSum<Box3d> for Box3d {
     type Output = Self;
 
diff --git a/src/col3d/transformation3d/mod.rs b/src/col3d/transformation3d/mod.rs
index 24e4187..d7d72fe 100644
--- a/src/col3d/transformation3d/mod.rs
+++ b/src/col3d/transformation3d/mod.rs
@@ -10,8 +10,4 @@ pub use isotropic3d::*;
 pub use transform3d::*;
 pub use translate3d::*;
 
-#[cfg(feature = "bevy")]
-mod bevy_transform;
-#[cfg(feature = "bevy")]
-pub use bevy_transform::*;
 
-- 
2.43.0


From 4ab948c6d4e3ff1f84c98e4a346a33bbfc01a77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 18/29] fix: invert the translation of scaled AxisTransform3d

---
 src/col3d/transformation3d/axis_transform3d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/col3d/transformation3d/axis_transform3d.rs b/src/col3d/transformation3d/axis_transform3d.rs
index 7b4a560..48db74f 100644
--- a/src/col3d/transformation3d/axis_transform3d.rs
+++ b/src/col3d/transformation3d/axis_transform3d.rs
@@ -29,7 +29,7 @@ impl Transformation3d for AxisTransform3d {
 impl Invertible for AxisTransform3d {
     fn inverse(&self) -> Self {
         Self {
-            pos: -self.pos,
+            pos: -self.pos / self.scale,
             scale: 1.0 / self.scale,
         }
     }
-- 
2.43.0


From b4f3a6121676b5a15fefb199e79796747a5a0b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 19/29] fix: cover the z coordinate in Box3d::cover

---
 src/col3d/shape/box3d.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/col3d/shape/box3d.rs b/src/col3d/shape/box3d.rs
index 8c6f221..f0469a4 100644
--- a/src/col3d/shape/box3d.rs
+++ b/src/col3d/shape/box3d.rs
@@ -17,8 +17,10 @@ impl Box3d {
     pub fn cover(&mut self, point: &Vec3) {
         let x = point.x.abs();
         let y = point.y.abs();
+        let z = point.z.abs();
         self.halfsize.x = self.halfsize.x.max(x);
         self.halfsize.y = self.halfsize.y.max(y);
+        self.halfsize.z = self.halfsize.z.max(z);
     }
 }
 
-- 
2.43.0


From fd4e3cf99e78987693562a65191cde2e789888ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 20/29] fix: compute the signed distance of points above box
 faces

Points beyond a z side of a Box3d got the distance to an edge plane.
---
 src/col3d/shape/box3d.rs | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/src/col3d/shape/box3d.rs b/src/col3d/shape/box3d.rs
index f0469a4..7e0f506 100644
--- a/src/col3d/shape/box3d.rs
+++ b/src/col3d/shape/box3d.rs
@@ -119,23 +119,9 @@ impl SdfRel3d<Point> for Box3d {
         if self.collides_rel(t, rel) {
             delta_x.max(delta_y).max(delta_z)
         } else {
-            if delta_z < 0.0 {
-                if delta_x < 0.0 {
-                    delta_y
-                } else if delta_y < 0.0 {
-                    delta_x
-                } else {
-                    Vec2::new(delta_x, delta_y).length()
-                }
-            } else {
-                if delta_x < 0.0 {
-                    Vec2::new(delta_z, delta_y).length()
-                } else if delta_y < 0.0 {
-                    Vec2::new(delta_z, delta_x).length()
-                } else {
-                    Vec3::new(delta_x, delta_y, delta_z).length()
-                }
-            }
+            Vec3::new(delta_x, delta_y, delta_z)
+                .max(Vec3::ZERO)
+                .length()
         }
     }
 }
-- 
2.43.0


From 0d0f3d83bc10ad8a3e5bacd690757472a72e7500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 21/29] fix: respect the rotation of the other collider in 3D
 point queries

---
 src/col3d/default_impls.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/col3d/default_impls.rs b/src/col3d/default_impls.rs
index 234d8cb..e9df325 100644
--- a/src/col3d/default_impls.rs
+++ b/src/col3d/default_impls.rs
@@ -10,7 +10,7 @@ where
     A: CollidesRel3d<Point>,
 {
     fn collides_rel(&self, other: &A, rel: &impl Transformation3d) -> bool {
-        other.collides_rel(&Point, rel)
+        other.collides_rel(&Point, &rel.unapply_origin())
     }
 }
 
@@ -32,7 +32,9 @@ where
     A: PenetratesRel3d<Point>,
 {
     fn penetrates_rel(&self, other: &A, rel: &impl Transformation3d) -> Option<Vec3> {
-        other.penetrates_rel(&Point, rel) // .map(|v| -v)
+        other
+            .penetrates_rel(&Point, &rel.unapply_origin())
+            .map(|v| rel.apply_origin() - rel.apply(v))
     }
 }
 
@@ -66,7 +68,7 @@ where
     A: SdfRel3d<Point>,
 {
     fn sdf_rel(&self, t: &A, rel: &impl Transformation3d) -> f32 {
-        t.sdf_rel(&Point, rel)
+        t.sdf_rel(&Point, &rel.unapply_origin())
     }
 }
 
@@ -88,6 +90,7 @@ where
     A: SdfvRel3d<Point>,
 {
     fn sdfv_rel(&self, t: &A, rel: &impl Transformation3d) -> Vec3 {
-        t.sdfv_rel(&Point, rel)
+        let sdfv = t.sdfv_rel(&Point, &rel.unapply_origin());
+        rel.apply_origin() - rel.apply(sdfv)
     }
 }
-- 
2.43.0


From 3608035b62830b898d3abd0a817ff17f11915d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 22/29] fix: rotate 3D penetrates results into world space

---
 src/col3d/detection/penetrates.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/col3d/detection/penetrates.rs b/src/col3d/detection/penetrates.rs
index 8e22c8c..8a0cbc7 100644
--- a/src/col3d/detection/penetrates.rs
+++ b/src/col3d/detection/penetrates.rs
@@ -62,5 +62,6 @@ where
     fn penetrates(&self, transform: &T, t: &B, t_transform: &T) -> Option<Vec3> {
         let rel = transform.delta_transform(t_transform);
         self.penetrates_rel(t, &rel)
+            .map(|v| transform.apply(v) - transform.apply_origin())
     }
 }
-- 
2.43.0


From 3ab6ec2d5e7866d174a97532448ef46e1299a8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 23/29] fix: make default transforms the identity

They had a zero scale and collapsed everything into the origin.
---
 src/col2d/transformation2d/axis_transform2d.rs |  7 ++++++-
 src/col3d/transformation3d/axis_transform3d.rs |  7 ++++++-
 src/col3d/transformation3d/isotropic3d.rs      | 12 +++++++++++-
 src/col3d/transformation3d/transform3d.rs      | 12 +++++++++++-
 4 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/col2d/transformation2d/axis_transform2d.rs b/src/col2d/transformation2d/axis_transform2d.rs
index 2012b0f..6106993 100644
--- a/src/col2d/transformation2d/axis_transform2d.rs
+++ b/src/col2d/transformation2d/axis_transform2d.rs
@@ -1,11 +1,16 @@
 use super::*;
 
-#[derive(Default)]
 pub struct AxisTransform2d {
     pos: Vec2,
     scale: f32,
 }
 
+impl Default for AxisTransform2d {
+    fn default() -> Self {
+        Self::new(Vec2::ZERO, 1.0)
+    }
+}
+
 impl AxisTransform2d {
     pub const fn new(pos: Vec2, scale: f32) -> Self {
         Self { pos, scale }
diff --git a/src/col3d/transformation3d/axis_transform3d.rs b/src/col3d/transformation3d/axis_transform3d.rs
index 48db74f..f31c058 100644
--- a/src/col3d/transformation3d/axis_transform3d.rs
+++ b/src/col3d/transformation3d/axis_transform3d.rs
@@ -1,11 +1,16 @@
 use super::*;
 
-#[derive(Default)]
 pub struct AxisTransform3d {
     pos: Vec3,
     scale: f32,
 }
 
+impl Default for AxisTransform3d {
+    fn default() -> Self {
+        Self::new(Vec3::ZERO, 1.0)
+    }
+}
+
 impl AxisTransform3d {
     pub const fn new(pos: Vec3, scale: f32) -> Self {
         Self { pos, scale }
diff --git a/src/col3d/transformation3d/isotropic3d.rs b/src/col3d/transformation3d/isotropic3d.rs
index be6bc65..acd876a 100644
--- a/src/col3d/transformation3d/isotropic3d.rs
+++ b/src/col3d/transformation3d/isotropic3d.rs
@@ -1,6 +1,6 @@
 use super::*;
 
-#[derive(Default, Debug, Clone, PartialEq)]
+#[derive(Debug, Clone, PartialEq)]
 /// Apply translation, rotation, and scale in this order:
 /// 1. Scale
 /// 2. Rotate
@@ -11,6 +11,16 @@ pub struct Isotropic3d {
     scale: f32,
 }
 
+impl Default for Isotropic3d {
+    fn default() -> Self {
+        Self {
+            pos: Vec3::ZERO,
+            rot: Quat::IDENTITY,
+            scale: 1.0,
+        }
+    }
+}
+
 // trait Approx {
 //     fn approx_eq(&self, other: &Self) -> bool;
 // }
diff --git a/src/col3d/transformation3d/transform3d.rs b/src/col3d/transformation3d/transform3d.rs
index c07e27b..1765871 100644
--- a/src/col3d/transformation3d/transform3d.rs
+++ b/src/col3d/transformation3d/transform3d.rs
@@ -1,6 +1,6 @@
 use super::*;
 
-#[derive(Default, Debug, Clone, PartialEq)]
+#[derive(Debug, Clone, PartialEq)]
 /// Standard 3D transform.
 ///
 /// Applies translation, rotation, and scale in this order:
@@ -15,6 +15,16 @@ pub struct Transform3d {
     scale: Vec3,
 }
 
+impl Default for Transform3d {
+    fn default() -> Self {
+        Self {
+            pos: Vec3::ZERO,
+            rot: Quat::IDENTITY,
+            scale: Vec3::ONE,
+        }
+    }
+}
+
 #[cfg(feature = "bevy")]
 impl From<bevy::prelude::Transform> for Transform3d {
     fn from(transform: bevy::prelude::Transform) -> Self {
-- 
2.43.0


From f3b7c616bd1ee3772207cfcbd762249f0554b525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 24/29] verif hook: constructors of 3D transforms behind
 cfg(auburn_verif)

---
 src/col3d/transformation3d/isotropic3d.rs | 9 +++++++++
 src/col3d/transformation3d/transform3d.rs | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/col3d/transformation3d/isotropic3d.rs b/src/col3d/transformation3d/isotropic3d.rs
index acd876a..5ad6e56 100644
--- a/src/col3d/transformation3d/isotropic3d.rs
+++ b/src/col3d/transformation3d/isotropic3d.rs
@@ -34,6 +34,15 @@ impl Default for Isotropic3d {
 //     }
 // }
 
+#[allow(unexpected_cfgs)]
+#[cfg(auburn_verif)]
+impl Isotropic3d {
+    /// Verification hook: the fields are private and there is no other constructor.
+    pub const fn verif_new(pos: Vec3, rot: Quat, scale: f32) -> Self {
+        Self { pos, rot, scale }
+    }
+}
+
 impl Transformation3d for Isotropic3d {
     fn apply_origin(&self) -> Vec3 {
         self.pos
diff --git a/src/col3d/transformation3d/transform3d.rs b/src/col3d/transformation3d/transform3d.rs
index 1765871..a883547 100644
--- a/src/col3d/transformation3d/transform3d.rs
+++ b/src/col3d/transformation3d/transform3d.rs
@@ -47,6 +47,15 @@ impl From<Transform3d> for bevy::prelude::Transform {
     }
 }
 
+#[allow(unexpected_cfgs)]
+#[cfg(auburn_verif)]
+impl Transform3d {
+    /// Verification hook: the fields are private and there is no other constructor.
+    pub const fn verif_new(pos: Vec3, rot: Quat, scale: Vec3) -> Self {
+        Self { pos, rot, scale }
+    }
+}
+
 impl Transformation3d for Transform3d {
     fn apply_origin(&self) -> Vec3 {
         self.pos
-- 
2.43.0


From 7fd93e03b0215880f6abc8b9d86617afbcbb1a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:08 +0000
Subject: [PATCH 25/29] fix: do not take NaN vectors for approximately zero

---
 src/utils/approx.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/utils/approx.rs b/src/utils/approx.rs
index 69a2c6a..4ac551f 100644
--- a/src/utils/approx.rs
+++ b/src/utils/approx.rs
@@ -45,11 +45,6 @@ impl Approx for Vec2 {
             return true;
         }
 
-        let magn_sq = self.length_squared().max(other.length_squared());
-        if magn_sq == 0.0 {
-            return true;
-        }
-
         let error = *self - *other;
         if error.x.is_nan() || error.y.is_nan() {
             return false;
@@ -59,6 +54,11 @@ impl Approx for Vec2 {
             return self == other;
         }
 
+        let magn_sq = self.length_squared().max(other.length_squared());
+        if magn_sq == 0.0 {
+            return true;
+        }
+
         let error_sq = error.length_squared();
         let relative_error_sq = error_sq / magn_sq;
 
@@ -85,11 +85,6 @@ impl Approx for Vec3 {
             return true;
         }
 
-        let magn_sq = self.length_squared().max(other.length_squared());
-        if magn_sq == 0.0 {
-            return true;
-        }
-
         let error = *self - *other;
         if error.x.is_nan() || error.y.is_nan() || error.z.is_nan() {
             return false;
@@ -99,6 +94,11 @@ impl Approx for Vec3 {
             return self == other;
         }
 
+        let magn_sq = self.length_squared().max(other.length_squared());
+        if magn_sq == 0.0 {
+            return true;
+        }
+
         let error_sq = error.length_squared();
         let relative_error_sq = error_sq / magn_sq;
 
-- 
2.43.0


From 87b774093b1a0afe024294b659c9f60a72338f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:25 +0000
Subject: [PATCH 26/29] Revert "verif hook: constructors of 3D transforms
 behind cfg(auburn_verif)"

This reverts commit f3b7c616bd1ee3772207cfcbd762249f0554b525.
---
 src/col3d/transformation3d/isotropic3d.rs | 9 ---------
 src/col3d/transformation3d/transform3d.rs | 9 ---------
 2 files changed, 18 deletions(-)

diff --git a/src/col3d/transformation3d/isotropic3d.rs b/src/col3d/transformation3d/isotropic3d.rs
index 5ad6e56..acd876a 100644
--- a/src/col3d/transformation3d/isotropic3d.rs
+++ b/src/col3d/transformation3d/isotropic3d.rs
@@ -34,15 +34,6 @@ impl Default for Isotropic3d {
 //     }
 // }
 
-#[allow(unexpected_cfgs)]
-#[cfg(auburn_verif)]
-impl Isotropic3d {
-    /// Verification hook: the fields are private and there is no other constructor.
-    pub const fn verif_new(pos: Vec3, rot: Quat, scale: f32) -> Self {
-        Self { pos, rot, scale }
-    }
-}
-
 impl Transformation3d for Isotropic3d {
     fn apply_origin(&self) -> Vec3 {
         self.pos
diff --git a/src/col3d/transformation3d/transform3d.rs b/src/col3d/transformation3d/transform3d.rs
index a883547..1765871 100644
--- a/src/col3d/transformation3d/transform3d.rs
+++ b/src/col3d/transformation3d/transform3d.rs
@@ -47,15 +47,6 @@ impl From<Transform3d> for bevy::prelude::Transform {
     }
 }
 
-#[allow(unexpected_cfgs)]
-#[cfg(auburn_verif)]
-impl Transform3d {
-    /// Verification hook: the fields are private and there is no other constructor.
-    pub const fn verif_new(pos: Vec3, rot: Quat, scale: Vec3) -> Self {
-        Self { pos, rot, scale }
-    }
-}
-
 impl Transformation3d for Transform3d {
     fn apply_origin(&self) -> Vec3 {
         self.pos
-- 
2.43.0


From 5ddbf0c16ff6d19a662653d2cdee9721b916d5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:12 +0000
Subject: [PATCH 27/29] fix: penetration of a point near the centre of a small
 3D ball

The absolute threshold took any point of a small ball for its centre.
---
 src/col3d/shape/ball3d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/col3d/shape/ball3d.rs b/src/col3d/shape/ball3d.rs
index 46f4881..c4ed34a 100644
--- a/src/col3d/shape/ball3d.rs
+++ b/src/col3d/shape/ball3d.rs
@@ -31,7 +31,7 @@ impl PenetratesRel3d<Point> for Ball {
         if self.collides_rel(t, rel) {
             let delta = rel.apply_origin();
             let distance_to_center = delta.length();
-            if distance_to_center < f32::EPSILON {
+            if distance_to_center <= f32::EPSILON * self.radius {
                 Some(Vec3::new(self.radius, 0.0, 0.0))
             } else {
                 let old_magn = distance_to_center;
-- 
2.43.0


From 7e53bd73f6adbdbc04c002baa5affc55b47054ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:23 +0000
Subject: [PATCH 28/29] fix: reject saved tilemaps with malformed chunks

---
 src/col2d/shape/tilemap.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/col2d/shape/tilemap.rs b/src/col2d/shape/tilemap.rs
index 528dca1..8282eaa 100644
--- a/src/col2d/shape/tilemap.rs
+++ b/src/col2d/shape/tilemap.rs
@@ -39,9 +39,26 @@ pub struct Tilemap {
 
 #[derive(Debug, Serialize, Deserialize)]
 pub struct Chunk {
+    #[serde(deserialize_with = "deserialize_chunk_array")]
     pub array2d: Array2d<u8>,
 }
 
+/// Rejects arrays that do not have the layout of a chunk, accessing their tiles would panic.
+fn deserialize_chunk_array<'de, D>(deserializer: D) -> Result<Array2d<u8>, D::Error>
+where
+    D: serde::Deserializer<'de>,
+{
+    let array2d = Array2d::deserialize(deserializer)?;
+    let expected = Chunk::default().array2d;
+    if array2d.dims != expected.dims
+        || array2d.dim_strides != expected.dim_strides
+        || array2d.data.len() != expected.data.len()
+    {
+        return Err(serde::de::Error::custom("malformed chunk"));
+    }
+    Ok(array2d)
+}
+
 impl Default for Chunk {
     fn default() -> Self {
         Self {
-- 
2.43.0


From a6816f37c41ccee59f4003fadf7101a9a396a158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:46 +0000
Subject: [PATCH 29/29] fix: scale the scalar distance from a 3D point to a
 scaled shape

Point::sdf_rel answered in the units of the other shape, unlike sdfv_rel and penetrates_rel,
which answer in those of the point.
---
 src/col/bevy_transform.rs                      | 4 ++++
 src/col/mod.rs                                 | 9 +++++++++
 src/col3d/default_impls.rs                     | 2 +-
 src/col3d/transformation3d/axis_transform3d.rs | 4 ++++
 src/col3d/transformation3d/isotropic3d.rs      | 4 ++++
 src/col3d/transformation3d/transform3d.rs      | 4 ++++
 src/col3d/transformation3d/translate3d.rs      | 8 ++++++++
 7 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/col/bevy_transform.rs b/src/col/bevy_transform.rs
index 649e41e..b0ae2fd 100644
--- a/src/col/bevy_transform.rs
+++ b/src/col/bevy_transform.rs
@@ -16,6 +16,10 @@ impl Transformation3d for bevy::prelude::Transform {
     fn unapply(&self, point: Vec3) -> Vec3 {
         self.rotation.inverse() * (point - self.translation) / self.scale
     }
+
+    fn scaling_factor(&self) -> f32 {
+        self.scale.max_element()
+    }
 }
 
 impl Invertible for bevy::prelude::Transform {
diff --git a/src/col/mod.rs b/src/col/mod.rs
index 713cfbd..f94947f 100644
--- a/src/col/mod.rs
+++ b/src/col/mod.rs
@@ -26,6 +26,11 @@ pub trait Transformation3d {
 
     /// Invert transformation.
     fn unapply(&self, point: Vec3) -> Vec3;
+
+    /// Get the scaling factor of the transformation.
+    fn scaling_factor(&self) -> f32 {
+        (self.apply(Vec3::X) - self.apply_origin()).length()
+    }
 }
 
 impl Transformation3d for IdentityTransform {
@@ -40,4 +45,8 @@ impl Transformation3d for IdentityTransform {
     fn unapply(&self, point: Vec3) -> Vec3 {
         point
     }
+
+    fn scaling_factor(&self) -> f32 {
+        1.0
+    }
 }
diff --git a/src/col3d/default_impls.rs b/src/col3d/default_impls.rs
index e9df325..f6f5234 100644
--- a/src/col3d/default_impls.rs
+++ b/src/col3d/default_impls.rs
@@ -68,7 +68,7 @@ where
     A: SdfRel3d<Point>,
 {
     fn sdf_rel(&self, t: &A, rel: &impl Transformation3d) -> f32 {
-        t.sdf_rel(&Point, &rel.unapply_origin())
+        rel.scaling_factor() * t.sdf_rel(&Point, &rel.unapply_origin())
     }
 }
 
diff --git a/src/col3d/transformation3d/axis_transform3d.rs b/src/col3d/transformation3d/axis_transform3d.rs
index f31c058..59011fb 100644
--- a/src/col3d/transformation3d/axis_transform3d.rs
+++ b/src/col3d/transformation3d/axis_transform3d.rs
@@ -29,6 +29,10 @@ impl Transformation3d for AxisTransform3d {
     fn unapply(&self, point: Vec3) -> Vec3 {
         (point - self.pos) / self.scale
     }
+
+    fn scaling_factor(&self) -> f32 {
+        self.scale
+    }
 }
 
 impl Invertible for AxisTransform3d {
diff --git a/src/col3d/transformation3d/isotropic3d.rs b/src/col3d/transformation3d/isotropic3d.rs
index acd876a..fd0f84d 100644
--- a/src/col3d/transformation3d/isotropic3d.rs
+++ b/src/col3d/transformation3d/isotropic3d.rs
@@ -46,6 +46,10 @@ impl Transformation3d for Isotropic3d {
     fn unapply(&self, point: Vec3) -> Vec3 {
         self.rot.inverse() * (point - self.pos) / self.scale
     }
+
+    fn scaling_factor(&self) -> f32 {
+        self.scale
+    }
 }
 
 impl Invertible for Isotropic3d {
diff --git a/src/col3d/transformation3d/transform3d.rs b/src/col3d/transformation3d/transform3d.rs
index 1765871..67e698d 100644
--- a/src/col3d/transformation3d/transform3d.rs
+++ b/src/col3d/transformation3d/transform3d.rs
@@ -59,6 +59,10 @@ impl Transformation3d for Transform3d {
     fn unapply(&self, point: Vec3) -> Vec3 {
         self.rot.inverse() * (point - self.pos) / self.scale
     }
+
+    fn scaling_factor(&self) -> f32 {
+        self.scale.max_element()
+    }
 }
 
 impl Invertible for Transform3d {
diff --git a/src/col3d/transformation3d/translate3d.rs b/src/col3d/transformation3d/translate3d.rs
index 5ebdb2f..a606430 100644
--- a/src/col3d/transformation3d/translate3d.rs
+++ b/src/col3d/transformation3d/translate3d.rs
@@ -23,6 +23,10 @@ impl Transformation3d for Vec3 {
     fn unapply(&self, point: Vec3) -> Vec3 {
         point - *self
     }
+
+    fn scaling_factor(&self) -> f32 {
+        1.0
+    }
 }
 
 impl Invertible for Vec3 {
@@ -55,6 +59,10 @@ impl Transformation3d for Translate3d {
     fn unapply(&self, point: Vec3) -> Vec3 {
         point - self.pos
     }
+
+    fn scaling_factor(&self) -> f32 {
+        1.0
+    }
 }
 
 impl Invertible for Translate3d {
-- 
2.43.0

