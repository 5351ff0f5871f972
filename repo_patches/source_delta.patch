From 00a55fef2e5066b9e6c8700e777a4f5cca0a4f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:48 +0000
Subject: [PATCH 01/21] fix: insert_vertex_bw points at a live tetrahedron
 after filling a large cavity

---
 src/triangle/tetrahedron.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/triangle/tetrahedron.rs b/src/triangle/tetrahedron.rs
index 6f66c17..356d9ac 100644
--- a/src/triangle/tetrahedron.rs
+++ b/src/triangle/tetrahedron.rs
@@ -1060,8 +1060,10 @@ fn insert_vertex_bw(tets: &mut TetMesh, pid: usize, searchtet: &mut TriFace, bum
             }
         }
 
-        // randomly pick a new tet
-        *searchtet = cave_bdry_list[f_out >> 1].clone();
+        // randomly pick a new tet (the list still holds the old ones)
+        let mut neightet = TriFace::default();
+        tets.fsym(&cave_bdry_list[f_out >> 1], &mut neightet);
+        tets.fsym(&neightet, searchtet);
         tets.p2t[pid] = searchtet.tet;
 
         for mut oldtet in cave_bdry_list {
-- 
2.43.0


From b91c2880808ca0dbacc31ef2811f069b24942ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:26 +0000
Subject: [PATCH 02/21] fix: tetrahedralize no longer gives up on clustered
 points for unlucky shuffles

---
 src/triangle/tetrahedron.rs | 74 +++++++++++++++----------------------
 1 file changed, 30 insertions(+), 44 deletions(-)

diff --git a/src/triangle/tetrahedron.rs b/src/triangle/tetrahedron.rs
index 356d9ac..1fa2d03 100644
--- a/src/triangle/tetrahedron.rs
+++ b/src/triangle/tetrahedron.rs
@@ -1140,67 +1140,53 @@ pub fn tetrahedralize<'a>(points: &'a [f64]) -> TetMesh<'a> {
     };
     let bbox_size2 = bbox_size1 * bbox_size1;
     let bbox_size3 = bbox_size2 * bbox_size1;
-    let mut i = 1;
+    // The first point comes from the shuffle; spread the other three as far apart as possible, so
+    // that whether the points span a tetrahedron does not depend on the insertion order.
+    let mut ori = 0.0;
     {
         let p0 = point(points, sorted_pt_inds[0]);
-        while i < mesh.n_points {
-            let pi = point(points, sorted_pt_inds[i]);
-            sub(p0, pi, &mut temp_vec3);
-            if norm(&temp_vec3) / bbox_size1 < EPS {
-                i += 1;
-            } else {
-                break;
+        let mut best = 0.0;
+        for i in 1..mesh.n_points {
+            sub(point(points, sorted_pt_inds[i]), p0, &mut temp_vec3);
+            let len = norm(&temp_vec3);
+            if len > best {
+                best = len;
+                sorted_pt_inds.swap(1, i);
             }
         }
-        if i > 1 {
-            if i == mesh.n_points {
-                return mesh;
-            }
-            sorted_pt_inds.swap(1, i);
+        if !(best / bbox_size1 >= EPS) {
+            return mesh;
         }
 
-        i = 2;
         let p1 = point(points, sorted_pt_inds[1]);
         sub(p1, p0, &mut temp_vec3);
-        while i < mesh.n_points {
-            let pi = point(points, sorted_pt_inds[i]);
+        best = 0.0;
+        for i in 2..mesh.n_points {
             let mut v2 = [0.0; 3];
-            sub(pi, p0, &mut v2);
+            sub(point(points, sorted_pt_inds[i]), p0, &mut v2);
             let mut n = [0.0; 3];
             cross(&temp_vec3, &v2, &mut n);
-            if norm(&n) / bbox_size2 < EPS {
-                i += 1;
-            } else {
-                break;
+            let len = norm(&n);
+            if len > best {
+                best = len;
+                sorted_pt_inds.swap(2, i);
             }
         }
-        if i > 2 {
-            if i == mesh.n_points {
-                return mesh;
-            };
-            sorted_pt_inds.swap(2, i);
+        if !(best / bbox_size2 >= EPS) {
+            return mesh;
         }
-    }
-    i = 3;
-    let mut ori = 0.0;
-    while i < mesh.n_points {
-        ori = predicates::orient3d_fast(
-            point(points, sorted_pt_inds[0]),
-            point(points, sorted_pt_inds[1]),
-            point(points, sorted_pt_inds[2]),
-            point(points, sorted_pt_inds[i]),
-        );
-        if ori.abs() / bbox_size3 < EPS {
-            i += 1;
-        } else {
-            break;
+
+        let p2 = point(points, sorted_pt_inds[2]);
+        for i in 3..mesh.n_points {
+            let vol = predicates::orient3d_fast(p0, p1, p2, point(points, sorted_pt_inds[i]));
+            if vol.abs() > f64::abs(ori) {
+                ori = vol;
+                sorted_pt_inds.swap(3, i);
+            }
         }
-    }
-    if i > 3 {
-        if i == mesh.n_points {
+        if !(ori.abs() / bbox_size3 >= EPS) {
             return mesh;
         }
-        sorted_pt_inds.swap(3, i);
     }
 
     // follow the right rule
-- 
2.43.0


From 40651a586eb8dd8196f8d55f718acf5227cc807a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:03 +0000
Subject: [PATCH 03/21] fix: IntervalNumber reports its sign the right way
 round

---
 src/predicates/interval_number.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/predicates/interval_number.rs b/src/predicates/interval_number.rs
index ccda78c..95c2ff6 100644
--- a/src/predicates/interval_number.rs
+++ b/src/predicates/interval_number.rs
@@ -8,7 +8,7 @@ const SIGN_HIGH_MASK: u64x2 = u64x2::from_array([(1_u64 << 63), 0u64]);
 
 #[derive(Clone)]
 pub struct IntervalNumber {
-    /// [high; low]
+    /// [high; -low]
     data: f64x2,
 }
 
@@ -16,7 +16,7 @@ impl IntervalNumber {
     #[inline(always)]
     pub fn new(low: f64, high: f64) -> Self {
         Self {
-            data: f64x2::from_array([high, low]),
+            data: f64x2::from_array([high, -low]),
         }
     }
 }
@@ -47,12 +47,12 @@ impl IntervalNumber {
 
     #[inline(always)]
     pub fn positive(&self) -> bool {
-        self.data[0] < 0.0
+        self.data[1] < 0.0
     }
 
     #[inline(always)]
     pub fn negative(&self) -> bool {
-        self.data[1] < 0.0
+        self.data[0] < 0.0
     }
 
     #[inline(always)]
-- 
2.43.0


From d71c285b9f9eebbc1a7bd2f14c4420b62b389b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:47 +0000
Subject: [PATCH 04/21] fix: interval multiplication keeps its bounds in order

---
 src/predicates/interval_number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/predicates/interval_number.rs b/src/predicates/interval_number.rs
index 95c2ff6..fa8d0ba 100644
--- a/src/predicates/interval_number.rs
+++ b/src/predicates/interval_number.rs
@@ -99,7 +99,7 @@ fn mul(a: &IntervalNumber, b: &IntervalNumber) -> IntervalNumber {
         0 => {
             let llhh = a.data * b.data;
             let lhhl = a.data * b.data.reverse();
-            [lhhl.reduce_max(), llhh.reduce_max()].into()
+            [llhh.reduce_max(), lhhl.reduce_max()].into()
         }
 
         1 => a.data.reverse() * f64x2::from([b.data[1], b.data[1]]),
@@ -120,7 +120,7 @@ fn mul(a: &IntervalNumber, b: &IntervalNumber) -> IntervalNumber {
             a.data * f64x2::from_bits(bi).reverse()
         }
 
-        8 => (f64x2::from([a.data[0]; 2]) * b.data).reverse(),
+        8 => f64x2::from([a.data[0]; 2]) * b.data,
 
         9 => {
             let mut ai = a.data.to_bits();
-- 
2.43.0


From 3602dd3c3bf47307aeadd59ca0162cfc5975e6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:16 +0000
Subject: [PATCH 05/21] fix: less_than on y and z compares the same coordinate
 of both implicit points in the interval filter

---
 src/predicates/less_than.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/predicates/less_than.rs b/src/predicates/less_than.rs
index 0219214..3827f92 100644
--- a/src/predicates/less_than.rs
+++ b/src/predicates/less_than.rs
@@ -449,9 +449,9 @@ fn less_than_ii<
         let det = if AXIS == 0 {
             less_than_ii_impl(&pa_dynamic.x, &pa_dynamic.d, &pb_dynamic.x, &pb_dynamic.d)
         } else if AXIS == 1 {
-            less_than_ii_impl(&pa_dynamic.y, &pa_dynamic.d, &pb_dynamic.x, &pb_dynamic.d)
+            less_than_ii_impl(&pa_dynamic.y, &pa_dynamic.d, &pb_dynamic.y, &pb_dynamic.d)
         } else {
-            less_than_ii_impl(&pa_dynamic.z, &pa_dynamic.d, &pb_dynamic.x, &pb_dynamic.d)
+            less_than_ii_impl(&pa_dynamic.z, &pa_dynamic.d, &pb_dynamic.z, &pb_dynamic.d)
         };
 
         if det.not_zero() {
-- 
2.43.0


From 49503b4591906f7f5e89471b0d0bb5dfdc4d881f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:34 +0000
Subject: [PATCH 06/21] fix: less_than keeps its sign when the operands are
 taken in swapped order

---
 src/predicates/less_than.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/predicates/less_than.rs b/src/predicates/less_than.rs
index 3827f92..091bbaa 100644
--- a/src/predicates/less_than.rs
+++ b/src/predicates/less_than.rs
@@ -1,20 +1,20 @@
 use std::alloc::Allocator;
 
 use super::{
-    double_to_sign, ExplicitPoint3D, GenericNum, ImplicitPoint3D, ImplicitPointLPI,
+    double_to_sign, sign_reverse, ExplicitPoint3D, GenericNum, ImplicitPoint3D, ImplicitPointLPI,
     ImplicitPointTPI, Orientation, Point3D,
 };
 
 pub fn less_than_on_x<A: Allocator + Copy>(pa: &Point3D, pb: &Point3D, bump: A) -> Orientation {
     match (pa, pb) {
         (Point3D::Explicit(pa), Point3D::Explicit(pb)) => less_than_ee::<0>(pa, pb),
-        (Point3D::Explicit(pa), Point3D::LPI(pb)) => less_than_on_x_le(pb, pa, bump),
-        (Point3D::Explicit(pa), Point3D::TPI(pb)) => less_than_on_x_te(pb, pa, bump),
+        (Point3D::Explicit(pa), Point3D::LPI(pb)) => sign_reverse(less_than_on_x_le(pb, pa, bump)),
+        (Point3D::Explicit(pa), Point3D::TPI(pb)) => sign_reverse(less_than_on_x_te(pb, pa, bump)),
         (Point3D::LPI(pa), Point3D::Explicit(pb)) => less_than_on_x_le(pa, pb, bump),
         (Point3D::LPI(pa), Point3D::LPI(pb)) => less_than_on_x_ll(pa, pb, bump),
         (Point3D::LPI(pa), Point3D::TPI(pb)) => less_than_on_x_lt(pa, pb, bump),
         (Point3D::TPI(pa), Point3D::Explicit(pb)) => less_than_on_x_te(pa, pb, bump),
-        (Point3D::TPI(pa), Point3D::LPI(pb)) => less_than_on_x_lt(pb, pa, bump),
+        (Point3D::TPI(pa), Point3D::LPI(pb)) => sign_reverse(less_than_on_x_lt(pb, pa, bump)),
         (Point3D::TPI(pa), Point3D::TPI(pb)) => less_than_on_x_tt(pa, pb, bump),
     }
 }
@@ -22,13 +22,13 @@ pub fn less_than_on_x<A: Allocator + Copy>(pa: &Point3D, pb: &Point3D, bump: A)
 pub fn less_than_on_y<A: Allocator + Copy>(pa: &Point3D, pb: &Point3D, bump: A) -> Orientation {
     match (pa, pb) {
         (Point3D::Explicit(pa), Point3D::Explicit(pb)) => less_than_ee::<1>(pa, pb),
-        (Point3D::Explicit(pa), Point3D::LPI(pb)) => less_than_on_y_le(pb, pa, bump),
-        (Point3D::Explicit(pa), Point3D::TPI(pb)) => less_than_on_y_te(pb, pa, bump),
+        (Point3D::Explicit(pa), Point3D::LPI(pb)) => sign_reverse(less_than_on_y_le(pb, pa, bump)),
+        (Point3D::Explicit(pa), Point3D::TPI(pb)) => sign_reverse(less_than_on_y_te(pb, pa, bump)),
         (Point3D::LPI(pa), Point3D::Explicit(pb)) => less_than_on_y_le(pa, pb, bump),
         (Point3D::LPI(pa), Point3D::LPI(pb)) => less_than_on_y_ll(pa, pb, bump),
         (Point3D::LPI(pa), Point3D::TPI(pb)) => less_than_on_y_lt(pa, pb, bump),
         (Point3D::TPI(pa), Point3D::Explicit(pb)) => less_than_on_y_te(pa, pb, bump),
-        (Point3D::TPI(pa), Point3D::LPI(pb)) => less_than_on_y_lt(pb, pa, bump),
+        (Point3D::TPI(pa), Point3D::LPI(pb)) => sign_reverse(less_than_on_y_lt(pb, pa, bump)),
         (Point3D::TPI(pa), Point3D::TPI(pb)) => less_than_on_y_tt(pa, pb, bump),
     }
 }
@@ -36,13 +36,13 @@ pub fn less_than_on_y<A: Allocator + Copy>(pa: &Point3D, pb: &Point3D, bump: A)
 pub fn less_than_on_z<A: Allocator + Copy>(pa: &Point3D, pb: &Point3D, bump: A) -> Orientation {
     match (pa, pb) {
         (Point3D::Explicit(pa), Point3D::Explicit(pb)) => less_than_ee::<2>(pa, pb),
-        (Point3D::Explicit(pa), Point3D::LPI(pb)) => less_than_on_z_le(pb, pa, bump),
-        (Point3D::Explicit(pa), Point3D::TPI(pb)) => less_than_on_z_te(pb, pa, bump),
+        (Point3D::Explicit(pa), Point3D::LPI(pb)) => sign_reverse(less_than_on_z_le(pb, pa, bump)),
+        (Point3D::Explicit(pa), Point3D::TPI(pb)) => sign_reverse(less_than_on_z_te(pb, pa, bump)),
         (Point3D::LPI(pa), Point3D::Explicit(pb)) => less_than_on_z_le(pa, pb, bump),
         (Point3D::LPI(pa), Point3D::LPI(pb)) => less_than_on_z_ll(pa, pb, bump),
         (Point3D::LPI(pa), Point3D::TPI(pb)) => less_than_on_z_lt(pa, pb, bump),
         (Point3D::TPI(pa), Point3D::Explicit(pb)) => less_than_on_z_te(pa, pb, bump),
-        (Point3D::TPI(pa), Point3D::LPI(pb)) => less_than_on_z_lt(pb, pa, bump),
+        (Point3D::TPI(pa), Point3D::LPI(pb)) => sign_reverse(less_than_on_z_lt(pb, pa, bump)),
         (Point3D::TPI(pa), Point3D::TPI(pb)) => less_than_on_z_tt(pa, pb, bump),
     }
 }
-- 
2.43.0


From 7cf1b7864bc52d5d2185ffa6f130316848173ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:40 +0000
Subject: [PATCH 07/21] fix: outlines keep a vertex where more than two of
 their edges meet

---
 src/polygonlization/bsp_complex.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/polygonlization/bsp_complex.rs b/src/polygonlization/bsp_complex.rs
index 441b926..b2fd620 100644
--- a/src/polygonlization/bsp_complex.rs
+++ b/src/polygonlization/bsp_complex.rs
@@ -882,6 +882,17 @@ impl BSPComplex {
             groups
         }));
 
+        // the number of outline edges at each vertex: a vertex where more than two of them meet
+        // is a corner of every outline through it
+        let mut vert_outline_edges = vec![0; self.vertex_data.len()];
+        for edge in self.mesh.edges() {
+            if edge_face_groups[*edge].len() > 1 {
+                for vid in self.mesh.e_vertices(*edge) {
+                    vert_outline_edges[vid] += 1;
+                }
+            }
+        }
+
         Vec::from_iter(group_map.into_values().map(|indices| {
             bump.reset();
             let mut tid = INVALID_IND;
@@ -915,6 +926,7 @@ impl BSPComplex {
                         &mut edge_groups,
                         &mut edge_in_group,
                         &edge_face_groups,
+                        &vert_outline_edges,
                         axis,
                         &bump,
                     )
@@ -1062,6 +1074,7 @@ impl BSPComplex {
         edge_groups: &mut Vec<EdgeGroup>,
         edge_in_group: &mut [usize],
         edge_face_groups: &[Vec<usize>],
+        vert_outline_edges: &[usize],
         axis: usize,
         bump: A,
     ) -> Vec<VertexId> {
@@ -1080,6 +1093,9 @@ impl BSPComplex {
         let colinear = |ha: &(EdgeId, bool), hb: &(EdgeId, bool)| {
             let ea = ha.0;
             let eb = hb.0;
+            if vert_outline_edges[end_vertex(ha)] > 2 {
+                return false;
+            }
             if edge_face_groups[ea] != edge_face_groups[eb] {
                 return false;
             }
-- 
2.43.0


From 26d5ac283eea9471d293f3af1b8fd6ce24a68524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:22 +0000
Subject: [PATCH 08/21] fix: coplanar triangles of opposite orientation are no
 longer lost when a cell is split

---
 src/polygonlization/bsp_complex.rs | 37 +++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/polygonlization/bsp_complex.rs b/src/polygonlization/bsp_complex.rs
index b2fd620..8bfcc60 100644
--- a/src/polygonlization/bsp_complex.rs
+++ b/src/polygonlization/bsp_complex.rs
@@ -265,14 +265,27 @@ impl BSPComplex {
             bump,
         );
 
+        // coplanar triangles are compared along one axis: that of the pivot triangle
+        let base_tri_axis = self.tri_axes[tid];
+        let base_tri_ori = self.tri_orientations[tid];
+        let tri_ori_along_base_axis = |tri: &[VertexId], points: &[Point3D]| {
+            orient2d::orient2d_by_axis(
+                &points[tri[0]],
+                &points[tri[1]],
+                &points[tri[2]],
+                base_tri_axis,
+                bump,
+            )
+        };
+
         // save the orientation of the triangle for other coplanar triangles
         if coplanar_triangles.len() > 1 {
-            let base_tri_ori = self.tri_orientations[tid];
-            for &vid in &cell_verts {
-                let ori = *self.vert_orientations[tid].get(&vid).unwrap();
-                for i in 0..coplanar_triangles.len() - 1 {
-                    let coplanar_tid = coplanar_triangles[i];
-                    let coplanar_ori = self.tri_orientations[coplanar_tid];
+            for i in 0..coplanar_triangles.len() - 1 {
+                let coplanar_tid = coplanar_triangles[i];
+                let coplanar_ori =
+                    tri_ori_along_base_axis(triangle(coplanar_tid, &self.constraints), &self.points);
+                for &vid in &cell_verts {
+                    let ori = *self.vert_orientations[tid].get(&vid).unwrap();
                     if base_tri_ori == coplanar_ori {
                         self.vert_orientations[coplanar_tid].insert(vid, ori);
                     } else {
@@ -367,8 +380,9 @@ impl BSPComplex {
                 is_triangle_intersects_poly(
                     &coplanar_pts,
                     &intersect_poly,
-                    self.tri_orientations[coplanar_tid],
-                    self.tri_axes[coplanar_tid],
+                    tri_ori_along_base_axis(coplanar_tri, &self.points),
+                    base_tri_ori,
+                    base_tri_axis,
                     bump,
                 )
             });
@@ -1868,7 +1882,8 @@ fn is_triangle_intersects_cell<A: Allocator + Copy>(
 fn is_triangle_intersects_poly<A: Allocator + Copy>(
     tri: &[&Point3D],
     poly: &[&Point3D],
-    base_ori: Orientation,
+    tri_ori: Orientation,
+    poly_ori: Orientation,
     axis: usize,
     alloc: A,
 ) -> bool {
@@ -1882,7 +1897,7 @@ fn is_triangle_intersects_poly<A: Allocator + Copy>(
                     continue;
                 }
 
-                if ori == base_ori {
+                if ori == tri_ori {
                     has_inside = true;
                 } else {
                     all_poly_verts_inside[i] = false;
@@ -1904,7 +1919,7 @@ fn is_triangle_intersects_poly<A: Allocator + Copy>(
                 if ori == Orientation::Zero {
                     continue;
                 }
-                if ori == base_ori {
+                if ori == poly_ori {
                     has_inside = true;
                 }
             }
-- 
2.43.0


From 355fd83d0a2901fbc7d490903e5a0d8a3fbb04d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:45 +0000
Subject: [PATCH 09/21] fix: a constraint cutting a tetrahedron corner along a
 diagonal of its section is recorded

---
 src/polygonlization/conforming_mesh.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/polygonlization/conforming_mesh.rs b/src/polygonlization/conforming_mesh.rs
index 92ecc3d..eec594e 100644
--- a/src/polygonlization/conforming_mesh.rs
+++ b/src/polygonlization/conforming_mesh.rs
@@ -883,24 +883,21 @@ fn constraint_intersect_empty<A: Allocator + Copy>(
     pos_vs: &[usize],
     bump: A,
 ) -> bool {
-    let mut all_cross = true;
+    // number of vertices of the section which are on the sides of the constraint
+    let mut n_cross = 0;
     for &nv in neg_vs {
-        if !all_cross {
-            break;
-        }
         for &pv in pos_vs {
-            if !c
-                .iter()
+            if c.iter()
                 .circular_tuple_windows()
                 .any(|(&va, &vb)| vert_inner_segment_cross(mesh, nv, pv, va, vb, bump))
             {
-                all_cross = false;
-                break;
+                n_cross += 1;
             }
         }
     }
 
-    if all_cross {
+    // three of them already span an area inside the constraint
+    if n_cross > 2 {
         return true;
     }
 
-- 
2.43.0


From 10ad87dea1887fa6901ad629e2eef094b5da3ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:09 +0000
Subject: [PATCH 10/21] fix: PushRelabelFifo reports a minimum cut

---
 src/graphcut/push_relabel_fifo.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graphcut/push_relabel_fifo.rs b/src/graphcut/push_relabel_fifo.rs
index fb13a92..1de8ec6 100644
--- a/src/graphcut/push_relabel_fifo.rs
+++ b/src/graphcut/push_relabel_fifo.rs
@@ -227,6 +227,8 @@ where
                 self.global_relabel();
             }
         }
+        // the labels tell the side of the cut only if they are up to date
+        self.global_relabel();
     }
 
     #[inline(always)]
-- 
2.43.0


From b696a85154e2fb219916d3328b0fad9d39e874dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:09 +0000
Subject: [PATCH 11/21] fix: GraphCut puts nodes outside both trees on one side
 of the cut

---
 src/graphcut/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/graphcut/mod.rs b/src/graphcut/mod.rs
index 1b94148..56b66e2 100644
--- a/src/graphcut/mod.rs
+++ b/src/graphcut/mod.rs
@@ -514,6 +514,12 @@ impl GraphCut {
                 current_node = INVALID_IND;
             }
         }
+        // nodes left in neither tree may still carry the side of an earlier tree
+        for (is_sink, &parent) in self.is_sink.iter_mut().zip(&self.parent) {
+            if parent == INVALID_IND {
+                *is_sink = false;
+            }
+        }
         return self.flow;
     }
 }
-- 
2.43.0


From b8dbc32696e0231135800b50dff3ca8c234ea40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:23 +0000
Subject: [PATCH 12/21] fix: orient3d adds the correction terms of the third
 point's x tail

The last group of second-order corrections passed the z tail instead of the x
tail, so nearly coplanar points with inexact differences got a wrong sign.
---
 src/predicates/predicates.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/predicates/predicates.rs b/src/predicates/predicates.rs
index d344b12..fff11b1 100644
--- a/src/predicates/predicates.rs
+++ b/src/predicates/predicates.rs
@@ -729,7 +729,7 @@ fn orient3d_adapt<A: Allocator + Copy>(
         bdxtail, cdytail, cdztail, cdz, adz, adytail, adztail, &mut fin, allocator,
     );
     helper2(
-        cdztail, adytail, adztail, adz, bdz, bdytail, bdztail, &mut fin, allocator,
+        cdxtail, adytail, adztail, adz, bdz, bdytail, bdztail, &mut fin, allocator,
     );
 
     if adztail != 0.0 {
-- 
2.43.0


From b8fae0a80a0652542141114ac88cd11b37cde0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:23 +0000
Subject: [PATCH 13/21] fix: expansion_sum adds its second operand

Only the first component of the second operand was added; the components of
the first operand were then added a second time.
---
 src/predicates/predicates.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/predicates/predicates.rs b/src/predicates/predicates.rs
index fff11b1..81b895d 100644
--- a/src/predicates/predicates.rs
+++ b/src/predicates/predicates.rs
@@ -245,8 +245,8 @@ pub fn expansion_sum<A: Allocator>(earr: &[f64], farr: &[f64], allocator: A) ->
         r
     }));
     h_arr.push(q);
-    earr.iter().enumerate().skip(1).for_each(|(start, &e)| {
-        q = e;
+    farr.iter().enumerate().skip(1).for_each(|(start, &f)| {
+        q = f;
         for h in &mut h_arr[start..] {
             let (qnew, enew) = two_sum(q, *h);
             q = qnew;
-- 
2.43.0


From 7e21e3b3006620fe55b10c88d7588e30ea2c5864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:14 +0000
Subject: [PATCH 14/21] fix: triangulate marks the first part of a segment that
 meets a point on its way

---
 src/triangle/triangle.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/triangle/triangle.rs b/src/triangle/triangle.rs
index 8ae211a..305d607 100644
--- a/src/triangle/triangle.rs
+++ b/src/triangle/triangle.rs
@@ -1157,18 +1157,17 @@ fn constrained_edge<A: Allocator + Copy>(
             break;
         }
     }
+    let v = dest(&m.triangles, &fixup_tri);
+    set_mark(
+        &mut m.triangles,
+        &fixup_tri,
+        if v == endpoint1 { twin(mark) } else { mark },
+        true,
+    );
     if collision {
         if !scout_segment(m, ghost, &mut fixup_tri, endpoint2, mark, bump) {
             constrained_edge(m, ghost, &mut fixup_tri, endpoint2, mark, vertex_map, bump);
         }
-    } else {
-        let v = dest(&m.triangles, &fixup_tri);
-        set_mark(
-            &mut m.triangles,
-            &fixup_tri,
-            if v == endpoint2 { mark } else { twin(mark) },
-            true,
-        );
     }
 }
 
-- 
2.43.0


From 491fdf56d084bb51e5fc9803f119acbf93b96c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:44 +0000
Subject: [PATCH 15/21] fix: triangulate accepts segments between points that
 are all on one line

---
 src/triangle/triangle.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/triangle/triangle.rs b/src/triangle/triangle.rs
index 305d607..1d472e1 100644
--- a/src/triangle/triangle.rs
+++ b/src/triangle/triangle.rs
@@ -1200,7 +1200,8 @@ fn insert_segment<A: Allocator + Copy>(
 fn form_skeleton<A: Allocator + Copy>(m: &mut Mesh<A>, ghost: &[bool], segment: &[usize], bump: A) {
     let mut vertex_map = make_vertex_map(&m.triangles, ghost, m.points.len() >> 1, bump);
     for (i, seg) in segment.chunks(2).enumerate() {
-        if seg[0] != seg[1] {
+        // points that are all on one line are in no triangle
+        if seg[0] != seg[1] && vertex_map[seg[0]].tri != INVALID_IND {
             insert_segment(m, &mut vertex_map, ghost, seg[0], seg[1], i << 1, bump);
         }
     }
-- 
2.43.0


From bb7875e24cfdf19ae5d0e479456d165ba1298f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:55 +0000
Subject: [PATCH 16/21] fix: remove_duplicates merges points that round to the
 same position

---
 src/polygonlization/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/polygonlization/mod.rs b/src/polygonlization/mod.rs
index b6b2c16..8f69df3 100644
--- a/src/polygonlization/mod.rs
+++ b/src/polygonlization/mod.rs
@@ -27,12 +27,16 @@ pub fn remove_duplicates(points: &[f64], epsilon: f64) -> (Vec<f64>, Vec<usize>)
     let approx_points = Vec::from_iter(points.iter().map(|x| (x / base).round() * base));
     let n_points = points.len() / 3;
     let mut indices = Vec::from_iter(0..n_points);
-    indices.sort_unstable_by(|&i, &j| point(points, i).partial_cmp(point(points, j)).unwrap());
+    indices.sort_unstable_by(|&i, &j| {
+        point(&approx_points, i)
+            .partial_cmp(point(&approx_points, j))
+            .unwrap()
+    });
     let mut pmap = vec![0usize; n_points];
     let mut out_pt_indices = vec![indices[0]];
     for k in 1..n_points {
         let (i, j) = (indices[k], indices[k - 1]);
-        if point(points, i) == point(points, j) {
+        if point(&approx_points, i) == point(&approx_points, j) {
             pmap[i] = out_pt_indices.len() - 1;
         } else {
             pmap[i] = out_pt_indices.len();
-- 
2.43.0


From 4951d759fbd6f5dc24207a43775d622e7382fcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:55 +0000
Subject: [PATCH 17/21] fix: remove_duplicates without tolerance maps each
 point once

---
 src/polygonlization/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polygonlization/mod.rs b/src/polygonlization/mod.rs
index 8f69df3..735c4c9 100644
--- a/src/polygonlization/mod.rs
+++ b/src/polygonlization/mod.rs
@@ -19,7 +19,7 @@ pub fn remove_duplicates(points: &[f64], epsilon: f64) -> (Vec<f64>, Vec<usize>)
     if epsilon == 0.0 {
         return (
             Vec::from_iter(points.iter().map(|&x| x)),
-            Vec::from_iter(0..points.len()),
+            Vec::from_iter(0..points.len() / 3),
         );
     }
     let e = get_exponent(epsilon) - 1;
-- 
2.43.0


From 5d3f5bbd233b08b6bbec512003fbfaa1400e6029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:29 +0000
Subject: [PATCH 18/21] fix: a soup of nothing but degenerate triangles has no
 shells

---
 src/polygonlization/bsp_complex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polygonlization/bsp_complex.rs b/src/polygonlization/bsp_complex.rs
index 8bfcc60..6187e97 100644
--- a/src/polygonlization/bsp_complex.rs
+++ b/src/polygonlization/bsp_complex.rs
@@ -624,7 +624,7 @@ impl BSPComplex {
             (areas, face_centers)
         };
 
-        let n_shells = *tri_in_shell.iter().max().unwrap() + 1;
+        let n_shells = tri_in_shell.iter().max().map_or(0, |&id| id + 1);
         let mut cell_costs_external = vec![vec![0.0; self.cell_data.len() + 1]; n_shells];
         let mut cell_costs_internal = vec![vec![0.0; self.cell_data.len() + 1]; n_shells];
         let mut is_black = vec![vec![false; self.mesh.n_faces()]; n_shells];
-- 
2.43.0


From 9d74d6e08639e5aa62e11d13cb7b25696286416f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:42 +0000
Subject: [PATCH 19/21] fix: removing duplicates from no points gives no points

---
 src/polygonlization/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polygonlization/mod.rs b/src/polygonlization/mod.rs
index 735c4c9..a09de4d 100644
--- a/src/polygonlization/mod.rs
+++ b/src/polygonlization/mod.rs
@@ -16,7 +16,7 @@ fn point(points: &[f64], idx: usize) -> &[f64] {
 }
 
 pub fn remove_duplicates(points: &[f64], epsilon: f64) -> (Vec<f64>, Vec<usize>) {
-    if epsilon == 0.0 {
+    if epsilon == 0.0 || points.is_empty() {
         return (
             Vec::from_iter(points.iter().map(|&x| x)),
             Vec::from_iter(0..points.len() / 3),
-- 
2.43.0


From 5dbb6ab08251cfda5f5f40bdf333a3680f66648e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:01 +0000
Subject: [PATCH 20/21] fix: fewer than three points have no triangulation

---
 src/triangle/triangle.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/triangle/triangle.rs b/src/triangle/triangle.rs
index 1d472e1..4905c2b 100644
--- a/src/triangle/triangle.rs
+++ b/src/triangle/triangle.rs
@@ -12,6 +12,9 @@ pub fn triangulate<A: Allocator + Copy>(
     bump: A,
 ) -> Vec<usize, A> {
     let n_points = points.len() >> 1;
+    if n_points < 3 {
+        return Vec::new_in(bump);
+    }
     let mut sorted_pt_inds = Vec::with_capacity_in(n_points, bump);
     sorted_pt_inds.extend(0..n_points);
     sorted_pt_inds.sort_unstable_by(|&i, &j| {
-- 
2.43.0


From 1f71e57adcc62f6e2ae732cb65457b0b0501c3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:01 +0000
Subject: [PATCH 21/21] fix: a surface mesh of no polygons is empty

---
 src/mesh/surface_mesh.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mesh/surface_mesh.rs b/src/mesh/surface_mesh.rs
index fee819a..acd309d 100644
--- a/src/mesh/surface_mesh.rs
+++ b/src/mesh/surface_mesh.rs
@@ -33,8 +33,7 @@ impl SurfaceMesh {
             .iter()
             .map(|polygon| *polygon.as_ref().iter().max().unwrap())
             .max()
-            .unwrap()
-            + 1;
+            .map_or(0, |vid| vid + 1);
         let core_data = MeshCoreData::new(n_vertices, n_faces);
         let mut mesh = Self {
             core_data,
-- 
2.43.0

