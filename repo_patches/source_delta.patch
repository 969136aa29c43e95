From 0f5ca2b9e0d1217cc62d683cef8f1307a521b853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 01/31] fix: allow splitting a disjoint subset producer at its
 end

Rayon is permitted to split a producer at any index up to and including its
length (e.g. .take(len)), which so far panicked.
---
 fenris-paradis/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fenris-paradis/src/lib.rs b/fenris-paradis/src/lib.rs
index 959a1fe..1dd6309 100644
--- a/fenris-paradis/src/lib.rs
+++ b/fenris-paradis/src/lib.rs
@@ -356,7 +356,8 @@ impl<'a, Access: Send + Clone> Producer for DisjointSubsetsProducer<'a, Access>
 
     fn split_at(self, index: usize) -> (Self, Self) {
         let producer_len = self.range_len;
-        assert!(index < producer_len);
+        // Note that splitting at the end of the range is permitted: the right producer is then empty
+        assert!(index <= producer_len);
         let global_subset_idx = self.range_start_idx + index;
 
         let producer_left = DisjointSubsetsProducer {
-- 
2.43.0


From 74d9bc19706bfaa6ec2c5a18011c0851d5e053c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 02/31] fix: permit parallel iteration if all disjoint subsets
 are empty

---
 fenris-paradis/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fenris-paradis/src/lib.rs b/fenris-paradis/src/lib.rs
index 1dd6309..244bc0d 100644
--- a/fenris-paradis/src/lib.rs
+++ b/fenris-paradis/src/lib.rs
@@ -266,8 +266,9 @@ impl DisjointSubsets {
             self.max_index.is_none() || storage.len() > self.max_index.unwrap(),
             "Subsets contain indices out of bounds."
         );
-        // Sanity check: if we don't have a max index, then we also cannot have any subsets
-        debug_assert_eq!(self.max_index.is_none(), self.subsets.len() == 0);
+        // Sanity check: if we don't have a max index, then we also cannot have any indices
+        // (but we may still have empty subsets)
+        debug_assert_eq!(self.max_index.is_none(), self.subsets.total_num_elements() == 0);
         let access = unsafe { storage.create_access() };
 
         DisjointSubsetsParIter {
-- 
2.43.0


From db688a004b838a9e6f48aba8ab56123664b5bac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 03/31] fix: do not let safe code duplicate mutable blocks

A copy of a BlockMut gave a second mutable reference to the same record.
---
 fenris-paradis/src/adapter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fenris-paradis/src/adapter.rs b/fenris-paradis/src/adapter.rs
index 05939f9..b4155dc 100644
--- a/fenris-paradis/src/adapter.rs
+++ b/fenris-paradis/src/adapter.rs
@@ -95,7 +95,7 @@ where
     }
 }
 
-#[derive(Copy, Clone)]
+// Note: must not be Copy/Clone, because this would enable aliasing mutable records
 pub struct BlockMut<'a, Access> {
     access: Access,
     start_idx: usize,
-- 
2.43.0


From 17815bad63b72c927c87811787dc41ddddd27380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 04/31] fix: validate offsets when deserializing NestedVec

---
 fenris-nested-vec/src/lib.rs | 45 +++++++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/fenris-nested-vec/src/lib.rs b/fenris-nested-vec/src/lib.rs
index 50bf7f9..1992fcc 100644
--- a/fenris-nested-vec/src/lib.rs
+++ b/fenris-nested-vec/src/lib.rs
@@ -3,14 +3,57 @@ use std::fmt;
 use std::fmt::Debug;
 use std::ops::Range;
 
-// TODO: Manually implement Deserialize to avoid soundness hole
 #[derive(Clone, PartialEq, Eq, Serialize, Deserialize)]
+#[serde(try_from = "UnvalidatedNestedVec<T>")]
 pub struct NestedVec<T> {
     data: Vec<T>,
     offsets_begin: Vec<usize>,
     offsets_end: Vec<usize>,
 }
 
+/// Helper type for validating deserialized data.
+#[derive(Deserialize)]
+#[serde(rename = "NestedVec")]
+struct UnvalidatedNestedVec<T> {
+    data: Vec<T>,
+    offsets_begin: Vec<usize>,
+    offsets_end: Vec<usize>,
+}
+
+impl<T> TryFrom<UnvalidatedNestedVec<T>> for NestedVec<T> {
+    type Error = &'static str;
+
+    fn try_from(unvalidated: UnvalidatedNestedVec<T>) -> Result<Self, Self::Error> {
+        let UnvalidatedNestedVec {
+            data,
+            offsets_begin,
+            offsets_end,
+        } = unvalidated;
+
+        if offsets_begin.len() != offsets_end.len() {
+            return Err("number of begin and end offsets of NestedVec do not match");
+        }
+
+        // The arrays must be laid out consecutively and cover all of the data
+        let mut expected_begin = 0;
+        for (&begin, &end) in offsets_begin.iter().zip(&offsets_end) {
+            if begin != expected_begin || end < begin {
+                return Err("offsets of NestedVec are not consecutive");
+            }
+            expected_begin = end;
+        }
+        if expected_begin != data.len() {
+            return Err("offsets of NestedVec do not match the amount of data");
+        }
+
+        Ok(Self {
+            data,
+            offsets_begin,
+            offsets_end,
+        })
+    }
+}
+
 impl<T: Debug> Debug for NestedVec<T> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         f.debug_list().entries(self.iter()).finish()
-- 
2.43.0


From 4a8bf2dcd7c5df9edc85d4a4df62c69e75d1178c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 05/31] fix: validate disjointness when deserializing
 DisjointSubsets

Deserialized subsets were trusted, so that safe code could obtain aliasing
mutable references or out-of-bounds access.
---
 fenris-paradis/src/lib.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/fenris-paradis/src/lib.rs b/fenris-paradis/src/lib.rs
index 244bc0d..487a63a 100644
--- a/fenris-paradis/src/lib.rs
+++ b/fenris-paradis/src/lib.rs
@@ -168,6 +168,7 @@ pub unsafe trait ParallelIndexedCollection<'a> {
 /// empty.
 ///
 #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
+#[serde(try_from = "UnvalidatedDisjointSubsets")]
 pub struct DisjointSubsets {
     // Store the max global index present in any of the subsets. We need this to
     // ensure that none of the indices are out of bounds when accessing a storage.
@@ -180,6 +181,30 @@ pub struct DisjointSubsets {
     labels: Vec<usize>,
 }
 
+/// Helper type for validating deserialized data.
+///
+/// The max index is not trusted, but instead recomputed from the subsets.
+#[derive(Deserialize)]
+#[serde(rename = "DisjointSubsets")]
+struct UnvalidatedDisjointSubsets {
+    #[serde(rename = "max_index")]
+    _max_index: Option<usize>,
+    subsets: NestedVec<usize>,
+    labels: Vec<usize>,
+}
+
+impl TryFrom<UnvalidatedDisjointSubsets> for DisjointSubsets {
+    type Error = &'static str;
+
+    fn try_from(unvalidated: UnvalidatedDisjointSubsets) -> Result<Self, Self::Error> {
+        let UnvalidatedDisjointSubsets { subsets, labels, .. } = unvalidated;
+        if subsets.len() != labels.len() {
+            return Err("must have exactly one label per subset");
+        }
+        Self::try_from_disjoint_subsets(subsets, labels).map_err(|_| "subsets are not disjoint")
+    }
+}
+
 #[derive(Copy, Clone, Debug, PartialEq, Eq)]
 pub struct SubsetsNotDisjointError;
 
-- 
2.43.0


From a95e60362b52cc52c33c4e6dcfa0ff92a5b2b6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:10 +0000
Subject: [PATCH 06/31] fix: keep a nonzero diagonal for dense Dirichlet
 conditions

When all diagonal entries of the matrix are zero, the mean absolute
diagonal is not a usable scale and constrained rows became entirely zero.
---
 src/assembly/global.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/assembly/global.rs b/src/assembly/global.rs
index 3578a62..f613c76 100644
--- a/src/assembly/global.rs
+++ b/src/assembly/global.rs
@@ -466,6 +466,9 @@ where
         .fold(T::zero(), |a, b| a + b)
         / T::from_usize(matrix.nrows()).unwrap();
 
+    // If all diagonal entries are zero, we must still put a nonzero entry on the diagonal
+    let scale = if scale == T::zero() { T::one() } else { scale };
+
     for node in nodes {
         for i in 0..d {
             let idx = d * node + i;
-- 
2.43.0


From e2d0ef113bb1bd5fa7bafaf13334e05bec479a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:49 +0000
Subject: [PATCH 07/31] fix: report out-of-range indices as invalid
 permutations instead of panicking

---
 src/mesh/reorder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mesh/reorder.rs b/src/mesh/reorder.rs
index 307c735..98afff6 100644
--- a/src/mesh/reorder.rs
+++ b/src/mesh/reorder.rs
@@ -119,10 +119,10 @@ impl Permutation {
     pub fn from_vec(perm: Vec<usize>) -> Result<Self, InvalidPermutation> {
         let mut visited = vec![false; perm.len()];
         for &index in &perm {
-            if visited[index] {
-                return Err(InvalidPermutation { marker: PhantomData });
-            } else {
-                visited[index] = true;
+            match visited.get_mut(index) {
+                Some(is_visited) if !*is_visited => *is_visited = true,
+                // The index is either a duplicate or out of bounds
+                _ => return Err(InvalidPermutation { marker: PhantomData }),
             }
         }
         Ok(Self { perm })
-- 
2.43.0


From a703a5f964c696f313a556e7398a217d7477b602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:49 +0000
Subject: [PATCH 08/31] fix: return an empty hex mesh if there are no cells
 along z

---
 src/mesh/procedural.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/procedural.rs b/src/mesh/procedural.rs
index 99c01e0..58c57d4 100644
--- a/src/mesh/procedural.rs
+++ b/src/mesh/procedural.rs
@@ -223,7 +223,7 @@ pub fn create_rectangular_uniform_hex_mesh<T>(
 where
     T: Real,
 {
-    if cells_per_unit == 0 || units_x == 0 || units_y == 0 {
+    if cells_per_unit == 0 || units_x == 0 || units_y == 0 || units_z == 0 {
         HexMesh::from_vertices_and_connectivity(Vec::new(), Vec::new())
     } else {
         let mut vertices = Vec::new();
-- 
2.43.0


From b4b1449187232b3ec2ba1ceece2e8dc5e35485d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:51 +0000
Subject: [PATCH 09/31] fix: detect concave corners of quadrilaterals

---
 fenris-geometry/src/primitives/quad.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/fenris-geometry/src/primitives/quad.rs b/fenris-geometry/src/primitives/quad.rs
index 8b41b0d..17c0436 100644
--- a/fenris-geometry/src/primitives/quad.rs
+++ b/fenris-geometry/src/primitives/quad.rs
@@ -51,17 +51,21 @@ where
 {
     /// Returns the index of a concave corner of the quadrilateral, if there is any.
     pub fn concave_corner(&self) -> Option<usize> {
+        let [x0, x1, x2, x3] = &self.0;
+        // Twice the signed area of the quad, which is positive if it is oriented counter-clockwise
+        let signed_area = (x2 - x0).perp(&(x3 - x1));
+
         for i in 0..4 {
             let x_next = self.0[(i + 2) % 4];
             let x_curr = self.0[(i + 1) % 4];
-            let x_prev = self.0[(i + 1) % 4];
+            let x_prev = self.0[i];
 
             let a = x_next - x_curr;
             let b = x_prev - x_curr;
-            // perp gives "2d cross product", which when negative means that the interior angle
-            // is creater than 180 degrees, and so the corner must be concave
-            if a.perp(&b) < T::zero() {
-                return Some(i + 1);
+            // perp gives "2d cross product", whose sign differs from that of the area if the
+            // interior angle is creater than 180 degrees, and so the corner must be concave
+            if a.perp(&b) * signed_area < T::zero() {
+                return Some((i + 1) % 4);
             }
         }
 
-- 
2.43.0


From 1c5851fe17dde029851fba6795ef218cbe1a5c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 10/31] fix: give one result per point for fixed interpolators
 of empty spaces

---
 src/space/fixed_interpolator.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/space/fixed_interpolator.rs b/src/space/fixed_interpolator.rs
index faa7961..f0e85aa 100644
--- a/src/space/fixed_interpolator.rs
+++ b/src/space/fixed_interpolator.rs
@@ -269,9 +269,9 @@ impl<T: Real> FixedInterpolator<T> {
             supported_node_offsets.push(point_node_support_begin);
 
             let Some((element_idx, xi)) = space.find_closest_element_and_reference_coords(point)
-            // break out of the loop if there are no elements in the space
+            // the point has no supporting nodes if there are no elements in the space
             else {
-                break;
+                continue;
             };
 
             let element_node_count = space.element_node_count(element_idx);
@@ -351,9 +351,9 @@ impl<T: Real> FixedInterpolator<T> {
             supported_node_offsets.push(point_node_support_begin);
 
             let Some((element_idx, xi)) = closest_element_and_ref_coord
-            // break out of the loop if there are no elements in the space
+            // the point has no supporting nodes if there are no elements in the space
             else {
-                break;
+                continue;
             };
 
             let element_node_count = space.element_node_count(element_idx);
-- 
2.43.0


From 6c3a840a0ad087751318a08dbcb6eb70affca0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 11/31] fix: scale-consistent tolerance and bounded iterations
 when projecting physical coordinates

---
 src/element.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/element.rs b/src/element.rs
index b9f650a..e6a8e57 100644
--- a/src/element.rs
+++ b/src/element.rs
@@ -408,8 +408,11 @@ where
         "ReferenceDim must be smaller or equal to GeometryDim."
     );
 
-    // See comments in `map_physical_coordinates` for why this is a reasonable tolerance.
-    let tolerance = T::from_f64(1e-12).unwrap() * element.diameter();
+    // See comments in `map_physical_coordinates` for why eps * diameter is a reasonable tolerance
+    // for the residual. The stopping condition below involves the residual multiplied by
+    // the (transposed) Jacobian, which also scales with the diameter of the element.
+    let diameter = element.diameter();
+    let tolerance = T::from_f64(1e-12).unwrap() * diameter * diameter;
 
     // We wish to solve the system
     //  f(xi) - x = 0,
@@ -428,7 +431,6 @@ where
     let mut jT = j.transpose();
 
     let mut iter = 0;
-    // TODO: Do we need to alter the tolerance due to the jT term?
     while (&jT * (&f - x)).norm() > tolerance {
         let jTj = &jT * j;
         let lu = jTj.full_piv_lu();
@@ -450,7 +452,9 @@ where
         // TODO: Should better handle degenerate/problematic cases. For now we just want to
         // avoid infinite loops
         if iter > 1000 {
-            eprintln!("Exceeded 1000 iterations for project_physical_coordinates");
+            return Err(Box::from(
+                "Exceeded 1000 iterations for project_physical_coordinates",
+            ));
         }
     }
 
-- 
2.43.0


From 3535675f4a5a014e71ebbee2c237926f11474336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:11 +0000
Subject: [PATCH 12/31] fix: log_det_F in one dimension uses det(F) = 1 + du/dX

The one-dimensional branch took the displacement derivative itself as the
determinant of the deformation gradient, so the Neo-Hookean energy of 1D
problems was infinite or NaN around the rest state and inconsistent with its stress.
---
 fenris-solid/src/logdet.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fenris-solid/src/logdet.rs b/fenris-solid/src/logdet.rs
index 2d8723c..e55af70 100644
--- a/fenris-solid/src/logdet.rs
+++ b/fenris-solid/src/logdet.rs
@@ -23,8 +23,9 @@ where
     match D::USIZE {
         1 => {
             let du_dX: &Matrix1<T> = try_transmute_ref(du_dX).unwrap();
-            let det = du_dX[(0, 0)];
-            (det > 0.0).then(|| det.ln())
+            // det(F) = 1 + du_dX
+            let gamma = du_dX[(0, 0)];
+            (gamma > -1.0).then(|| T::ln_1p(gamma))
         }
         2 => log_det_F_2d(try_transmute_ref(du_dX).unwrap()),
         3 => log_det_F_3d(try_transmute_ref(du_dX).unwrap()),
-- 
2.43.0


From c8b43508c634fe1c00cc43d43871bd07076b360d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:50 +0000
Subject: [PATCH 13/31] fix: applying a CSR matrix overwrites non-finite output
 values

---
 fenris-sparse/src/cg.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fenris-sparse/src/cg.rs b/fenris-sparse/src/cg.rs
index 8ab9fb2..88bab01 100644
--- a/fenris-sparse/src/cg.rs
+++ b/fenris-sparse/src/cg.rs
@@ -45,6 +45,8 @@ where
     T: Scalar + Zero + One + ClosedMul + ClosedAdd,
 {
     fn apply(&self, mut y: DVectorViewMut<T>, x: DVectorView<T>) -> Result<(), Box<dyn Error>> {
+        // Overwrite y first: multiplying its previous contents by zero does not get rid of NaN or infinite values
+        y.fill(T::zero());
         spmm_csr_dense(T::zero(), &mut y, T::one(), Op::NoOp(self), Op::NoOp(&x));
         Ok(())
     }
-- 
2.43.0


From 2021cd152868b9744386a876901a2ce8fdf494dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:50 +0000
Subject: [PATCH 14/31] fix: reset the CG stopping criterion at the start of a
 solve

---
 fenris-sparse/src/cg.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fenris-sparse/src/cg.rs b/fenris-sparse/src/cg.rs
index 88bab01..3061ad0 100644
--- a/fenris-sparse/src/cg.rs
+++ b/fenris-sparse/src/cg.rs
@@ -376,6 +376,9 @@ where
         use SolveErrorKind::*;
         assert_eq!(b.len(), x.len());
 
+        self.stopping_criterion
+            .reset(&self.operator, (&x).into(), (&b).into());
+
         let mut output = CgOutput {
             num_iterations: 0,
             marker: PhantomData,
-- 
2.43.0


From 35214a8ec63dc4138356c41cddd15fec42211d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:50 +0000
Subject: [PATCH 15/31] fix: stop CG when the iteration breaks down with NaN

---
 fenris-sparse/src/cg.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fenris-sparse/src/cg.rs b/fenris-sparse/src/cg.rs
index 3061ad0..c81b41b 100644
--- a/fenris-sparse/src/cg.rs
+++ b/fenris-sparse/src/cg.rs
@@ -442,13 +442,14 @@ where
             }
             pAp = p.dot(&Ap);
 
-            if pAp <= T::zero() {
+            // The negated comparisons also catch NaN, with which CG can never converge
+            if !(pAp > T::zero()) {
                 return Err(SolveError {
                     output,
                     kind: SolveErrorKind::IndefiniteOperator,
                 });
             }
-            if zTr <= T::zero() {
+            if !(zTr > T::zero()) {
                 return Err(SolveError {
                     output,
                     kind: SolveErrorKind::IndefinitePreconditioner,
-- 
2.43.0


From 68951295de04e2191cfff679f02a5af2be320d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:50 +0000
Subject: [PATCH 16/31] fix: do not report convergence of Newton's method for
 NaN residuals

---
 fenris-optimize/src/newton.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fenris-optimize/src/newton.rs b/fenris-optimize/src/newton.rs
index 00da70b..331f6d4 100644
--- a/fenris-optimize/src/newton.rs
+++ b/fenris-optimize/src/newton.rs
@@ -97,7 +97,11 @@ where
 
     let mut iter = 0;
 
-    while f.norm() > settings.tolerance {
+    // The negated comparison makes sure that we don't mistake a NaN residual for convergence
+    while !(f.norm() <= settings.tolerance) {
+        if f.norm() != f.norm() {
+            return Err(NewtonError::LineSearchError(Box::from("Residual norm is not a number.")));
+        }
         if settings
             .max_iterations
             .map(|max_iter| iter == max_iter)
-- 
2.43.0


From 8344cb295d373a5d0cf8530b361fa6a1fe4e7da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:07 +0000
Subject: [PATCH 17/31] fix: condition number of indefinite symmetric matrices

---
 src/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 4ea831d..df97952 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -470,12 +470,12 @@ where
     let (min, max) = matrix
         .symmetric_eigenvalues()
         .into_iter()
-        .cloned()
+        .map(|eigenvalue| eigenvalue.abs())
         .minmax_by(|a, b| a.partial_cmp(b).unwrap_or(Ordering::Less))
         .into_option()
         .expect("Currently don't support empty matrices");
 
-    max.abs() / min.abs()
+    max / min
 }
 
 /*
-- 
2.43.0


From 1d8bd699b13174b12a0a4189eb5d1ed8d40351d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:42 +0000
Subject: [PATCH 18/31] fix: sign of the off-diagonal Hessian entries in the
 polar decomposition

---
 src/util.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index df97952..9a94a2c 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -196,9 +196,9 @@ pub fn apd<T: Real>(
         let h00 = B1[1] + B2[2];
         let h11 = B0[0] + B2[2];
         let h22 = B0[0] + B1[1];
-        let h01 = (B1[0] + B0[1]) * 0.5;
-        let h02 = (B2[0] + B0[2]) * 0.5;
-        let h12 = (B2[1] + B1[2]) * 0.5;
+        let h01 = (B1[0] + B0[1]) * (-0.5);
+        let h02 = (B2[0] + B0[2]) * (-0.5);
+        let h12 = (B2[1] + B1[2]) * (-0.5);
 
         let detH =
             -(h02 * h02 * h11) + (h01 * h02 * h12) * 2.0 - (h00 * h12 * h12) - (h01 * h01 * h22) + (h00 * h11 * h22);
-- 
2.43.0


From 51474b0eeae6e8c3cd650a8fa916dbb7beee1ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:32 +0000
Subject: [PATCH 19/31] fix: polygons intersect segments that cross their
 boundary

---
 fenris-geometry/src/polygon.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fenris-geometry/src/polygon.rs b/fenris-geometry/src/polygon.rs
index f65bb5d..c40a8d9 100644
--- a/fenris-geometry/src/polygon.rs
+++ b/fenris-geometry/src/polygon.rs
@@ -140,6 +140,10 @@ where
             }
         });
 
+        if intersects {
+            return true;
+        }
+
         for (endpoint, closest_edge_idx) in izip!(&endpoints, &closest_edges) {
             // We can unwrap here, because we know that the Polygon has at least one edge
             let closest_edge = self.get_edge(*closest_edge_idx).unwrap();
-- 
2.43.0


From 4d90ea99537124c14d3ef56b52d57a9883f79591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:32 +0000
Subject: [PATCH 20/31] fix: clip convex polygons by half planes parallel to an
 edge

---
 fenris-geometry/src/polytope.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/fenris-geometry/src/polytope.rs b/fenris-geometry/src/polytope.rs
index 2cc654b..7a82467 100644
--- a/fenris-geometry/src/polytope.rs
+++ b/fenris-geometry/src/polytope.rs
@@ -1,4 +1,4 @@
-use crate::{HalfPlane, Line2d, LineSegment2d, SimplePolygon2d, Triangle, Triangle2d};
+use crate::{HalfPlane, LineSegment2d, SimplePolygon2d, Triangle, Triangle2d};
 use fenris_traits::Real;
 use itertools::Itertools;
 use nalgebra::{Point2, Scalar, Unit, Vector2};
@@ -122,24 +122,18 @@ where
             }
         } else {
             for (v1, v2) in self.edges() {
-                let v1_contained = half_plane.contains_point(v1);
-                let v2_contained = half_plane.contains_point(v2);
+                let d1 = half_plane.signed_distance_to_point(v1);
+                let d2 = half_plane.signed_distance_to_point(v2);
+                let v1_contained = d1 <= T::zero();
+                let v2_contained = d2 <= T::zero();
                 if v1_contained {
                     new_vertices.push(v1.clone());
                 }
 
                 if (v1_contained && !v2_contained) || (!v1_contained && v2_contained) {
-                    // Edge is intersected, add vertex at intersection point
-                    let dir = (v2 - v1).normalize();
-                    let intersection_point = half_plane
-                        .surface()
-                        .intersect(&Line2d::from_point_and_dir(v1.clone(), dir))
-                        .expect(
-                            "We already know that the line must intersect the edge, \
-                             so this should work unless we have some ugly numerical \
-                             artifacts.",
-                        );
-
+                    // Edge is intersected, add vertex at intersection point. Exactly one of the distances
+                    // is positive, so that their difference can not be zero
+                    let intersection_point = v1 + (v2 - v1) * (d1 / (d1 - d2));
                     new_vertices.push(intersection_point);
                 }
             }
-- 
2.43.0


From 07f9984f3d54430ef1dae06d50932993f9ef606a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:32 +0000
Subject: [PATCH 21/31] fix: the empty polygon contains no points

---
 fenris-geometry/src/polytope.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fenris-geometry/src/polytope.rs b/fenris-geometry/src/polytope.rs
index 7a82467..0f4960f 100644
--- a/fenris-geometry/src/polytope.rs
+++ b/fenris-geometry/src/polytope.rs
@@ -96,7 +96,9 @@ where
 
     /// Determines if the (closed) convex polygon contains the given point.
     pub fn contains_point(&self, point: &Point2<T>) -> bool {
-        if self.is_point() {
+        if self.is_empty() {
+            false
+        } else if self.is_point() {
             self.vertices.first().unwrap() == point
         } else if self.is_line_segment() {
             unimplemented!()
-- 
2.43.0


From 93f6da81bbc2c13374e0951e8f7d7f538fa825ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 22/31] fix: a segment beside a disk does not intersect it

---
 fenris-geometry/src/primitives/line.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fenris-geometry/src/primitives/line.rs b/fenris-geometry/src/primitives/line.rs
index 3d66e8e..996389f 100644
--- a/fenris-geometry/src/primitives/line.rs
+++ b/fenris-geometry/src/primitives/line.rs
@@ -153,6 +153,10 @@ where
     #[replace_float_literals(T::from_f64(literal).unwrap())]
     pub fn intersect_disk_parametric(&self, disk: &Disk<T>) -> Option<[T; 2]> {
         let [t1, t2] = self.to_line().intersect_disk_parametric(disk)?;
+        if t2 < 0.0 || t1 > 1.0 {
+            // The line intersects the disk, but only outside the segment
+            return None;
+        }
         let t1 = clamp(t1, 0.0, 1.0);
         let t2 = clamp(t2, 0.0, 1.0);
         Some([t1, t2])
-- 
2.43.0


From b85b116bc458093e265759ee9dc3c49cd814c275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 23/31] fix: solid angles larger than pi

---
 fenris-geometry/src/primitives/triangle.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fenris-geometry/src/primitives/triangle.rs b/fenris-geometry/src/primitives/triangle.rs
index f27d472..227aa75 100644
--- a/fenris-geometry/src/primitives/triangle.rs
+++ b/fenris-geometry/src/primitives/triangle.rs
@@ -279,8 +279,8 @@ impl<T: Real> Triangle3d<T> {
         let cnorm = c.norm();
 
         let denominator = anorm * bnorm * cnorm + a.dot(&b) * cnorm + b.dot(&c) * anorm + c.dot(&a) * bnorm;
-        let tan_omega_half = abc_matrix.determinant() / denominator;
-        2.0 * tan_omega_half.atan()
+        // The denominator is negative for solid angles larger than pi
+        2.0 * abc_matrix.determinant().atan2(denominator)
     }
 }
 
-- 
2.43.0


From 3a3a0ad20ab7c0f5dd1c82a4166e4a16bd47f60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 24/31] fix: faces created by cutting a polyhedral mesh point
 outwards

---
 fenris-geometry/src/polymesh.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/fenris-geometry/src/polymesh.rs b/fenris-geometry/src/polymesh.rs
index 4dd017c..bf02d44 100644
--- a/fenris-geometry/src/polymesh.rs
+++ b/fenris-geometry/src/polymesh.rs
@@ -625,6 +625,8 @@ where
         }
 
         let mut intersection_edges = Vec::new();
+        // Faces with at least this index lie in the boundary plane of the half space
+        let num_original_faces = new_faces.len();
 
         let mut new_cells = NestedVec::new();
         for cell_faces in self.cells.iter() {
@@ -720,6 +722,25 @@ where
             final_vertices[*new_vertex_idx] = vertex_coords;
         }
 
+        // The new faces were strung together in an arbitrary direction, so make sure that they
+        // point out of the half space, i.e. out of the cells that they belong to
+        for face_idx in num_original_faces..new_faces.len() {
+            let face_vertices = new_faces.get_mut(face_idx).unwrap();
+            let face_vertex_indices: Vec<_> = face_vertices
+                .iter()
+                .map(|edge_rep| vertex_label_map[edge_rep])
+                .collect();
+            if face_vertex_indices.len() > 2 {
+                let face = PolyMeshFace {
+                    all_vertices: &final_vertices,
+                    face_vertex_indices: &face_vertex_indices,
+                };
+                if face.compute_area_vector().dot(half_space.normal()) < T::zero() {
+                    face_vertices.reverse();
+                }
+            }
+        }
+
         // Convert faces from edge representation to new indices,
         // and remove and remap empty faces
         let (final_faces, face_label_map) = relabel_face_edge_representations(&new_faces, &vertex_label_map);
-- 
2.43.0


From 9f233a247b370d89711a276b3770da55bc976e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 25/31] fix: volume of polyhedral meshes with inward boundary
 faces

---
 fenris-geometry/src/polymesh.rs | 34 +++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/fenris-geometry/src/polymesh.rs b/fenris-geometry/src/polymesh.rs
index bf02d44..9d8d8e7 100644
--- a/fenris-geometry/src/polymesh.rs
+++ b/fenris-geometry/src/polymesh.rs
@@ -12,7 +12,7 @@ use std::fmt::Display;
 use std::hash::Hash;
 
 // use crate::connectivity::Connectivity;
-use crate::{compute_polyhedron_volume_from_faces, ConvexPolygon3d, ConvexPolyhedron, HalfSpace, LineSegment3d};
+use crate::{ConvexPolygon3d, ConvexPolyhedron, HalfSpace, LineSegment3d};
 // use crate::mesh::Mesh;
 use fenris_nested_vec::NestedVec;
 
@@ -551,14 +551,36 @@ where
         self
     }
 
+    /// Computes the sum of the volumes of the (convex) cells.
     #[replace_float_literals(T::from_f64(literal).unwrap())]
     pub fn compute_volume(&self) -> T {
-        let boundary_faces = self.find_boundary_faces();
-        let face_iter = boundary_faces
-            .iter()
-            .map(|face_idx| self.get_face(*face_idx).unwrap());
+        // A face shared by two cells can only be oriented outwards with respect to one of them
+        // (and might be a boundary face if the other cell has been removed), so we can not rely
+        // on the orientation of faces. Instead, we decompose each cell into the pyramids
+        // that connect its faces to a point inside of the cell.
+        let mut volume = 0.0;
+        for cell in self.cell_connectivity_iter() {
+            let cell_vertices: BTreeSet<_> = cell
+                .iter()
+                .flat_map(|face_idx| self.get_face_connectivity(*face_idx).unwrap())
+                .copied()
+                .collect();
+            let center = cell_vertices
+                .iter()
+                .fold(Vector3::zeros(), |sum, idx| sum + &self.vertices[*idx].coords)
+                / T::from_usize(max(cell_vertices.len(), 1)).unwrap();
 
-        compute_polyhedron_volume_from_faces(face_iter)
+            for face_idx in cell {
+                let face = self.get_face(*face_idx).unwrap();
+                // Ignore degenerate faces
+                if face.num_vertices() > 2 {
+                    let x0 = face.get_vertex(0).unwrap();
+                    let pyramid = face.compute_area_vector().dot(&(x0.coords - &center)) / 3.0;
+                    volume += pyramid.abs();
+                }
+            }
+        }
+        volume
     }
 
     pub fn intersect_convex_polyhedron<'a>(&self, polyhedron: &impl ConvexPolyhedron<'a, T>) -> Self {
-- 
2.43.0


From c0a36ebfc88ab998aeb8ae0a0da4b38440b4a13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 26/31] fix: polyhedral sphere keeps the inside of its tangent
 planes

---
 src/mesh/procedural.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh/procedural.rs b/src/mesh/procedural.rs
index 58c57d4..c15a421 100644
--- a/src/mesh/procedural.rs
+++ b/src/mesh/procedural.rs
@@ -421,8 +421,8 @@ pub fn create_simple_stupid_sphere(center: &Point3<f64>, radius: f64, num_sweeps
             let z = r * theta.cos();
 
             let x = Point3::new(x, y, z);
-            // Normal must point inwards
-            let n = -x.coords.normalize();
+            // Normal must point outwards
+            let n = x.coords.normalize();
             let half_space = HalfSpace::from_point_and_normal(x, Unit::new_normalize(n));
             mesh = mesh.intersect_half_space(&half_space);
         }
-- 
2.43.0


From c18a52d3c48fd0c352d06326da52d64e5a949a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:49 +0000
Subject: [PATCH 27/31] fix: exact gradient of the signed distance to a box

---
 fenris-geometry/src/sdf.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/fenris-geometry/src/sdf.rs b/fenris-geometry/src/sdf.rs
index bd535d3..cb75cb0 100644
--- a/fenris-geometry/src/sdf.rs
+++ b/fenris-geometry/src/sdf.rs
@@ -156,16 +156,23 @@ where
 
     #[replace_float_literals(T::from_f64(literal).expect("Literal must fit in T"))]
     fn gradient(&self, x: &Point2<T>) -> Option<Vector2<T>> {
-        // TODO: Replace finite differences with "proper" gradient
-        // Note: arbitrary "step"/resolution h
-        let h = 1e-4;
-        let mut gradient = Vector2::zeros();
-        for i in 0..2 {
-            let mut dx = Vector2::zeros();
-            dx[i] = h;
-            gradient[i] = (self.eval(&(x + dx)) - self.eval(&(x - dx))) / (2.0 * h)
+        let b = self.aabb.extents() / 2.0;
+        let p = x - self.aabb.center();
+        let d = p.abs() - b;
+        let axis = d.imax();
+
+        if d[axis] > 0.0 {
+            // Outside: the gradient points away from the closest point in the box
+            let direction = d.sup(&Vector2::zeros()).zip_map(&p, |d_i, p_i| d_i * p_i.signum());
+            Some(direction.normalize())
+        } else if p[axis] == 0.0 {
+            // Equally far from two opposite sides
+            None
+        } else {
+            // Inside: the gradient points towards the closest side
+            let mut direction = Vector2::zeros();
+            direction[axis] = p[axis].signum();
+            Some(direction)
         }
-        gradient.normalize_mut();
-        Some(gradient)
     }
 }
-- 
2.43.0


From edbd78e4b6e91c0b181cb836bc934efe94c610f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:40 +0000
Subject: [PATCH 28/31] fix: refuse msh files with elements that refer to
 missing nodes

Node tags are renumbered relative to the smallest tag of the file; tags that do
not belong to a node used to underflow or to produce an invalid mesh.
---
 src/io/msh.rs | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/io/msh.rs b/src/io/msh.rs
index a3409ff..4201248 100644
--- a/src/io/msh.rs
+++ b/src/io/msh.rs
@@ -98,7 +98,8 @@ where
 
     // Collect all connectivity matching the target connectivity
     for element_block in &msh_elements.element_blocks {
-        let block_connectivity = connectivity_from_element_block(element_block)?;
+        let block_connectivity =
+            connectivity_from_element_block(element_block, msh_nodes.min_node_tag, vertices.len())?;
         connectivity.extend(block_connectivity);
     }
 
@@ -154,7 +155,13 @@ where
 }
 
 /// Tries to convert a `mshio::ElementBlock` to a `Vec<Connectivity>`.
-fn connectivity_from_element_block<C, I>(element_block: &mshio::ElementBlock<u64, I>) -> eyre::Result<Vec<C>>
+///
+/// Node tags are consecutive, starting at `min_node_tag`.
+fn connectivity_from_element_block<C, I>(
+    element_block: &mshio::ElementBlock<u64, I>,
+    min_node_tag: u64,
+    num_vertices: usize,
+) -> eyre::Result<Vec<C>>
 where
     C: MshConnectivity,
     I: mshio::MshIntT,
@@ -179,7 +186,20 @@ where
             if element.nodes.len() < requested_nodes {
                 return Err(eyre!("not enough nodes to initialize connectivity"));
             }
-            connectivity.push(C::try_connectivity_from_msh_element(element)?);
+            let nodes = element
+                .nodes
+                .iter()
+                .map(|&tag| match tag.checked_sub(min_node_tag) {
+                    // Connectivities expect tags that start at 1
+                    Some(index) if index < num_vertices as u64 => Ok(index + 1),
+                    _ => Err(eyre!("element refers to node {} which is not in the msh file", tag)),
+                })
+                .collect::<eyre::Result<Vec<_>>>()?;
+            let element = mshio::Element {
+                element_tag: element.element_tag,
+                nodes,
+            };
+            connectivity.push(C::try_connectivity_from_msh_element(&element)?);
         }
 
         return Ok(connectivity);
@@ -193,11 +213,7 @@ where
     I: mshio::MshIntT,
 {
     element_block.element_type == C::msh_element_type()
-        && element_block
-            .entity_dim
-            .to_usize()
-            .expect("failed to convert element block dimension to usize")
-            == C::reference_dim()
+        && element_block.entity_dim.to_usize() == Some(C::reference_dim())
 }
 
 macro_rules! f_to_t {
-- 
2.43.0


From ddb93084f61bcf4e6804d1187b65769aa094ca09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:40 +0000
Subject: [PATCH 29/31] fix: export Quad9 cells as biquadratic quads

---
 src/io/vtk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/vtk.rs b/src/io/vtk.rs
index 9fd4b2e..a707c0b 100644
--- a/src/io/vtk.rs
+++ b/src/io/vtk.rs
@@ -71,7 +71,7 @@ impl VtkCellConnectivity for Quad4d2Connectivity {
 
 impl VtkCellConnectivity for Quad9d2Connectivity {
     fn cell_type(&self) -> CellType {
-        CellType::QuadraticQuad
+        CellType::BiquadraticQuad
     }
 }
 
-- 
2.43.0


From 75dc8af7ef6286f62dc33a48406914107ecb39b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:13 +0000
Subject: [PATCH 30/31] fix: nondegenerate segment strategy must not shrink to
 zero-length segments

The second component range was -0.5..3.5 instead of -3.5..-0.5, which contains
zero, so that values shrink to coinciding end points.
---
 fenris-geometry/src/proptest.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fenris-geometry/src/proptest.rs b/fenris-geometry/src/proptest.rs
index c2b5174..d615aa4 100644
--- a/fenris-geometry/src/proptest.rs
+++ b/fenris-geometry/src/proptest.rs
@@ -157,7 +157,7 @@ pub fn clockwise_triangle2d_strategy_f64() -> impl Strategy<Value = Triangle2d<f
 
 pub fn nondegenerate_line_segment2d_strategy_f64() -> impl Strategy<Value = LineSegment2d<f64>> {
     // Make sure to construct the second point from non-zero components
-    let gen = prop_oneof![0.5..3.5, -0.5..3.5, 1e-6..10.0, -10.0..-1e-6];
+    let gen = prop_oneof![0.5..3.5, -3.5..-0.5, 1e-6..10.0, -10.0..-1e-6];
     (point2(), gen.clone(), gen).prop_map(|(a, x, y)| {
         let d = Vector2::new(x, y);
         let b = a + d;
-- 
2.43.0


From 8f5eea6473cbb5c8a1d681307703154d03b365c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:06 +0000
Subject: [PATCH 31/31] fix: reference coordinates of physical points are found
 in single precision

map_physical_coordinates and project_physical_coordinates demanded a
relative accuracy of 1e-12 regardless of the scalar type, so that they
never converged for f32 (failing after 20 and 1000 iterations).
---
 src/element.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/element.rs b/src/element.rs
index e6a8e57..d0ab7fb 100644
--- a/src/element.rs
+++ b/src/element.rs
@@ -356,9 +356,7 @@ where
         // Note: Max iterations is entirely random at this point. Should of course
         // be made configurable. TODO
         max_iterations: Some(20),
-        // TODO: eps is here hard-coded without respect to the type T, so it will not be appropriate
-        // across e.g. different floating point types. Fix this!
-        tolerance: T::from_f64(1e-12).unwrap() * element.diameter(),
+        tolerance: physical_coordinates_eps::<T>() * element.diameter(),
     };
 
     let mut xi = OVector::<T, GeometryDim>::zeros();
@@ -381,6 +379,17 @@ where
     Ok(OPoint::from(xi))
 }
 
+/// The accuracy, relative to the diameter of the element, to which physical coordinates are matched.
+///
+/// This is 1e-12 for double precision. Types with less precision can not reach this accuracy, so that
+/// we can only ask for an accuracy that is proportional to their resolution.
+fn physical_coordinates_eps<T: Real>() -> T {
+    T::max(
+        T::from_f64(1e-12).unwrap(),
+        T::from_f64(1000.0).unwrap() * T::default_epsilon(),
+    )
+}
+
 /// Projects physical coordinates `x` to reference coordinates `xi` by solving the equation
 ///  x - T(xi) = 0 using a generalized form of Newton's method.
 ///
@@ -412,7 +421,7 @@ where
     // for the residual. The stopping condition below involves the residual multiplied by
     // the (transposed) Jacobian, which also scales with the diameter of the element.
     let diameter = element.diameter();
-    let tolerance = T::from_f64(1e-12).unwrap() * diameter * diameter;
+    let tolerance = physical_coordinates_eps::<T>() * diameter * diameter;
 
     // We wish to solve the system
     //  f(xi) - x = 0,
-- 
2.43.0

