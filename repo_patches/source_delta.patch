From ea1c7726a5f78a0be4b99420543d4925ee20ce45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:01 +0000
Subject: [PATCH 01/18] fix: IndexedArena::reserve(0) corrupted the arena's
 free list

---
 src/voronoi/indexed_arena.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/voronoi/indexed_arena.rs b/src/voronoi/indexed_arena.rs
index cc92174..764eb3f 100644
--- a/src/voronoi/indexed_arena.rs
+++ b/src/voronoi/indexed_arena.rs
@@ -48,7 +48,10 @@ impl<Id: Into<Index> + From<Index>, T> IndexedArena<Id, T> {
     }
 
     pub fn reserve(&mut self, cap: usize) {
-        self.arena.reserve(cap)
+        // Arena::reserve(0) corrupts the free list of the arena
+        if cap > 0 {
+            self.arena.reserve(cap)
+        }
     }
 
     pub fn size(&self) -> usize {
-- 
2.43.0


From 456495ff7ea7f8e3577f13aad188e9977ccbb2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:46 +0000
Subject: [PATCH 02/18] fix: redistribute photons over all rotated directions
 without loss

remap overwrote each value with the contribution of the last direction
(with the kernel's indices swapped) instead of summing over all old
directions, so rotating the directions changed the total photon rate.
---
 src/sweep/direction/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sweep/direction/mod.rs b/src/sweep/direction/mod.rs
index 6b9dfd6..3101f41 100644
--- a/src/sweep/direction/mod.rs
+++ b/src/sweep/direction/mod.rs
@@ -197,9 +197,10 @@ fn remap(
         .map(|i| kernel_f(&old_dirs[i], &new_dirs))
         .collect::<Vec<_>>();
     let old_values = values.iter().cloned().collect::<Vec<_>>();
-    for i in 0..num_dirs {
-        for j in 0..num_dirs {
-            values[i] = old_values[j] * kernel[i][j];
+    for j in 0..num_dirs {
+        values[j] = <HydrogenOnly as Chemistry>::Photons::zero();
+        for i in 0..num_dirs {
+            values[j] += old_values[i] * kernel[i][j];
         }
     }
 }
-- 
2.43.0


From 9f6c5d84813497ed421894a69b6b10b02c946253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:23 +0000
Subject: [PATCH 03/18] fix: get_tag_for_type panicked for types whose hash
 ends in 0x8000

---
 src/communication/mpi_world.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/communication/mpi_world.rs b/src/communication/mpi_world.rs
index 21907c7..17e3cc2 100644
--- a/src/communication/mpi_world.rs
+++ b/src/communication/mpi_world.rs
@@ -77,9 +77,10 @@ fn get_hash_for_type<T: 'static>() -> u64 {
 
 fn get_tag_for_type<T: 'static>() -> Tag {
     let hash: u64 = get_hash_for_type::<T>();
-    // Silently truncate 3/4 of the bits in the integer and then take the absolute value to make sure we have no negative values.
+    // Keep only the lowest 15 bits of the integer to make sure we have no negative values and never exceed
+    // the smallest upper bound on tags that MPI guarantees.
     // This is hacky but feels better than not having tags at all. Collision chance should still be negligible.
-    (hash as i16).abs() as i32
+    (hash & i16::MAX as u64) as Tag
 }
 
 pub struct MpiWorld<T> {
-- 
2.43.0


From 4173eb4abd945e267d813b7d9d442b19d1fb8312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:23 +0000
Subject: [PATCH 04/18] fix: SweepCommunicator waited only for its first
 pending request before dropping the send buffers

---
 src/sweep/communicator.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/sweep/communicator.rs b/src/sweep/communicator.rs
index 500fe4f..606563b 100644
--- a/src/sweep/communicator.rs
+++ b/src/sweep/communicator.rs
@@ -118,7 +118,6 @@ impl<C: Chemistry> Drop for SweepCommunicator<C> {
         for (rank, request) in self.requests.iter() {
             if let Some(request) = request {
                 self.wait_for_request(rank, *request);
-                return;
             }
         }
     }
-- 
2.43.0


From c816555b0915aa6bd81d196a9b0b18baaecc5b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:23 +0000
Subject: [PATCH 05/18] fix: deadlock check skipped a collective operation on
 ranks without active cells

---
 src/sweep/deadlock_detection.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/sweep/deadlock_detection.rs b/src/sweep/deadlock_detection.rs
index 7e5d856..9f2fdcf 100644
--- a/src/sweep/deadlock_detection.rs
+++ b/src/sweep/deadlock_detection.rs
@@ -84,15 +84,14 @@ impl<C: Chemistry> Sweep<C> {
     }
 
     fn check_some_initial_task_exists(&self) {
+        // This is a collective operation, so ranks without any
+        // active cells need to take part in it too.
         let num_to_solve = self.cells.enumerate_active(self.current_level).count();
-        if num_to_solve == 0 {
-            return;
-        }
         let num_initial_tasks = self.to_solve.len();
         let mut ex = MpiWorld::new_custom_tag(DEADLOCK_DETECTION_TAG);
         let total: usize = ex.all_gather_sum(&num_initial_tasks);
         assert!(
-            total > 0,
+            total > 0 || num_to_solve == 0,
             "No rank has an initial task. Wrong boundary setup?"
         )
     }
-- 
2.43.0


From 8aa68020d87c529c87b91c5cdd13472456f7750d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:15 +0000
Subject: [PATCH 06/18] fix: the middle of two equal odd keys was below both of
 them

---
 src/domain/key.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/domain/key.rs b/src/domain/key.rs
index 5109af4..c55a9d9 100644
--- a/src/domain/key.rs
+++ b/src/domain/key.rs
@@ -29,7 +29,7 @@ impl Key for PeanoKey2d {
     const MAX_DEPTH: usize = NUM_BITS_PER_DIMENSION_2D as usize;
 
     fn middle(start: Self, end: Self) -> Self {
-        Self(start.0 / 2 + end.0 / 2)
+        Self(start.0 + (end.0 - start.0) / 2)
     }
 
     fn next(self) -> Self {
@@ -43,7 +43,7 @@ impl Key for PeanoKey3d {
     const MAX_DEPTH: usize = NUM_BITS_PER_DIMENSION_3D as usize;
 
     fn middle(start: Self, end: Self) -> Self {
-        Self(start.0 / 2 + end.0 / 2)
+        Self(start.0 + (end.0 - start.0) / 2)
     }
 
     fn next(self) -> Self {
-- 
2.43.0


From 4f6738742c8b3956e98d8c84066fb15d7ab17a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:15 +0000
Subject: [PATCH 07/18] fix: KeyCounter counted the key at the end of a range
 twice and lost duplicates at its start

---
 src/domain/decomposition.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/domain/decomposition.rs b/src/domain/decomposition.rs
index f389242..069153d 100644
--- a/src/domain/decomposition.rs
+++ b/src/domain/decomposition.rs
@@ -235,12 +235,8 @@ impl<K: Key> KeyCounter<K> {
 
 impl<K: Key> LoadCounter<K> for KeyCounter<K> {
     fn load_in_range(&mut self, start: K, end: K) -> Work {
-        let start = self.keys.binary_search(&start).unwrap_or_else(|e| e);
-        let end = self
-            .keys
-            .binary_search(&end)
-            .map(|x| x + 1)
-            .unwrap_or_else(|e| e);
+        let start = self.keys.partition_point(|key| *key < start);
+        let end = self.keys.partition_point(|key| *key < end);
         end as u64 - start as u64
     }
 
-- 
2.43.0


From cfb6c4c2a65afa07ec4c4c39e340fc4c0eafb7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:15 +0000
Subject: [PATCH 08/18] fix: keys at the border of an empty segment were given
 to the rank of the empty segment

---
 src/domain/decomposition.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/domain/decomposition.rs b/src/domain/decomposition.rs
index 069153d..83071f9 100644
--- a/src/domain/decomposition.rs
+++ b/src/domain/decomposition.rs
@@ -91,10 +91,7 @@ impl<K: Key> Decomposition<K> {
     }
 
     pub fn get_owning_rank(&self, key: K) -> Rank {
-        self.cuts
-            .binary_search(&key)
-            .map(|x| x + 1)
-            .unwrap_or_else(|e| e) as i32
+        self.cuts.partition_point(|cut| *cut <= key) as i32
     }
 
     pub fn get_imbalance(&self) -> f64 {
-- 
2.43.0


From dc27b22ddcfe4be5ef24ea05862cb7090ca25a24 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 00:54:46 +0000
Subject: [PATCH 09/18] fix: keys beyond the last cut were owned by no rank

---
 src/domain/decomposition.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/domain/decomposition.rs b/src/domain/decomposition.rs
index 83071f9..e541b0b 100644
--- a/src/domain/decomposition.rs
+++ b/src/domain/decomposition.rs
@@ -91,7 +91,9 @@ impl<K: Key> Decomposition<K> {
     }
 
     pub fn get_owning_rank(&self, key: K) -> Rank {
-        self.cuts.partition_point(|cut| *cut <= key) as i32
+        let segment = self.cuts.partition_point(|cut| *cut <= key);
+        // Positions without a particle can have keys beyond the last cut.
+        segment.min(self.num_ranks - 1) as i32
     }
 
     pub fn get_imbalance(&self) -> f64 {
-- 
2.43.0


From 55192e41935f3c220243efb8643d652979309fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:52 +0000
Subject: [PATCH 10/18] fix: dimensions of datasets were read without their
 powers of the scale factor and little h

---
 src/io/unit_reader.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/io/unit_reader.rs b/src/io/unit_reader.rs
index 752c27e..b568fe5 100644
--- a/src/io/unit_reader.rs
+++ b/src/io/unit_reader.rs
@@ -1,5 +1,7 @@
 use hdf5::Dataset;
 
+use super::output::A_SCALING_IDENTIFIER;
+use super::output::H_SCALING_IDENTIFIER;
 use super::output::LENGTH_IDENTIFIER;
 use super::output::MASS_IDENTIFIER;
 use super::output::SCALE_FACTOR_IDENTIFIER;
@@ -49,8 +51,13 @@ impl UnitReader for DefaultUnitReader {
         let length: i32 = read_attr(LENGTH_IDENTIFIER, "No length scale factor in dataset");
         let mass: i32 = read_attr(MASS_IDENTIFIER, "No mass scale factor in dataset");
         let time: i32 = read_attr(TIME_IDENTIFIER, "No time scale factor in dataset");
-        let h = 0;
-        let a = 0;
+        // Datasets without cosmological scaling need not have these.
+        let read_optional_attr = |ident| match set.attr(ident) {
+            Ok(attr) => attr.read_scalar().unwrap(),
+            Err(_) => 0,
+        };
+        let h: i32 = read_optional_attr(H_SCALING_IDENTIFIER);
+        let a: i32 = read_optional_attr(A_SCALING_IDENTIFIER);
         let temperature: i32 = read_attr(
             TEMPERATURE_IDENTIFIER,
             "No temperature scale factor in dataset",
-- 
2.43.0


From 8529ed6b22263a0b2e3c9fec973f3c4bd8242dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:59 +0000
Subject: [PATCH 11/18] fix: the exact circumsphere test rounded the squared
 norms of its points

---
 src/voronoi/primitives/tetrahedron.rs | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/voronoi/primitives/tetrahedron.rs b/src/voronoi/primitives/tetrahedron.rs
index 3c8588d..ebc85d9 100644
--- a/src/voronoi/primitives/tetrahedron.rs
+++ b/src/voronoi/primitives/tetrahedron.rs
@@ -23,7 +23,6 @@ use crate::voronoi::math::precision_types::TETRAHEDRON_POINTS_ON_SAME_SIDE_EPSIL
 use crate::voronoi::math::traits::Cross3d;
 use crate::voronoi::math::utils::determinant4x4;
 use crate::voronoi::math::utils::determinant5x5;
-use crate::voronoi::math::utils::lift_matrix;
 use crate::voronoi::math::utils::solve_3x4_system_of_equations_error;
 use crate::voronoi::math::utils::Sign;
 use crate::voronoi::PointIndex;
@@ -197,23 +196,19 @@ impl DTetraData for TetrahedronData {
 
     fn circumcircle_contains(&self, point: Point3d) -> bool {
         self.circumcircle_contains_float(point).unwrap_or_else(|_| {
-            let a = self.p1;
-            let b = self.p2;
-            let c = self.p3;
-            let d = self.p4;
-            let e = point;
-            let matrix = [
-                [1.0, a.x, a.y, a.z, a.x.powi(2) + a.y.powi(2) + a.z.powi(2)],
-                [1.0, b.x, b.y, b.z, b.x.powi(2) + b.y.powi(2) + b.z.powi(2)],
-                [1.0, c.x, c.y, c.z, c.x.powi(2) + c.y.powi(2) + c.z.powi(2)],
-                [1.0, d.x, d.y, d.z, d.x.powi(2) + d.y.powi(2) + d.z.powi(2)],
-                [1.0, e.x, e.y, e.z, e.x.powi(2) + e.y.powi(2) + e.z.powi(2)],
-            ];
-            Sign::of(determinant5x5(lift_matrix(matrix)))
+            // The squared norms have to be computed in arbitrary precision as well:
+            // rounding them moves the points away from the paraboloid.
+            let row = |p: Point3d| {
+                let p = PrecisionPoint3d::new(p);
+                let norm_squared = p.clone().dot(p.clone());
+                [PrecisionFloat::one(), p.x, p.y, p.z, norm_squared]
+            };
+            let matrix = [self.p1, self.p2, self.p3, self.p4, point].map(row);
+            Sign::of(determinant5x5(matrix))
                 .panic_if_zero(|| {
                     format!(
                         "Degenerate case in circumcircle test of tetrahedron: {:?}. {:?}",
-                        self, matrix
+                        self, point
                     )
                 })
                 .is_negative()
-- 
2.43.0


From 3520cd774570b2958bfef204049a8209675e523f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:37 +0000
Subject: [PATCH 12/18] fix: cartesian grids lost a layer of cells when the box
 size divided by the cell size rounded down

---
 src/sweep/grid/cartesian.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/sweep/grid/cartesian.rs b/src/sweep/grid/cartesian.rs
index 29b93d4..235c04f 100644
--- a/src/sweep/grid/cartesian.rs
+++ b/src/sweep/grid/cartesian.rs
@@ -139,20 +139,22 @@ impl IntegerPosition {
     }
 
     fn from_position_and_side_length(pos: VecLength, side_length: Length) -> IntegerPosition {
+        // Rounded, since the ratio can be slightly below the number of
+        // cells even if the side length divides the position evenly.
         let float = (pos / side_length).value();
         #[cfg(feature = "2d")]
         {
             Self {
-                x: float.x.floor() as i32,
-                y: float.y.floor() as i32,
+                x: float.x.round() as i32,
+                y: float.y.round() as i32,
             }
         }
         #[cfg(not(feature = "2d"))]
         {
             Self {
-                x: float.x.floor() as i32,
-                y: float.y.floor() as i32,
-                z: float.z.floor() as i32,
+                x: float.x.round() as i32,
+                y: float.y.round() as i32,
+                z: float.z.round() as i32,
             }
         }
     }
-- 
2.43.0


From 45f5edb08f228aafd402497415bdfb65f519d64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:02 +0000
Subject: [PATCH 13/18] fix: ranks without particles shifted the extents that
 searches of other ranks use

---
 src/domain/decomposition.rs | 25 +++++++++++++++----------
 src/domain/mod.rs           |  6 +++---
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/domain/decomposition.rs b/src/domain/decomposition.rs
index e541b0b..bc00f98 100644
--- a/src/domain/decomposition.rs
+++ b/src/domain/decomposition.rs
@@ -65,7 +65,9 @@ pub struct Decomposition<K> {
     num_ranks: usize,
     cuts: Vec<K>,
     loads: Vec<Work>,
-    extents: Vec<Extent<VecLength>>,
+    /// The extent of the particles on each rank, none for ranks
+    /// without particles.
+    extents: Vec<Option<Extent<VecLength>>>,
 }
 
 impl<K: Key> Decomposition<K> {
@@ -126,7 +128,7 @@ impl<K: Key> Decomposition<K> {
         }
     }
 
-    pub(super) fn set_extents(&mut self, extents: Vec<Extent<VecLength>>) {
+    pub(super) fn set_extents(&mut self, extents: Vec<Option<Extent<VecLength>>>) {
         self.extents = extents;
     }
 }
@@ -138,14 +140,17 @@ impl Decomposition<DomainKey> {
         extent: &Extent<MVec>,
         box_: &SimulationBox,
     ) -> bool {
-        let rank_extent = &self.extents[rank as usize];
-        bounding_boxes_overlap_periodic(
-            box_,
-            &VecLength::new_unchecked(extent.center()),
-            &VecLength::new_unchecked(extent.side_lengths()),
-            &rank_extent.center(),
-            &rank_extent.side_lengths(),
-        )
+        self.extents[rank as usize]
+            .as_ref()
+            .map_or(false, |rank_extent| {
+                bounding_boxes_overlap_periodic(
+                    box_,
+                    &VecLength::new_unchecked(extent.center()),
+                    &VecLength::new_unchecked(extent.side_lengths()),
+                    &rank_extent.center(),
+                    &rank_extent.side_lengths(),
+                )
+            })
     }
 }
 
diff --git a/src/domain/mod.rs b/src/domain/mod.rs
index 2e390b2..f3ab965 100644
--- a/src/domain/mod.rs
+++ b/src/domain/mod.rs
@@ -89,11 +89,11 @@ pub fn construct_quad_tree_system(
     commands.insert_resource(QuadTree::new(&config, particles, &box_));
 }
 
-fn communicate_extents(particles: &Particles<&Position>) -> Vec<Extent> {
+fn communicate_extents(particles: &Particles<&Position>) -> Vec<Option<Extent>> {
     let mut extent_communicator = MpiWorld::<CommunicatedOption<Extent>>::new();
     let extent = Extent::from_positions(particles.iter().map(|x| &x.0));
     let all_extents = extent_communicator.all_gather(&extent.into());
-    all_extents.into_iter().filter_map(|x| x.into()).collect()
+    all_extents.into_iter().map(|x| x.into()).collect()
 }
 
 pub(super) fn check_particle_extent_system(
@@ -101,7 +101,7 @@ pub(super) fn check_particle_extent_system(
     box_: Res<SimulationBox>,
 ) {
     let all_extents = communicate_extents(&particles);
-    let extent = Extent::get_all_encompassing(all_extents.iter())
+    let extent = Extent::get_all_encompassing(all_extents.iter().flatten())
         .expect("Failed to find simulation extent - are there no particles?");
     let volume_ratio = extent.volume() / box_.volume();
     if volume_ratio.value() < 0.8 {
-- 
2.43.0


From 7a59b7ecebb78dd1724bc093045cc09a4697d841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:34 +0000
Subject: [PATCH 14/18] fix: preventing cooling made cells panic when fully
 ionized and never ionize when neutral

---
 src/chemistry/hydrogen_only/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/chemistry/hydrogen_only/mod.rs b/src/chemistry/hydrogen_only/mod.rs
index ede3c1d..9f8ec9c 100644
--- a/src/chemistry/hydrogen_only/mod.rs
+++ b/src/chemistry/hydrogen_only/mod.rs
@@ -357,7 +357,11 @@ impl Solver {
         let xhii_floor = self
             .floor
             .map(|(_, xhii)| *xhii)
-            .unwrap_or(IONIZED_HYDROGEN_FRACTION_EPSILON);
+            .unwrap_or(IONIZED_HYDROGEN_FRACTION_EPSILON)
+            .clamp(
+                IONIZED_HYDROGEN_FRACTION_EPSILON,
+                1.0 - IONIZED_HYDROGEN_FRACTION_EPSILON,
+            );
         self.ionized_hydrogen_fraction = self
             .ionized_hydrogen_fraction
             .clamp(xhii_floor, 1.0 - IONIZED_HYDROGEN_FRACTION_EPSILON);
-- 
2.43.0


From 7b071b99d0c24af0fe064a817dfb0bb3d5529ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:34 +0000
Subject: [PATCH 15/18] fix: the scale factor at times after a = 1 could not be
 found

---
 src/cosmology.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/cosmology.rs b/src/cosmology.rs
index 56979b0..1fa421f 100644
--- a/src/cosmology.rs
+++ b/src/cosmology.rs
@@ -114,18 +114,16 @@ impl CosmologyParams {
         h: Dimensionless,
         delta_t: Time,
     ) -> Dimensionless {
+        let difference = |a1: f64| {
+            (self.time_difference_between_scalefactors(a, a1.into(), h) - delta_t).value_unchecked()
+        };
         let min = 0.0;
-        let max = 1.0;
-        binary_search(
-            |a1| {
-                (self.time_difference_between_scalefactors(a, a1.into(), h) - delta_t)
-                    .value_unchecked()
-            },
-            min,
-            max,
-            Time::years(100.0).value_unchecked(),
-        )
-        .into()
+        let mut max = 1.0;
+        // The time in question might be later than today
+        while difference(max) < 0.0 {
+            max *= 2.0;
+        }
+        binary_search(difference, min, max, Time::years(100.0).value_unchecked()).into()
     }
 }
 
-- 
2.43.0


From 72147ffa77446df66b4c05a2aeff46e17a27ec06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:34 +0000
Subject: [PATCH 16/18] fix: the ionization energy of hydrogen missed a digit

---
 src/units/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/units/mod.rs b/src/units/mod.rs
index 6d86b6c..980838e 100644
--- a/src/units/mod.rs
+++ b/src/units/mod.rs
@@ -105,7 +105,7 @@ unit_system!(
         constant NUMBER_WEIGHTED_AVERAGE_CROSS_SECTION = 2.9580524545305314e-18 * centimeters_squared,
         constant ENERGY_WEIGHTED_AVERAGE_CROSS_SECTION = 2.7352520425024469e-18 * centimeters_squared,
         constant PHOTON_AVERAGE_ENERGY = 18.028356312818811 * electron_volts,
-        constant RYDBERG_CONSTANT = 13.65693 * electron_volts,
+        constant RYDBERG_CONSTANT = 13.605693 * electron_volts,
     ]
 );
 
-- 
2.43.0


From cb2378f08b44c3aff980a6b13e7e993086777725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:52 +0000
Subject: [PATCH 17/18] fix: ergs were written with the symbol of joules

---
 src/units/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/units/mod.rs b/src/units/mod.rs
index 980838e..56a424b 100644
--- a/src/units/mod.rs
+++ b/src/units/mod.rs
@@ -57,7 +57,7 @@ unit_system!(
         unit (meters_per_second, "m/s") = meters / seconds,
         def Energy = Mass * Velocity * Velocity,
         unit (joules, "J") = 1.0 * Energy,
-        unit (ergs, "J") = 1e-7 * joules,
+        unit (ergs, "erg") = 1e-7 * joules,
         unit (electron_volts, "eV") = 1.602176634e-19 * joules,
         def Temperature = { temperature: 1 },
         def InverseTemperature = Dimensionless / Temperature,
-- 
2.43.0


From 70f70800db55fcdc878c5b0e60fda832a30f3dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:11 +0000
Subject: [PATCH 18/18] fix: points were remapped with a different factor in
 each coordinate, so grids in extents that are no cubes were not Voronoi grids

---
 src/dimension.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dimension.rs b/src/dimension.rs
index 28d4ce3..e4b481e 100644
--- a/src/dimension.rs
+++ b/src/dimension.rs
@@ -43,7 +43,8 @@ impl Dimension for TwoD {
     type WrapType = PeriodicWrapType2d;
     fn remap_point(point: Point<Self>, extent: &Extent<Point<Self>>) -> Point<Self> {
         debug_assert!(extent.contains(&point));
-        MVec2::new(1.0, 1.0) + (point - extent.min) * (1.0 / extent.side_lengths())
+        // The same factor in all coordinates, so that circles stay circles
+        MVec2::new(1.0, 1.0) + (point - extent.min) * (1.0 / extent.max_side_length())
     }
 }
 
@@ -55,7 +56,8 @@ impl Dimension for ThreeD {
     type WrapType = PeriodicWrapType3d;
     fn remap_point(point: Point<Self>, extent: &Extent<Point<Self>>) -> Point<Self> {
         debug_assert!(extent.contains(&point));
-        MVec3::new(1.0, 1.0, 1.0) + (point - extent.min) * (1.0 / extent.side_lengths())
+        // The same factor in all coordinates, so that spheres stay spheres
+        MVec3::new(1.0, 1.0, 1.0) + (point - extent.min) * (1.0 / extent.max_side_length())
     }
 }
 
-- 
2.43.0

