From 07fb6cd8f63bd16fde189b5d9b39345098c394f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:10 +0000
Subject: [PATCH 1/7] fix: root advancing/backtracking fans correctly when the
 builder's winding is clockwise

The immediate (non-deferred) fan path picked the fan root from the chain side
instead of the fan direction. The two coincide for counterclockwise builders
only, so reverse_winding produced wrong windings, overlapping triangles and
gaps.
---
 src/monotone.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/monotone.rs b/src/monotone.rs
index 2a84809..24ef79b 100644
--- a/src/monotone.rs
+++ b/src/monotone.rs
@@ -111,7 +111,7 @@ impl<Index: VertexIndex, C: Real> Monotone<Index, C> {
                 // and can make the calls in a reversed order
                 let is_backtracking = self.can_triangulate();
                 let mut bodt: BuilderOrDeferredTris<'_, '_, P, FB> = if is_backtracking ^ self.is_left_chain ^ (FB::Builder::WINDING == TriangleWinding::Clockwise) {
-                    if !self.is_left_chain {
+                    if is_backtracking {
                         std::mem::swap(&mut vi0, &mut vi2);
                     }
                     BuilderOrDeferredTris::Builder(fbs.new_fan(ps.polygon_list(), vi0, vi1, vi2)?)
-- 
2.43.0


From eab69053ce6ecd9de0bd5206de22751b72475a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:33 +0000
Subject: [PATCH 2/7] fix: leave the output untouched when DelimitedFanFormat
 fails to initialize

An index equal to the delimiter in the very first triangle returned an error
after the delimiter and some indices had already been pushed to the caller's
collection; fail is never called for a builder that was not created.
---
 src/outputs/formats/delimited_fan.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/outputs/formats/delimited_fan.rs b/src/outputs/formats/delimited_fan.rs
index d45bd59..d8f9d5e 100644
--- a/src/outputs/formats/delimited_fan.rs
+++ b/src/outputs/formats/delimited_fan.rs
@@ -54,6 +54,11 @@ impl<'p, P: PolygonList<'p> + ?Sized, FS: Fans<Fan=P::Index>> DelimitedFanBuilde
     fn new(mut fans: FS, delimiter: P::Index, _polygon_list: &'p P, vi0: P::Index, vi1: P::Index, vi2: P::Index) -> Result<Self, <Self as FanBuilder<'p, P>>::Error> {
         let initial_vert_count = fans.len();
 
+        // `fail` is not called if initialization fails, so detect this before anything is added to `fans`
+        if vi0 == delimiter || vi1 == delimiter || vi2 == delimiter {
+            return Err(DelimitedFanError::IndexMatchesDelimiter);
+        }
+
         if fans.len() > 0 {
             fans.push(delimiter.clone());
         }
-- 
2.43.0


From a4e5d7d52225f0b2f1c4e25b0a6217e03dad92b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:39 +0000
Subject: [PATCH 3/7] fix: let a ListBuilder clean up when adding its first
 triangle fails

FanToListFormat dropped the already initialized ListBuilder without calling
fail, so its cleanup was skipped for an error on the first triangle only.
---
 src/outputs/formats/fan_to_list.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/outputs/formats/fan_to_list.rs b/src/outputs/formats/fan_to_list.rs
index 4c386b8..2437033 100644
--- a/src/outputs/formats/fan_to_list.rs
+++ b/src/outputs/formats/fan_to_list.rs
@@ -1,6 +1,6 @@
 use std::marker::PhantomData;
 
-use crate::{PolygonList, ListFormat, FanFormat, FanBuilder, ListBuilder, TriangleWinding};
+use crate::{PolygonList, ListFormat, FanFormat, FanBuilder, ListBuilder, TriangleWinding, TriangulationError};
 
 /// A wrapper which adapts a [ListFormat] to work as a [FanFormat], which is required for [PolygonList::triangulate]
 /// 
@@ -18,7 +18,15 @@ impl<'p, P: PolygonList<'p> + ?Sized, LB: ListFormat<'p, P>> FanFormat<'p, P> fo
 
     fn initialize(self, polygon_list: &'p P, vi0: <P as PolygonList<'p>>::Index, vi1: <P as PolygonList<'p>>::Index, vi2: <P as PolygonList<'p>>::Index) -> Result<Self::Builder, <Self::Builder as FanBuilder<'p, P>>::Error> {
         let mut list_builder = self.0.initialize(polygon_list)?;
-        list_builder.add_triangle(vi0.clone(), vi1, vi2.clone())?;
+        if let Err(err) = list_builder.add_triangle(vi0.clone(), vi1, vi2.clone()) {
+            // The list builder already exists, but it will not be reachable by the caller to perform its cleanup
+            let err = TriangulationError::FanBuilder(err);
+            list_builder.fail(&err);
+            return match err {
+                TriangulationError::FanBuilder(err) => Err(err),
+                _ => unreachable!(),
+            };
+        }
         
         let fan_builder = FanToListBuilder::new(list_builder, vi0, vi2);
         Ok(fan_builder)
-- 
2.43.0


From 89c2a238c8e3248b3879f6149f2737e11fd94bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:44 +0000
Subject: [PATCH 4/7] verif: add the _verif feature (insertion order override,
 trapezoidation snapshots)

Off by default; used by the verification harness only.
---
 Cargo.toml            |  2 ++
 src/lib.rs            |  4 +++
 src/trapezoidation.rs | 32 +++++++++++++++++++++++
 src/verif.rs          | 61 +++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 99 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/Cargo.toml b/Cargo.toml
index 3255598..20fcb4f 100644
--- a/Cargo.toml
+++ b/Cargo.toml
@@ -37,6 +37,8 @@ criterion = "0.4"
 default = []
 _debugging = ["dep:text_trees", "dep:svg_fmt"]
 _benchmarking = ["dep:earcutr"]
+# Verification hooks, see src/verif.rs
+_verif = []
 
 [profile.release-symbols]
 inherits = "release"
diff --git a/src/lib.rs b/src/lib.rs
index 9ab1c8b..2daccd4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -80,6 +80,10 @@ mod errors;
 #[cfg(feature = "_debugging")]
 pub mod debug;
 
+#[cfg(feature = "_verif")]
+#[doc(hidden)]
+pub mod verif;
+
 #[cfg(any(test, feature = "_benchmarking"))]
 #[doc(hidden)]
 pub mod tests;
diff --git a/src/trapezoidation.rs b/src/trapezoidation.rs
index f205f18..7e79c42 100644
--- a/src/trapezoidation.rs
+++ b/src/trapezoidation.rs
@@ -353,6 +353,8 @@ impl<'p, P: PolygonList<'p> + ?Sized> TrapezoidationState<'p, P> {
         // Random insertion order of the segments avoids constant worst-case scenarios
         let mut segment_order: Vec<_> = (0..len).collect();
         segment_order[..].shuffle(&mut rand::thread_rng());
+        #[cfg(feature = "_verif")]
+        crate::verif::override_order(&mut segment_order);
 
         // Periodically, at a decreasing rate, find the trapezoid each uninserted vertex is contained within, based on the current query structure
         // The next search can begin from that query node
@@ -433,6 +435,9 @@ impl<'p, P: PolygonList<'p> + ?Sized> TrapezoidationState<'p, P> {
                 update_count += 1;
                 next_update = math_n(len, update_count);
             }
+
+            #[cfg(feature = "_verif")]
+            crate::verif::record(|| self.verif_snapshot(&vls[..]));
         }
 
         Ok(())
@@ -635,6 +640,33 @@ impl<'p, P: PolygonList<'p> + ?Sized> TrapezoidationState<'p, P> {
     }
 }
 
+#[cfg(feature = "_verif")]
+impl<'p, P: PolygonList<'p> + ?Sized> TrapezoidationState<'p, P> {
+    // Describes the current trapezoids, and where each uninserted vertex is located, by coordinates alone
+    fn verif_snapshot(&self, vls: &[VertexLocation<P::Vertex, P::Index>]) -> crate::verif::Snapshot {
+        use num_traits::ToPrimitive;
+
+        let point = |c: Coords<<P::Vertex as Vertex>::Coordinate>| [c.x().to_f64().unwrap(), c.y().to_f64().unwrap()];
+        let nexus = |ni: Idx<Nexus<P::Vertex, P::Index>>| point(self.ns[ni].coords());
+        let segment = |si: Idx<Segment<P::Vertex, P::Index>>| [nexus(self.ss[si].ni_min()), nexus(self.ss[si].ni_max())];
+
+        crate::verif::Snapshot {
+            vertices: self.ns.iter_index().map(nexus).collect(),
+            segments: self.ss.iter_index().map(segment).collect(),
+            trapezoids: self.ts.iter().map(|t| crate::verif::SnapshotTrapezoid {
+                left: t.left().map(segment),
+                right: t.right().map(segment),
+                down: t.down().map(nexus),
+                up: t.up().map(nexus),
+            }).collect(),
+            located: vls.iter().filter_map(|vl| match vl {
+                VertexLocation::Pending(c, _, qi) => Some((point(*c), self.find_trapezoid_from_root(*c, *qi).1.usize(), self.find_trapezoid(*c).1.usize())),
+                VertexLocation::Inserted(_, _) => None,
+            }).collect(),
+        }
+    }
+}
+
 impl<'t, 'p: 't, P: PolygonList<'p> + ?Sized> TrapezoidationStructure<'p, P> for TrapezoidationState<'p, P> {
     fn ps(&self) -> PolygonListExt<'p, P> { self.ps }
 
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..319017c
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,61 @@
+//! Hooks for the verification harness: a chosen segment insertion order, and a record of the trapezoidation
+//! after each inserted segment. Both are per thread, and off unless the harness turns them on.
+
+use std::{cell::RefCell, collections::VecDeque};
+
+/// A trapezoid, described by the segments (lower and upper endpoints) and the vertices which bound it
+#[derive(Debug, Clone, PartialEq)]
+pub struct SnapshotTrapezoid {
+    pub left: Option<[[f64; 2]; 2]>,
+    pub right: Option<[[f64; 2]; 2]>,
+    pub down: Option<[f64; 2]>,
+    pub up: Option<[f64; 2]>,
+}
+
+/// The state of the trapezoidation after inserting a segment
+#[derive(Debug, Clone, PartialEq)]
+pub struct Snapshot {
+    pub vertices: Vec<[f64; 2]>,
+    pub segments: Vec<[[f64; 2]; 2]>,
+    pub trapezoids: Vec<SnapshotTrapezoid>,
+    /// The uninserted vertices of the current polygon, with the trapezoids found by searching from 
+    /// the vertex's best-known location and from the root of the query structure
+    pub located: Vec<([f64; 2], usize, usize)>,
+}
+
+thread_local! {
+    static ORDERS: RefCell<VecDeque<Vec<usize>>> = RefCell::new(VecDeque::new());
+    static RECORD: RefCell<Option<Vec<Snapshot>>> = RefCell::new(None);
+}
+
+/// Set the segment insertion orders of the next polygons to be trapezoidized on this thread
+pub fn set_orders(orders: impl IntoIterator<Item=Vec<usize>>) {
+    ORDERS.with(|o| *o.borrow_mut() = orders.into_iter().collect());
+}
+
+/// Start recording snapshots on this thread
+pub fn start_recording() {
+    RECORD.with(|r| *r.borrow_mut() = Some(Vec::new()));
+}
+
+/// Stop recording, and take what has been recorded
+pub fn take_recording() -> Vec<Snapshot> {
+    RECORD.with(|r| r.borrow_mut().take()).unwrap_or_default()
+}
+
+pub(crate) fn override_order(order: &mut Vec<usize>) {
+    if let Some(new) = ORDERS.with(|o| o.borrow_mut().pop_front()) {
+        let mut sorted = new.clone();
+        sorted.sort_unstable();
+        if sorted.into_iter().eq(0..order.len()) {
+            *order = new;
+        }
+    }
+}
+
+pub(crate) fn record(snapshot: impl FnOnce() -> Snapshot) {
+    if RECORD.with(|r| r.borrow().is_some()) {
+        let snapshot = snapshot();
+        RECORD.with(|r| if let Some(r) = r.borrow_mut().as_mut() { r.push(snapshot) });
+    }
+}
-- 
2.43.0


From acb6ff12782fa52006960b5b76083bbd3189dd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:19 +0000
Subject: [PATCH 5/7] fix: insert the polygons of a list in random order

The segments of each polygon were inserted in random order, but the polygons
themselves in the order listed. A list in geometric order (rings in a row, in
a grid, nested) degenerated the query structure into a list, and made the whole
run quadratic in the number of polygons.
---
 src/trapezoidation.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/trapezoidation.rs b/src/trapezoidation.rs
index 7e79c42..1338dfb 100644
--- a/src/trapezoidation.rs
+++ b/src/trapezoidation.rs
@@ -259,8 +259,10 @@ impl<'p, P: PolygonList<'p> + ?Sized> TrapezoidationState<'p, P> {
         // Periodically, for each uninserted vertex, we search for the trapezoid that contains the point and update the QueryNode.
         // Finally, once a vertex is inserted, we replace the QueryNode with the exact Nexus we created for the vertex
 
-        // Allocate as if there is a single polygon (ensuring no reallocations)
         let mut v_lookup: Vec<VertexLocation<P::Vertex, P::Index>> = Vec::with_capacity(self.ps.vertex_count());
+        // The range of each polygon's vertices in `v_lookup`
+        let mut polygons = Vec::new();
+        let mut polygon_start = 0;
 
         // Ensure the iteration ends with NewPolygon
         for polygon_vertex in self.ps.clone().iter_polygon_vertices().map(Into::into).chain(iter::once(PolygonElement::NewPolygon)) {
@@ -270,19 +272,27 @@ impl<'p, P: PolygonList<'p> + ?Sized> TrapezoidationState<'p, P> {
                     v_lookup.push(VertexLocation::Pending(c, index, self.query_node_root()));
                 }
                 PolygonElement::NewPolygon => {
-                    let v_count = v_lookup.len();
+                    let v_count = v_lookup.len() - polygon_start;
                     if v_count > 0 {
                         if v_count < 3 {
                             return Err(TrapezoidationError::NotEnoughVertices(v_count));
                         } else {
-                            self.add_polygon(v_lookup.as_mut_slice()).map_err(TrapezoidationError::InternalError)?;
-                            v_lookup.clear();
+                            polygons.push(polygon_start..v_lookup.len());
+                            polygon_start = v_lookup.len();
                         }
                     }
                 }
             }
         }
 
+        // As with segments, random insertion order of the polygons avoids a degenerate query structure,
+        // e.g. if they are listed from left to right
+        polygons.shuffle(&mut rand::thread_rng());
+
+        for polygon in polygons {
+            self.add_polygon(&mut v_lookup[polygon]).map_err(TrapezoidationError::InternalError)?;
+        }
+
         Ok(Trapezoidation::new(self))
     }
 
-- 
2.43.0


From 779d13be59870f08fb572abfd4940b976ff753b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:39 +0000
Subject: [PATCH 6/7] verif: keep the listed polygon order with chosen
 insertion orders

---
 src/trapezoidation.rs | 3 +++
 src/verif.rs          | 9 ++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/trapezoidation.rs b/src/trapezoidation.rs
index 1338dfb..1cbe419 100644
--- a/src/trapezoidation.rs
+++ b/src/trapezoidation.rs
@@ -289,6 +289,9 @@ impl<'p, P: PolygonList<'p> + ?Sized> TrapezoidationState<'p, P> {
         // e.g. if they are listed from left to right
         polygons.shuffle(&mut rand::thread_rng());
 
+        #[cfg(feature = "_verif")]
+        crate::verif::override_polygon_order(&mut polygons);
+
         for polygon in polygons {
             self.add_polygon(&mut v_lookup[polygon]).map_err(TrapezoidationError::InternalError)?;
         }
diff --git a/src/verif.rs b/src/verif.rs
index 319017c..609f9fe 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -1,7 +1,7 @@
 //! Hooks for the verification harness: a chosen segment insertion order, and a record of the trapezoidation
 //! after each inserted segment. Both are per thread, and off unless the harness turns them on.
 
-use std::{cell::RefCell, collections::VecDeque};
+use std::{cell::RefCell, collections::VecDeque, ops::Range};
 
 /// A trapezoid, described by the segments (lower and upper endpoints) and the vertices which bound it
 #[derive(Debug, Clone, PartialEq)]
@@ -53,6 +53,13 @@ pub(crate) fn override_order(order: &mut Vec<usize>) {
     }
 }
 
+/// Polygons with a chosen segment insertion order are inserted in the order they are listed
+pub(crate) fn override_polygon_order(polygons: &mut [Range<usize>]) {
+    if ORDERS.with(|o| !o.borrow().is_empty()) {
+        polygons.sort_unstable_by_key(|polygon| polygon.start);
+    }
+}
+
 pub(crate) fn record(snapshot: impl FnOnce() -> Snapshot) {
     if RECORD.with(|r| r.borrow().is_some()) {
         let snapshot = snapshot();
-- 
2.43.0


From 7c9cad35aefcb365aca5f8cfe93da05bf46b52e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:02 +0000
Subject: [PATCH 7/7] fix: iterate over the polygons of a nested list by their
 own indices

A list whose elements are polygons of a user-defined type with usize indices
assumed the indices 0..vertex_count, and never called the polygon's
iter_indices. Such a list panicked, or was triangulated wrongly, although each
of its polygons alone was not.
---
 src/inputs/polygon_list.rs | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/inputs/polygon_list.rs b/src/inputs/polygon_list.rs
index 46a52ff..11a67e9 100644
--- a/src/inputs/polygon_list.rs
+++ b/src/inputs/polygon_list.rs
@@ -218,41 +218,38 @@ impl<'p, P: PolygonList<'p> + ?Sized> ops::Index<P::Index> for PolygonListExt<'p
 }
 
 /// [Iterator] for a [PolygonList] represented as nested vectors
-pub struct VecVecIter<'a, 'p: 'a, V: Vertex, P: Polygon<'p, Index=usize, Vertex=V>> {
+pub struct VecVecIter<'a, 'p: 'a, V: Vertex + 'p, P: Polygon<'p, Index=usize, Vertex=V>> {
     parent: &'a [P],
     outer_index: usize,
-    inner_index: usize,
-    _phantom: PhantomData<&'p ()>,
+    // The remaining indices of the current polygon, once it is reached
+    inner: Option<P::Iter<'a>>,
 }
 
-impl<'a, 'p: 'a, V: Vertex, P: Polygon<'p, Index=usize, Vertex=V>> VecVecIter<'a, 'p, V, P> {
+impl<'a, 'p: 'a, V: Vertex + 'p, P: Polygon<'p, Index=usize, Vertex=V>> VecVecIter<'a, 'p, V, P> {
     fn new(parent: &'a [P]) -> Self {
         Self {
             parent,
             outer_index: 0,
-            inner_index: 0,
-            _phantom: PhantomData,
+            inner: None,
         }
     }
 }
 
-impl<'a, 'p: 'a, V: Vertex, P: Polygon<'p, Index=usize, Vertex=V>> Iterator for VecVecIter<'a, 'p, V, P> {
+impl<'a, 'p: 'a, V: Vertex + 'p, P: Polygon<'p, Index=usize, Vertex=V>> Iterator for VecVecIter<'a, 'p, V, P> {
     type Item = PolygonElement<[usize; 2]>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.outer_index < self.parent.len() {
-            Some(if self.inner_index < (self.parent[self.outer_index]).vertex_count() {
-                let result = [self.outer_index, self.inner_index];
-                self.inner_index += 1;
-                PolygonElement::ContinuePolygon(result)
-            } else {
-                self.inner_index = 0;
+        let polygon = self.parent.get(self.outer_index)?;
+        let inner = self.inner.get_or_insert_with(|| polygon.iter_indices());
+
+        Some(match inner.next() {
+            Some(inner_index) => PolygonElement::ContinuePolygon([self.outer_index, inner_index]),
+            None => {
+                self.inner = None;
                 self.outer_index += 1;
                 PolygonElement::NewPolygon
-            })
-        } else {
-            None
-        }
+            }
+        })
     }
 }
 
-- 
2.43.0

