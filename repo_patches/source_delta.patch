From 8e3db096b010428a4baa09f5adbe66a9f04df6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 1/4] fix: report the inserted vertex in the Rips coboundary
 iterator

CoboundaryIterator incremented next_vertex before yielding it, so
RipsCoboundary::column_with_filtration measured distances to the wrong
vertex (and indexed out of bounds for the last one).
---
 phlite_rips/src/cohomology.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phlite_rips/src/cohomology.rs b/phlite_rips/src/cohomology.rs
index ded27da..570b92e 100644
--- a/phlite_rips/src/cohomology.rs
+++ b/phlite_rips/src/cohomology.rs
@@ -95,8 +95,9 @@ impl<CF: NonZeroCoefficient> Iterator for CoboundaryIterator<CF> {
             CF::one().additive_inverse()
         };
 
+        let inserted_vertex = self.next_vertex;
         self.next_vertex += 1;
-        Some((coeff, index, self.next_vertex))
+        Some((coeff, index, inserted_vertex))
     }
 }
 
-- 
2.43.0


From 1fca32b09e772f208a7e2df5a7eaf96b587c6621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 2/4] fix: allow max_dim = 0 when building Rips bases

add_cofacets pushed edges into bases[1] without checking max_dim, so asking
for degree 0 only panicked as soon as there were two points.
---
 phlite_rips/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phlite_rips/src/lib.rs b/phlite_rips/src/lib.rs
index 8bc9032..c13c1a6 100644
--- a/phlite_rips/src/lib.rs
+++ b/phlite_rips/src/lib.rs
@@ -145,7 +145,7 @@ fn add_cofacets(
     let max_element = simplex_as_vec.last().unwrap();
     let prev_dimension = simplex_as_vec.len() - 1;
     let new_dimension = prev_dimension + 1;
-    if *max_element == n_vertices - 1 {
+    if *max_element == n_vertices - 1 || new_dimension > max_dim {
         // Cannot extend
         return;
     }
-- 
2.43.0


From 731439e78bb7b143f5935b599ea5abe8b740b3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 3/4] fix: do not keep the column cache borrowed while
 iterating

WithCachedCols::column returned an iterator holding a Ref into the cache, so
requesting an uncached column while such an iterator was alive (for example in
a product of a cached matrix with itself, or in R = DV for a cleared V)
panicked with a BorrowMutError.
---
 phlite/src/matrices/adaptors.rs | 44 ++++++++-------------------------
 1 file changed, 10 insertions(+), 34 deletions(-)

diff --git a/phlite/src/matrices/adaptors.rs b/phlite/src/matrices/adaptors.rs
index 49619bf..f8dac0e 100644
--- a/phlite/src/matrices/adaptors.rs
+++ b/phlite/src/matrices/adaptors.rs
@@ -8,7 +8,7 @@
 // ====== WithTrivialFiltration ================
 
 use std::{
-    cell::{Ref, RefCell},
+    cell::RefCell,
     cmp::Reverse,
     collections::HashMap,
     hash::Hash,
@@ -198,29 +198,6 @@ pub struct WithCachedCols<M: MatrixOracle> {
     pub cache: RefCell<HashMap<M::ColT, Vec<(M::CoefficientField, M::RowT)>>>,
 }
 
-// Essentialy https://stackoverflow.com/questions/33541492/returning-iterator-of-a-vec-in-a-refcell
-struct CachedColIter<'a, T> {
-    inner: Option<Ref<'a, [T]>>,
-}
-
-impl<'a, T> Iterator for CachedColIter<'a, T> {
-    type Item = Ref<'a, T>;
-
-    fn next(&mut self) -> Option<Self::Item> {
-        match self.inner.take() {
-            Some(borrow) => match *borrow {
-                [] => None,
-                [_, ..] => {
-                    let (head, tail) = Ref::map_split(borrow, |slice| (&slice[0], &slice[1..]));
-                    self.inner.replace(tail);
-                    Some(head)
-                }
-            },
-            None => None,
-        }
-    }
-}
-
 impl<M> MatrixOracle for WithCachedCols<M>
 where
     M: MatrixOracle<ColT: Hash>,
@@ -242,16 +219,15 @@ where
                 .borrow_mut()
                 .insert(col.clone(), col_as_vec.clone());
         }
-        // Get a borrow to the column
-        let cache_borrow = self.cache.borrow();
-        let col_borrow = Ref::map(cache_borrow, |c| {
-            &c.get(&col).expect("Just populated key")[..]
-        });
-        // Return an iterator
-        CachedColIter {
-            inner: Some(col_borrow),
-        }
-        .map(|entry| entry.clone())
+        // Copy the column out of the cache so that the returned iterator does not keep it borrowed.
+        // Otherwise we could not cache another column until the iterator is dropped.
+        let cached_col = self
+            .cache
+            .borrow()
+            .get(&col)
+            .expect("Just populated key")
+            .clone();
+        cached_col.into_iter()
     }
 }
 
-- 
2.43.0


From 9ba3d569142be82d07f44869dfadcd6eebe02a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 4/4] fix: never report a paired birth as essential

read_off_diagram only removed a birth from the essential set if its column was
visited before the pairing, so reading off the diagram of a reversed
coboundary matrix with the documented reverse_order = true listed every paired
birth as an infinite bar as well.
---
 phlite/src/reduction/standard.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/phlite/src/reduction/standard.rs b/phlite/src/reduction/standard.rs
index 6e94415..88ed126 100644
--- a/phlite/src/reduction/standard.rs
+++ b/phlite/src/reduction/standard.rs
@@ -145,6 +145,11 @@ where
         if r_i.pop_pivot().is_none() {}
     }
 
+    // Depending on the order of the basis we may have visited a birth after its pairing
+    for (birth, _death) in &pairings {
+        essential.remove(birth);
+    }
+
     Diagram {
         essential,
         pairings,
-- 
2.43.0

