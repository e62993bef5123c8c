From 662e6d8a6c7b1bf45c66078928e7696b8d1d143a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:27 +0000
Subject: [PATCH 1/5] fix: include the outer offset when indexing lanes
 expressions

For rank >= 3 the outer offset was ignored, so lanes(), rows(), cols() and
the mutable variants repeated the lanes of the first outer index.
---
 src/expr/sources.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/sources.rs b/src/expr/sources.rs
index e8bb131..ceb2eb2 100644
--- a/src/expr/sources.rs
+++ b/src/expr/sources.rs
@@ -439,7 +439,7 @@ macro_rules! impl_lanes {
             }
 
             unsafe fn get_unchecked(&mut self, index: usize) -> Self::Item {
-                let offset = self.mapping.inner_stride() * index as isize;
+                let offset = self.offset + self.mapping.inner_stride() * index as isize;
                 let mapping = self.axis.get(self.slice.mapping());
 
                 // If the view is empty, we must not offset the pointer.
-- 
2.43.0


From aabef478c4bb37d4e5a28362c7a3b363a342a84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:30 +0000
Subject: [PATCH 2/5] fix: allocate the index in from_fn for dynamic rank

The index was left empty for DynRank shapes, so from_fn panicked.
---
 src/expr/sources.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/expr/sources.rs b/src/expr/sources.rs
index ceb2eb2..30ab88a 100644
--- a/src/expr/sources.rs
+++ b/src/expr/sources.rs
@@ -1,5 +1,6 @@
 use std::fmt::{Debug, Formatter, Result};
 
+use crate::dim::Dims;
 use crate::expr::expression::Expression;
 use crate::expr::iter::Iter;
 use crate::index::{Axis, Keep, Split};
@@ -350,7 +351,9 @@ impl<S: Shape, F> FromFn<S, F> {
     pub(crate) fn new(shape: S, f: F) -> Self {
         _ = shape.checked_len().expect("invalid length");
 
-        Self { shape, f, index: S::Dims::default() }
+        let index = Dims::new(shape.rank());
+
+        Self { shape, f, index }
     }
 }
 
-- 
2.43.0


From 5ac43cb3e9c87c5a2b521c1a16e992fdc77d09d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:42 +0000
Subject: [PATCH 3/5] fix: yield no elements when iterating over empty arrays

If the expression has outer dimensions, an empty array could still give
elements that are outside of the array, e.g. for strided views with shape
(0, 3), for broadcasting and in from_fn.
---
 src/expr/iter.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/expr/iter.rs b/src/expr/iter.rs
index 6b59c3e..e14495a 100644
--- a/src/expr/iter.rs
+++ b/src/expr/iter.rs
@@ -20,7 +20,7 @@ impl<E: Expression> Iter<E> {
         let outer_rank = expr.rank().saturating_sub(expr.inner_rank());
 
         let inner_index = 0;
-        let inner_limit = expr.shape().with_dims(|dims| dims[outer_rank..].iter().product());
+        let mut inner_limit = expr.shape().with_dims(|dims| dims[outer_rank..].iter().product());
 
         let mut outer_index = Default::default();
         let mut outer_limit = Default::default();
@@ -29,6 +29,12 @@ impl<E: Expression> Iter<E> {
             outer_index = Dims::new(expr.rank());
             outer_limit =
                 expr.shape().with_dims(|dims| TryFrom::try_from(dims).expect("invalid rank"));
+
+            // If any dimension is empty, there are no elements in the other dimensions.
+            if expr.is_empty() {
+                inner_limit = 0;
+                outer_limit = Dims::new(expr.rank());
+            }
         }
 
         Self { expr, inner_index, inner_limit, outer_index, outer_limit }
-- 
2.43.0


From b62871d4f3c626cabec930b9a3479de7d3622e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:43 +0000
Subject: [PATCH 4/5] fix: keep expression iterators exhausted after the last
 element

After the last element, the outer index was reset so that the next calls
started over and size_hint() reported remaining elements.
---
 src/expr/iter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/expr/iter.rs b/src/expr/iter.rs
index e14495a..dbfbc8c 100644
--- a/src/expr/iter.rs
+++ b/src/expr/iter.rs
@@ -63,7 +63,10 @@ impl<E: Expression> Iter<E> {
             }
         }
 
-        self.outer_index.as_mut().fill(0); // Ensure that following calls return false.
+        // Ensure that following calls return false, with no remaining elements.
+        self.inner_index = 0;
+        self.inner_limit = 0;
+        self.outer_limit.as_mut().fill(0);
 
         false
     }
-- 
2.43.0


From b5f92ca07957dc3d9b939d9988d5bcb5473deba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:49 +0000
Subject: [PATCH 5/5] fix: drop existing elements in clone_from for IntoExpr

The elements are wrapped in ManuallyDrop, so they were leaked when cloning
into the existing buffer.
---
 src/expr/into_expr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/expr/into_expr.rs b/src/expr/into_expr.rs
index 319aafd..354cf1d 100644
--- a/src/expr/into_expr.rs
+++ b/src/expr/into_expr.rs
@@ -51,7 +51,8 @@ impl<B: Buffer + Clone> Clone for IntoExpr<B> {
     fn clone_from(&mut self, source: &Self) {
         assert!(self.index == 0 && source.index == 0, "expression in use");
 
-        self.buffer.clone_from(&source.buffer);
+        // The existing elements must be dropped, so don't reuse the buffer.
+        *self = source.clone();
     }
 }
 
-- 
2.43.0

