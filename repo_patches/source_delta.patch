From 3f65c5901dbaebaf28df78bf2f8f1434041d3443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:04 +0000
Subject: [PATCH 01/62] verif: guarded stand-ins for sync primitives (cfg
 goko_verif)

---
 goko/src/covertree/builders.rs |  11 ++-
 goko/src/covertree/tree.rs     |   6 +-
 goko/src/lib.rs                |   3 +
 goko/src/monomap/mod.rs        |   3 +
 goko/src/monomap/read.rs       |   7 +-
 goko/src/monomap/write.rs      |  14 ++-
 goko/src/verif_sync.rs         | 170 +++++++++++++++++++++++++++++++++
 7 files changed, 206 insertions(+), 8 deletions(-)
 create mode 100644 goko/src/verif_sync.rs

diff --git a/goko/src/covertree/builders.rs b/goko/src/covertree/builders.rs
index 5dd3945..2b61e8a 100644
--- a/goko/src/covertree/builders.rs
+++ b/goko/src/covertree/builders.rs
@@ -28,10 +28,19 @@ use rand::SeedableRng;
 use std::cmp::{max, min};
 use std::fs::read_to_string;
 use std::path::Path;
-use std::sync::{atomic, Arc, RwLock};
+use std::sync::{Arc, RwLock};
 use yaml_rust::YamlLoader;
 
+#[cfg(goko_verif)]
+use crate::verif_sync::{
+    atomic,
+    channel::{unbounded, Receiver, Sender},
+    rayon,
+};
+#[cfg(not(goko_verif))]
 use crossbeam_channel::{unbounded, Receiver, Sender};
+#[cfg(not(goko_verif))]
+use std::sync::atomic;
 use errors::GokoResult;
 
 use std::time::Instant;
diff --git a/goko/src/covertree/tree.rs b/goko/src/covertree/tree.rs
index 582709c..dd7f6b9 100644
--- a/goko/src/covertree/tree.rs
+++ b/goko/src/covertree/tree.rs
@@ -40,7 +40,11 @@ use crate::*;
 
 use crate::monomap::{MonoReadHandle, MonoWriteHandle};
 use crate::tree_file_format::*;
-use std::sync::{atomic, Arc, RwLock};
+#[cfg(goko_verif)]
+use crate::verif_sync::atomic;
+#[cfg(not(goko_verif))]
+use std::sync::atomic;
+use std::sync::{Arc, RwLock};
 
 use super::query_tools::{KnnQueryHeap, RoutingQueryHeap};
 use crate::plugins::{GokoPlugin, TreePluginSet};
diff --git a/goko/src/lib.rs b/goko/src/lib.rs
index de63f6f..d36f21c 100644
--- a/goko/src/lib.rs
+++ b/goko/src/lib.rs
@@ -63,6 +63,9 @@ use pointcloud::*;
 pub mod errors;
 pub use errors::GokoResult;
 
+#[cfg(goko_verif)]
+pub mod verif_sync;
+
 pub(crate) mod monomap;
 
 mod covertree;
diff --git a/goko/src/monomap/mod.rs b/goko/src/monomap/mod.rs
index 23acc51..5b1ca83 100644
--- a/goko/src/monomap/mod.rs
+++ b/goko/src/monomap/mod.rs
@@ -25,6 +25,9 @@
 //! concurrency with updates rather than memory efficency. Ideally if your type has any large vectors you'd partner
 //! this with a multimap to store the vector, and keep the complex logic on this structure.
 
+#[cfg(goko_verif)]
+use crate::verif_sync::sync::{atomic, Arc, Mutex};
+#[cfg(not(goko_verif))]
 use std::sync::{atomic, Arc, Mutex};
 
 mod inner;
diff --git a/goko/src/monomap/read.rs b/goko/src/monomap/read.rs
index 33c5fc5..73c0d93 100644
--- a/goko/src/monomap/read.rs
+++ b/goko/src/monomap/read.rs
@@ -8,9 +8,10 @@ use std::hash::{BuildHasher, Hash};
 use std::iter::{self, FromIterator};
 use std::marker::PhantomData;
 use std::mem;
-use std::sync::atomic;
-use std::sync::atomic::AtomicPtr;
-use std::sync::{self, Arc};
+#[cfg(goko_verif)]
+use crate::verif_sync::sync::{self, atomic, atomic::AtomicPtr, Arc};
+#[cfg(not(goko_verif))]
+use std::sync::{self, atomic, atomic::AtomicPtr, Arc};
 
 /// A handle that may be used to read from the eventually consistent map.
 ///
diff --git a/goko/src/monomap/write.rs b/goko/src/monomap/write.rs
index b67abac..8d2becf 100644
--- a/goko/src/monomap/write.rs
+++ b/goko/src/monomap/write.rs
@@ -4,9 +4,17 @@ use crate::monomap::read::MonoReadHandle;
 
 use fxhash::FxBuildHasher;
 use std::hash::{BuildHasher, Hash};
-use std::sync::atomic;
-use std::sync::{Arc, MutexGuard};
-use std::{mem, thread};
+use std::mem;
+#[cfg(goko_verif)]
+use crate::verif_sync::{
+    sync::{atomic, Arc, MutexGuard},
+    thread,
+};
+#[cfg(not(goko_verif))]
+use std::{
+    sync::{atomic, Arc, MutexGuard},
+    thread,
+};
 
 pub struct MonoWriteHandle<K, V, M = (), S = FxBuildHasher>
 where
diff --git a/goko/src/verif_sync.rs b/goko/src/verif_sync.rs
new file mode 100644
index 0000000..81288c9
--- /dev/null
+++ b/goko/src/verif_sync.rs
@@ -0,0 +1,170 @@
+//! Verification-only stand-ins for the synchronization primitives (compiled only with `--cfg goko_verif`).
+//!
+//! On a thread that has entered a [`Controller`] every shared-memory step first asks that controller, so a
+//! model checker can enumerate the interleavings of the real code. On any other thread the stand-ins behave
+//! like the primitives they wrap.
+#![allow(missing_docs)]
+
+use std::cell::Cell;
+
+/// Decides which thread takes the next step.
+pub trait Controller: Send + Sync {
+    /// The calling thread is about to take a shared-memory step.
+    fn point(&self);
+    /// The calling thread cannot make progress on its own for now.
+    fn yield_now(&self);
+    /// The calling thread must not continue before `ready` holds.
+    fn block_until(&self, ready: &dyn Fn() -> bool);
+    /// Start a new thread.
+    fn spawn(&self, f: Box<dyn FnOnce() + Send>);
+}
+
+thread_local! {
+    static CONTROLLER: Cell<Option<&'static dyn Controller>> = Cell::new(None);
+}
+
+/// Puts the calling thread under the control of `c`, or releases it.
+pub fn enter(c: Option<&'static dyn Controller>) {
+    CONTROLLER.with(|t| t.set(c))
+}
+
+/// The controller of the calling thread
+pub fn controller() -> Option<&'static dyn Controller> {
+    CONTROLLER.try_with(|t| t.get()).unwrap_or(None)
+}
+
+fn point() {
+    if let Some(c) = controller() {
+        c.point()
+    }
+}
+
+pub mod thread {
+    pub use std::thread::*;
+    pub fn yield_now() {
+        match super::controller() {
+            Some(c) => c.yield_now(),
+            None => std::thread::yield_now(),
+        }
+    }
+}
+
+pub mod sync {
+    pub use super::atomic;
+    pub use std::sync::*;
+
+    #[derive(Debug, Default)]
+    pub struct Mutex<T>(std::sync::Mutex<T>);
+    impl<T> Mutex<T> {
+        pub fn new(t: T) -> Self {
+            Mutex(std::sync::Mutex::new(t))
+        }
+        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+            if let Some(c) = super::controller() {
+                c.block_until(&|| !matches!(self.0.try_lock(), Err(TryLockError::WouldBlock)));
+            }
+            self.0.lock()
+        }
+    }
+}
+
+pub mod atomic {
+    use super::point;
+    pub use std::sync::atomic::*;
+
+    pub fn fence(o: Ordering) {
+        point();
+        std::sync::atomic::fence(o)
+    }
+
+    macro_rules! steps {
+        ($($f:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => {
+            $(#[inline] pub fn $f(&self, $($a: $t),*) -> $r { point(); self.0.$f($($a),*) })*
+        };
+    }
+
+    #[derive(Debug, Default)]
+    pub struct AtomicUsize(std::sync::atomic::AtomicUsize);
+    impl AtomicUsize {
+        pub const fn new(v: usize) -> Self {
+            AtomicUsize(std::sync::atomic::AtomicUsize::new(v))
+        }
+        steps! {
+            load(o: Ordering) -> usize;
+            store(v: usize, o: Ordering) -> ();
+            swap(v: usize, o: Ordering) -> usize;
+            fetch_add(v: usize, o: Ordering) -> usize;
+            fetch_sub(v: usize, o: Ordering) -> usize;
+            fetch_or(v: usize, o: Ordering) -> usize;
+            fetch_and(v: usize, o: Ordering) -> usize;
+            fetch_max(v: usize, o: Ordering) -> usize;
+            compare_exchange(a: usize, b: usize, o: Ordering, p: Ordering) -> Result<usize, usize>;
+        }
+    }
+
+    #[derive(Debug)]
+    pub struct AtomicPtr<T>(std::sync::atomic::AtomicPtr<T>);
+    impl<T> AtomicPtr<T> {
+        pub const fn new(v: *mut T) -> Self {
+            AtomicPtr(std::sync::atomic::AtomicPtr::new(v))
+        }
+        steps! {
+            load(o: Ordering) -> *mut T;
+            store(v: *mut T, o: Ordering) -> ();
+            swap(v: *mut T, o: Ordering) -> *mut T;
+            compare_exchange(a: *mut T, b: *mut T, o: Ordering, p: Ordering) -> Result<*mut T, *mut T>;
+        }
+    }
+}
+
+pub mod rayon {
+    pub use ::rayon::*;
+    pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
+        match super::controller() {
+            Some(c) => c.spawn(Box::new(f)),
+            None => ::rayon::spawn(f),
+        }
+    }
+}
+
+pub mod channel {
+    pub use crossbeam_channel::*;
+
+    #[derive(Debug, Clone)]
+    pub struct Sender<T>(crossbeam_channel::Sender<T>);
+    #[derive(Debug, Clone)]
+    pub struct Receiver<T>(crossbeam_channel::Receiver<T>);
+
+    pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
+        let (s, r) = crossbeam_channel::unbounded();
+        (Sender(s), Receiver(r))
+    }
+
+    impl<T> Sender<T> {
+        pub fn send(&self, t: T) -> Result<(), SendError<T>> {
+            super::point();
+            self.0.send(t)
+        }
+    }
+
+    impl<T> Receiver<T> {
+        pub fn recv(&self) -> Result<T, RecvError> {
+            if let Some(c) = super::controller() {
+                // A message that is never sent shows up as a deadlock, as a lone receiver would hang.
+                c.block_until(&|| !self.0.is_empty());
+            }
+            self.0.recv()
+        }
+        pub fn try_recv(&self) -> Result<T, TryRecvError> {
+            super::point();
+            self.0.try_recv()
+        }
+        pub fn len(&self) -> usize {
+            super::point();
+            self.0.len()
+        }
+        pub fn is_empty(&self) -> bool {
+            self.len() == 0
+        }
+    }
+}
-- 
2.43.0


From d7a2880c166cfa191f88158f94334ee5a0c39c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:41 +0000
Subject: [PATCH 02/62] fix: build no longer overflows when the data is tighter
 than min_res_index

---
 goko/src/covertree/builders.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/goko/src/covertree/builders.rs b/goko/src/covertree/builders.rs
index 2b61e8a..7550db2 100644
--- a/goko/src/covertree/builders.rs
+++ b/goko/src/covertree/builders.rs
@@ -67,7 +67,11 @@ impl BuilderNode {
                 CoveredData::FirstCoveredData(FirstCoveredData::new::<D>(&parameters.point_cloud)?)
             }
         };
-        let scale_index = (covered.max_distance()).log(parameters.scale_base).ceil() as i32;
+        // A data set tighter than the minimum resolution still has a root in the lowest regular layer.
+        let scale_index = max(
+            (covered.max_distance()).log(parameters.scale_base).ceil() as i32,
+            parameters.min_res_index,
+        );
         Ok(BuilderNode {
             parent_address: None,
             scale_index,
-- 
2.43.0


From dabc63066c87d9c2078e0d205c9d5fab44b56bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:02 +0000
Subject: [PATCH 03/62] fix: routing_knn keeps searching after the first leaf

---
 goko/src/covertree/tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goko/src/covertree/tree.rs b/goko/src/covertree/tree.rs
index dd7f6b9..4e61038 100644
--- a/goko/src/covertree/tree.rs
+++ b/goko/src/covertree/tree.rs
@@ -330,6 +330,7 @@ impl<D: PointCloud> CoverTreeReader<D> {
         while let Some((dist, nearest_address)) =
             query_heap.closest_unvisited_child_covering_address()
         {
+            did_something = true;
             if self
                 .get_node_and(nearest_address, |n| n.is_leaf())
                 .unwrap_or(true)
@@ -340,7 +341,6 @@ impl<D: PointCloud> CoverTreeReader<D> {
                     n.child_knn(Some(dist), point, &self.parameters.point_cloud, query_heap)
                 });
             }
-            did_something = true;
         }
         did_something
     }
-- 
2.43.0


From 8af2800b1cb68d0b5056503ccb22a7ea5b7c3cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:01 +0000
Subject: [PATCH 04/62] fix: a point access error fails the build instead of
 aborting the process

---
 goko/src/covertree/builders.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/goko/src/covertree/builders.rs b/goko/src/covertree/builders.rs
index 7550db2..af71809 100644
--- a/goko/src/covertree/builders.rs
+++ b/goko/src/covertree/builders.rs
@@ -95,12 +95,16 @@ impl BuilderNode {
             let (si, pi) = self.address();
             match self.split(&parameters) {
                 Ok((new_node, mut new_nodes)) => {
-                    node_sender.send(Ok((si, pi, new_node))).unwrap();
-                    while let Some(node) = new_nodes.pop() {
-                        node.split_parallel(&parameters, &node_sender);
+                    // The receiver is gone once the build has failed, there's no more work to do then.
+                    if node_sender.send(Ok((si, pi, new_node))).is_ok() {
+                        while let Some(node) = new_nodes.pop() {
+                            node.split_parallel(&parameters, &node_sender);
+                        }
                     }
                 }
-                Err(e) => node_sender.send(Err(e)).unwrap(),
+                Err(e) => {
+                    let _ = node_sender.send(Err(e));
+                }
             };
         });
     }
@@ -443,7 +447,7 @@ impl CoverTreeBuilder {
         let now = Instant::now();
         loop {
             if let Ok(res) = node_receiver.recv() {
-                let (scale_index, point_index, new_node) = res.unwrap();
+                let (scale_index, point_index, new_node) = res?;
                 for singleton in new_node.singletons() {
                     cover_tree
                         .final_addresses
-- 
2.43.0


From e5bb86c072310ae2c077c188890fef04810b470b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:01 +0000
Subject: [PATCH 05/62] fix: knn and routing_knn report point access errors
 instead of dropping them

---
 goko/src/covertree/tree.rs | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/goko/src/covertree/tree.rs b/goko/src/covertree/tree.rs
index 4e61038..bec82d6 100644
--- a/goko/src/covertree/tree.rs
+++ b/goko/src/covertree/tree.rs
@@ -291,14 +291,19 @@ impl<D: PointCloud> CoverTreeReader<D> {
         let root_center = self.parameters.point_cloud.point(self.root_address.1)?;
         let dist_to_root = D::Metric::dist(&root_center, &point);
         query_heap.push_nodes(&[self.root_address], &[dist_to_root], None);
-        self.greedy_knn_nodes(point, &mut query_heap);
+        if let (_, Some(e)) = self.greedy_knn_nodes(point, &mut query_heap) {
+            return Err(e);
+        }
 
         while let Some((_dist, address)) = query_heap.closest_unvisited_singleton_covering_address()
         {
             self.get_node_and(address, |n| {
                 n.singleton_knn(point, &self.parameters.point_cloud, &mut query_heap)
-            });
-            self.greedy_knn_nodes(point, &mut query_heap);
+            })
+            .unwrap_or(Ok(()))?;
+            if let (_, Some(e)) = self.greedy_knn_nodes(point, &mut query_heap) {
+                return Err(e);
+            }
         }
 
         Ok(query_heap.unpack())
@@ -315,17 +320,21 @@ impl<D: PointCloud> CoverTreeReader<D> {
         let root_center = self.parameters.point_cloud.point(self.root_address.1)?;
         let dist_to_root = D::Metric::dist(&root_center, &point);
         query_heap.push_nodes(&[self.root_address], &[dist_to_root], None);
-        self.greedy_knn_nodes(point, &mut query_heap);
-
-        while self.greedy_knn_nodes(point, &mut query_heap) {}
-        Ok(query_heap.unpack())
+        loop {
+            match self.greedy_knn_nodes(point, &mut query_heap) {
+                (_, Some(e)) => return Err(e),
+                (true, None) => {}
+                (false, None) => return Ok(query_heap.unpack()),
+            }
+        }
     }
 
+    /// Returns whether there was a node to visit, and the error that stopped the visit if there was one.
     fn greedy_knn_nodes<P: Deref<Target = D::Point> + Send + Sync>(
         &self,
         point: &P,
         query_heap: &mut KnnQueryHeap,
-    ) -> bool {
+    ) -> (bool, Option<GokoError>) {
         let mut did_something = false;
         while let Some((dist, nearest_address)) =
             query_heap.closest_unvisited_child_covering_address()
@@ -336,13 +345,13 @@ impl<D: PointCloud> CoverTreeReader<D> {
                 .unwrap_or(true)
             {
                 break;
-            } else {
-                self.get_node_and(nearest_address, |n| {
-                    n.child_knn(Some(dist), point, &self.parameters.point_cloud, query_heap)
-                });
+            } else if let Some(Err(e)) = self.get_node_and(nearest_address, |n| {
+                n.child_knn(Some(dist), point, &self.parameters.point_cloud, query_heap)
+            }) {
+                return (did_something, Some(e));
             }
         }
-        did_something
+        (did_something, None)
     }
 
     /// # Dry Insert Query
-- 
2.43.0


From 27f90eecbb99c2ea0be323c390b4f7f943bfd118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:01 +0000
Subject: [PATCH 06/62] fix: known_path returns point access errors instead of
 panicking

---
 goko/src/covertree/tree.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/goko/src/covertree/tree.rs b/goko/src/covertree/tree.rs
index bec82d6..0ca9e53 100644
--- a/goko/src/covertree/tree.rs
+++ b/goko/src/covertree/tree.rs
@@ -405,11 +405,10 @@ impl<D: PointCloud> CoverTreeReader<D> {
                 let dists = self
                     .parameters
                     .point_cloud
-                    .distances_to_point_index(point_index, &point_indexes[..])
-                    .unwrap();
-                dists.iter().zip(path).map(|(d, a)| (*d, a)).collect()
+                    .distances_to_point_index(point_index, &point_indexes[..])?;
+                Ok(dists.iter().zip(path).map(|(d, a)| (*d, a)).collect())
             })
-            .ok_or(GokoError::IndexNotInTree(point_index))
+            .unwrap_or(Err(GokoError::IndexNotInTree(point_index)))
     }
 
     ///Computes the fractal dimension of a node
-- 
2.43.0


From 40cabbfaa20976d37eba7fda237d7db19437f895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:00 +0000
Subject: [PATCH 07/62] verif: guarded channel stand-in knows about
 disconnection

---
 goko/src/verif_sync.rs | 99 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 91 insertions(+), 8 deletions(-)

diff --git a/goko/src/verif_sync.rs b/goko/src/verif_sync.rs
index 81288c9..e2e0787 100644
--- a/goko/src/verif_sync.rs
+++ b/goko/src/verif_sync.rs
@@ -65,6 +65,16 @@ pub mod sync {
             }
             self.0.lock()
         }
+        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
+            super::point();
+            self.0.try_lock()
+        }
+        pub fn get_mut(&mut self) -> LockResult<&mut T> {
+            self.0.get_mut()
+        }
+        pub fn into_inner(self) -> LockResult<T> {
+            self.0.into_inner()
+        }
     }
 }
 
@@ -98,10 +108,18 @@ pub mod atomic {
             fetch_or(v: usize, o: Ordering) -> usize;
             fetch_and(v: usize, o: Ordering) -> usize;
             fetch_max(v: usize, o: Ordering) -> usize;
+            fetch_min(v: usize, o: Ordering) -> usize;
+            fetch_xor(v: usize, o: Ordering) -> usize;
             compare_exchange(a: usize, b: usize, o: Ordering, p: Ordering) -> Result<usize, usize>;
+            compare_exchange_weak(a: usize, b: usize, o: Ordering, p: Ordering) -> Result<usize, usize>;
         }
     }
 
+    /// Spinning makes progress only when another thread runs.
+    pub fn spin_loop_hint() {
+        super::thread::yield_now()
+    }
+
     #[derive(Debug)]
     pub struct AtomicPtr<T>(std::sync::atomic::AtomicPtr<T>);
     impl<T> AtomicPtr<T> {
@@ -114,6 +132,9 @@ pub mod atomic {
             swap(v: *mut T, o: Ordering) -> *mut T;
             compare_exchange(a: *mut T, b: *mut T, o: Ordering, p: Ordering) -> Result<*mut T, *mut T>;
         }
+        pub fn get_mut(&mut self) -> &mut *mut T {
+            self.0.get_mut()
+        }
     }
 }
 
@@ -129,15 +150,35 @@ pub mod rayon {
 
 pub mod channel {
     pub use crossbeam_channel::*;
+    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
+    use std::sync::Arc;
+    use std::time::Duration;
 
+    #[derive(Debug)]
+    pub struct Sender<T>(crossbeam_channel::Sender<T>, Arc<AtomicUsize>);
     #[derive(Debug, Clone)]
-    pub struct Sender<T>(crossbeam_channel::Sender<T>);
-    #[derive(Debug, Clone)]
-    pub struct Receiver<T>(crossbeam_channel::Receiver<T>);
+    pub struct Receiver<T>(crossbeam_channel::Receiver<T>, Arc<AtomicUsize>);
 
+    fn pair<T>(
+        (s, r): (crossbeam_channel::Sender<T>, crossbeam_channel::Receiver<T>),
+    ) -> (Sender<T>, Receiver<T>) {
+        let n = Arc::new(AtomicUsize::new(1));
+        (Sender(s, Arc::clone(&n)), Receiver(r, n))
+    }
     pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
-        let (s, r) = crossbeam_channel::unbounded();
-        (Sender(s), Receiver(r))
+        pair(crossbeam_channel::unbounded())
+    }
+
+    impl<T> Clone for Sender<T> {
+        fn clone(&self) -> Self {
+            self.1.fetch_add(1, SeqCst);
+            Sender(self.0.clone(), Arc::clone(&self.1))
+        }
+    }
+    impl<T> Drop for Sender<T> {
+        fn drop(&mut self) {
+            self.1.fetch_sub(1, SeqCst);
+        }
     }
 
     impl<T> Sender<T> {
@@ -145,20 +186,54 @@ pub mod channel {
             super::point();
             self.0.send(t)
         }
+        pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
+            super::point();
+            self.0.try_send(t)
+        }
+        pub fn len(&self) -> usize {
+            super::point();
+            self.0.len()
+        }
+        pub fn is_empty(&self) -> bool {
+            self.len() == 0
+        }
     }
 
     impl<T> Receiver<T> {
-        pub fn recv(&self) -> Result<T, RecvError> {
+        fn wait(&self) {
             if let Some(c) = super::controller() {
                 // A message that is never sent shows up as a deadlock, as a lone receiver would hang.
-                c.block_until(&|| !self.0.is_empty());
+                c.block_until(&|| !self.0.is_empty() || self.1.load(SeqCst) == 0);
             }
+        }
+        pub fn recv(&self) -> Result<T, RecvError> {
+            self.wait();
             self.0.recv()
         }
+        pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
+            if let Some(c) = super::controller() {
+                c.yield_now();
+                return match self.0.try_recv() {
+                    Ok(t) => Ok(t),
+                    Err(TryRecvError::Empty) => Err(RecvTimeoutError::Timeout),
+                    Err(TryRecvError::Disconnected) => Err(RecvTimeoutError::Disconnected),
+                };
+            }
+            self.0.recv_timeout(d)
+        }
         pub fn try_recv(&self) -> Result<T, TryRecvError> {
-            super::point();
+            if let Some(c) = super::controller() {
+                // polled in a loop as a rule
+                c.yield_now();
+            }
             self.0.try_recv()
         }
+        pub fn iter(&self) -> impl Iterator<Item = T> + '_ {
+            std::iter::from_fn(move || self.recv().ok())
+        }
+        pub fn try_iter(&self) -> impl Iterator<Item = T> + '_ {
+            std::iter::from_fn(move || self.try_recv().ok())
+        }
         pub fn len(&self) -> usize {
             super::point();
             self.0.len()
@@ -167,4 +242,12 @@ pub mod channel {
             self.len() == 0
         }
     }
+
+    impl<'a, T> IntoIterator for &'a Receiver<T> {
+        type Item = T;
+        type IntoIter = Box<dyn Iterator<Item = T> + 'a>;
+        fn into_iter(self) -> Self::IntoIter {
+            Box::new(std::iter::from_fn(move || self.recv().ok()))
+        }
+    }
 }
-- 
2.43.0


From fa7b96d9f2e3ccb2a8f078baf1abdc2e8a07699e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:24 +0000
Subject: [PATCH 08/62] fix: dropping the map writer waits for the readers
 still using the map

---
 goko/src/monomap/write.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/goko/src/monomap/write.rs b/goko/src/monomap/write.rs
index 8d2becf..6e0397f 100644
--- a/goko/src/monomap/write.rs
+++ b/goko/src/monomap/write.rs
@@ -85,14 +85,18 @@ where
             .inner
             .swap(ptr::null_mut(), atomic::Ordering::Release);
 
-        // now, wait for all readers to depart
+        // ensure that the subsequent epoch reads aren't re-ordered to before the swap
+        atomic::fence(atomic::Ordering::SeqCst);
+
+        // now, wait for all readers that were active when the pointer was set to NULL to depart
         let epochs = Arc::clone(&self.epochs);
         let mut epochs = epochs.lock().unwrap();
+        self.last_epochs.resize(epochs.len(), 0);
+        for (i, epoch) in epochs.iter().enumerate() {
+            self.last_epochs[i] = epoch.load(atomic::Ordering::Acquire);
+        }
         self.wait(&mut epochs);
 
-        // ensure that the subsequent epoch reads aren't re-ordered to before the swap
-        atomic::fence(atomic::Ordering::SeqCst);
-
         let w_handle = &mut self.w_handle.as_mut().unwrap().data;
 
         #[cfg(not(feature = "indexed"))]
-- 
2.43.0


From 0affe6ee8acfbb0ef3a971d83a7682e83208a717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:35 +0000
Subject: [PATCH 09/62] fix: a nested read no longer ends the protection of the
 read around it

---
 goko/src/monomap/read.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/goko/src/monomap/read.rs b/goko/src/monomap/read.rs
index 73c0d93..4892d05 100644
--- a/goko/src/monomap/read.rs
+++ b/goko/src/monomap/read.rs
@@ -27,6 +27,8 @@ where
     pub(crate) epochs: crate::monomap::Epochs,
     epoch: sync::Arc<sync::atomic::AtomicUsize>,
     my_epoch: sync::atomic::AtomicUsize,
+    // How many reads are ongoing (nested) on this handle.
+    enters: cell::Cell<usize>,
 
     // Since a `MonoReadHandle` keeps track of its own epoch, it is not safe for multiple threads to
     // call `with_handle` at the same time. We *could* keep it `Sync` and make `with_handle`
@@ -118,6 +120,7 @@ where
             epochs,
             epoch,
             my_epoch: atomic::AtomicUsize::new(0),
+            enters: cell::Cell::new(0),
             inner,
             _not_sync_no_feature: PhantomData,
         }
@@ -170,6 +173,22 @@ where
         //
         // in all cases, using a pointer we read *after* updating our epoch is safe.
 
+        // if we are inside of another read on this handle our epoch already protects us. we must leave
+        // it alone, otherwise the writer thinks that the outer read has finished.
+        let enters = self.enters.get();
+        struct RestoreEnters<'a>(&'a cell::Cell<usize>, usize);
+        impl<'a> Drop for RestoreEnters<'a> {
+            fn drop(&mut self) {
+                self.0.set(self.1);
+            }
+        }
+        self.enters.set(enters + 1);
+        let _enters = RestoreEnters(&self.enters, enters);
+        if enters != 0 {
+            let r_handle = self.inner.load(atomic::Ordering::Acquire);
+            return unsafe { r_handle.as_ref().map(f) };
+        }
+
         // so, update our epoch tracker.
         let epoch = self.my_epoch.fetch_add(1, atomic::Ordering::Relaxed);
         self.epoch.store(epoch + 1, atomic::Ordering::Release);
-- 
2.43.0


From 7cb72dc4573b6188e962d40f3fe1e1868b865092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:59 +0000
Subject: [PATCH 10/62] fix: flush publishes the writes made before the first
 refresh

---
 goko/src/monomap/write.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/goko/src/monomap/write.rs b/goko/src/monomap/write.rs
index 6e0397f..1e9ad00 100644
--- a/goko/src/monomap/write.rs
+++ b/goko/src/monomap/write.rs
@@ -276,7 +276,8 @@ where
     /// `MonoWriteHandle::refresh` will *always* wait for old readers to depart and swap the maps.
     /// This method will only do so if there are pending operations.
     pub fn flush(&mut self) -> &mut Self {
-        if !self.pending().is_empty() {
+        // before the first refresh writes bypass the log, so they never show up as pending
+        if self.first || !self.pending().is_empty() {
             self.refresh();
         }
 
-- 
2.43.0


From 6743f87b75eb8e3cb59bb0ed93662cf8a3a6e240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:30 +0000
Subject: [PATCH 11/62] fix: bulk queries accept an empty batch

---
 goko/src/query_interface/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/goko/src/query_interface/mod.rs b/goko/src/query_interface/mod.rs
index af6cd66..0cbd424 100644
--- a/goko/src/query_interface/mod.rs
+++ b/goko/src/query_interface/mod.rs
@@ -35,7 +35,7 @@ impl<D: PointCloud> BulkInterface<D> {
                 a.extend(x.drain(..));
                 a
             })
-            .unwrap()
+            .unwrap_or_default()
     }
 
     /// Applies the passed in fn to the passed in indexes and collects the result in a vector. Core function for this struct.
@@ -60,7 +60,7 @@ impl<D: PointCloud> BulkInterface<D> {
                 a.extend(x.drain(..));
                 a
             })
-            .unwrap()
+            .unwrap_or_default()
     }
 
     /// Bulk known path
@@ -130,7 +130,7 @@ impl<D: PointCloud<Point = [f32]>> BulkInterface<D> {
                 a.extend(x.drain(..));
                 a
             })
-            .unwrap()
+            .unwrap_or_default()
     }
 }
 
-- 
2.43.0


From 2c407469bdcc5e96133fa8528befa3cc2fbea096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:30 +0000
Subject: [PATCH 12/62] fix: bulk array queries accept any memory layout

---
 goko/src/query_interface/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/goko/src/query_interface/mod.rs b/goko/src/query_interface/mod.rs
index 0cbd424..8e50fa7 100644
--- a/goko/src/query_interface/mod.rs
+++ b/goko/src/query_interface/mod.rs
@@ -120,7 +120,14 @@ impl<D: PointCloud<Point = [f32]>> BulkInterface<D> {
             .map(|(chunk_points, reader)| {
                 chunk_points
                     .iter()
-                    .map(|i| f(&reader, &points.row(*i).as_slice().unwrap()))
+                    .map(|i| {
+                        let row = points.row(*i);
+                        match row.as_slice() {
+                            Some(p) => f(&reader, &p),
+                            // the coordinates of a row need not be next to each other
+                            None => f(&reader, &&row.to_vec()[..]),
+                        }
+                    })
                     .collect()
             })
             .collect();
-- 
2.43.0


From 85f249804699f56caac106db023a755c2eee2610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:58 +0000
Subject: [PATCH 13/62] fix: loading a missing or unreadable tree file is an
 error, not a panic

---
 goko/src/utils.rs | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/goko/src/utils.rs b/goko/src/utils.rs
index b82daa5..1f51d4b 100644
--- a/goko/src/utils.rs
+++ b/goko/src/utils.rs
@@ -123,21 +123,11 @@ pub fn load_tree<P: AsRef<Path>, D: PointCloud>(
     let tree_path_ref: &Path = tree_path.as_ref();
     println!("\nLoading tree from : {}", tree_path_ref.to_string_lossy());
 
-    if !tree_path_ref.exists() {
-        let tree_path_str = match tree_path_ref.to_str() {
-            Some(expr) => expr,
-            None => panic!("Unicode error with the tree path"),
-        };
-        panic!("{} does not exist\n", tree_path_str);
-    }
-
     let mut cover_proto = CoreProto::new();
 
     let mut file = File::open(&tree_path_ref).map_err(GokoError::from)?;
     let mut cis = CodedInputStream::new(&mut file);
-    if let Err(e) = cover_proto.merge_from(&mut cis) {
-        panic!("Proto buff was unable to read {:#?}", e)
-    }
+    cover_proto.merge_from(&mut cis).map_err(GokoError::from)?;
 
     CoverTreeWriter::load(&cover_proto, point_cloud)
 }
-- 
2.43.0


From 7ebb0dbe7703a1b3979a2b73566995ddd18a6fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:58 +0000
Subject: [PATCH 14/62] fix: loading an incomplete tree is an error, not a
 panic

---
 goko/src/covertree/tree.rs | 42 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/goko/src/covertree/tree.rs b/goko/src/covertree/tree.rs
index 0ca9e53..eb8ad76 100644
--- a/goko/src/covertree/tree.rs
+++ b/goko/src/covertree/tree.rs
@@ -636,11 +636,53 @@ impl<D: PointCloud> CoverTreeWriter<D> {
             final_addresses,
         };
 
+        tree.check_links()?;
         tree.refresh_final_indexes();
 
         Ok(tree)
     }
 
+    /// Checks that the layers reach from the minimum resolution to the root, and that the references between the
+    /// nodes below the root form a tree.
+    fn check_links(&self) -> GokoResult<()> {
+        let invalid = |message: String| {
+            GokoError::from(std::io::Error::new(
+                std::io::ErrorKind::InvalidData,
+                message,
+            ))
+        };
+        let layer_count = i64::from(self.root_address.0)
+            - i64::from(self.parameters.min_res_index)
+            + 2;
+        if layer_count != self.layers.len() as i64 {
+            return Err(invalid(format!(
+                "the tree has {} layers instead of {}",
+                self.layers.len(),
+                layer_count
+            )));
+        }
+        let reader = self.reader();
+        let mut visited = std::collections::HashSet::new();
+        let mut unvisited: Vec<NodeAddress> = vec![self.root_address];
+        while let Some(address) = unvisited.pop() {
+            let children = reader.get_node_and(address, |n| {
+                n.children().map(|(nested_scale, others)| {
+                    let mut children = vec![(nested_scale, address.1)];
+                    children.extend(others);
+                    children
+                })
+            });
+            let children = children
+                .ok_or_else(|| invalid(format!("the tree has no node {:?}", address)))?
+                .unwrap_or_default();
+            if !visited.insert(address) || children.iter().any(|c| c.0 >= address.0) {
+                return Err(invalid(format!("the links of {:?} form no tree", address)));
+            }
+            unvisited.extend(children);
+        }
+        Ok(())
+    }
+
     /// Completely redoes the final index map.
     pub fn refresh_final_indexes(&mut self) {
         let reader = self.reader();
-- 
2.43.0


From 65c0100d1df4b842403ce0eceb2e0696714f2b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:08 +0000
Subject: [PATCH 15/62] fix: a failed save no longer loses the tree that was
 saved before

---
 goko/src/utils.rs | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/goko/src/utils.rs b/goko/src/utils.rs
index 1f51d4b..73ea039 100644
--- a/goko/src/utils.rs
+++ b/goko/src/utils.rs
@@ -23,7 +23,7 @@ use crate::errors::{GokoError, GokoResult};
 use crate::tree_file_format::*;
 use protobuf::{CodedInputStream, CodedOutputStream, Message};
 use std::fs::File;
-use std::fs::{read_to_string, remove_file, OpenOptions};
+use std::fs::{read_to_string, remove_file, rename, OpenOptions};
 use std::path::Path;
 use std::sync::Arc;
 use yaml_rust::YamlLoader;
@@ -140,26 +140,30 @@ pub fn save_tree<P: AsRef<Path>, D: PointCloud>(
     let tree_path_ref: &Path = tree_path.as_ref();
 
     println!("Saving tree to : {}", tree_path_ref.to_string_lossy());
-    if tree_path_ref.exists() {
-        let tree_path_str = match tree_path_ref.to_str() {
-            Some(expr) => expr,
-            None => panic!("Unicode error with the tree path"),
-        };
-        println!("\t \t {:?} exists, removing", tree_path_str);
-        remove_file(&tree_path).map_err(GokoError::from)?;
-    }
-
     let cover_proto = cover_tree.save();
 
+    // Write the new tree next to the old one, and only replace the old one once the new one is complete.
+    let mut tmp_name = tree_path_ref.file_name().unwrap_or_default().to_os_string();
+    tmp_name.push(".tmp");
+    let tmp_path = tree_path_ref.with_file_name(tmp_name);
+    let saved = write_proto(&tmp_path, &cover_proto)
+        .and_then(|_| rename(&tmp_path, tree_path_ref).map_err(GokoError::from));
+    if saved.is_err() {
+        let _ = remove_file(&tmp_path);
+    }
+    saved
+}
+
+fn write_proto(path: &Path, cover_proto: &CoreProto) -> GokoResult<()> {
     let mut core_file = OpenOptions::new()
-        .read(true)
         .write(true)
         .create(true)
-        .open(&tree_path)
-        .unwrap();
+        .truncate(true)
+        .open(path)
+        .map_err(GokoError::from)?;
 
     let mut cos = CodedOutputStream::new(&mut core_file);
     cover_proto.write_to(&mut cos).map_err(GokoError::from)?;
     cos.flush().map_err(GokoError::from)?;
-    Ok(())
+    core_file.sync_all().map_err(GokoError::from)
 }
-- 
2.43.0


From 19a85bb97eff90f2455c4d0ddcd37da097c05e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:28 +0000
Subject: [PATCH 16/62] fix: loading a truncated tree file is an error, not
 another tree

---
 goko/src/utils.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/goko/src/utils.rs b/goko/src/utils.rs
index 73ea039..8cbe3fd 100644
--- a/goko/src/utils.rs
+++ b/goko/src/utils.rs
@@ -126,7 +126,10 @@ pub fn load_tree<P: AsRef<Path>, D: PointCloud>(
     let mut cover_proto = CoreProto::new();
 
     let mut file = File::open(&tree_path_ref).map_err(GokoError::from)?;
+    let file_len = file.metadata().map_err(GokoError::from)?.len();
     let mut cis = CodedInputStream::new(&mut file);
+    // Without a limit a message that the end of the file cuts off is accepted as complete.
+    cis.push_limit(file_len).map_err(GokoError::from)?;
     cover_proto.merge_from(&mut cis).map_err(GokoError::from)?;
 
     CoverTreeWriter::load(&cover_proto, point_cloud)
-- 
2.43.0


From 444860e40764306623c0e48773b403cc8778bb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:24 +0000
Subject: [PATCH 17/62] fix: removing a point from a diagonal gaussian lowers
 its count

---
 goko/src/plugins/gaussians/diag_gaussian.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goko/src/plugins/gaussians/diag_gaussian.rs b/goko/src/plugins/gaussians/diag_gaussian.rs
index e7ef561..c6fa7ba 100644
--- a/goko/src/plugins/gaussians/diag_gaussian.rs
+++ b/goko/src/plugins/gaussians/diag_gaussian.rs
@@ -134,7 +134,7 @@ impl DiagGaussian {
                 .iter_mut()
                 .zip(point.dense_iter())
                 .for_each(|(m, p)| *m -= p * p);
-            self.count += 1;
+            self.count -= 1;
         }
     }
 
-- 
2.43.0


From 7d359f6b28a45c72e86c6ebde96759af32ad9442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:24 +0000
Subject: [PATCH 18/62] fix: a vector summary counts its first label

---
 pointcloud/src/summaries/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pointcloud/src/summaries/mod.rs b/pointcloud/src/summaries/mod.rs
index 0f6c110..f9e282d 100644
--- a/pointcloud/src/summaries/mod.rs
+++ b/pointcloud/src/summaries/mod.rs
@@ -94,7 +94,8 @@ impl Summary for VecSummary {
             }
         } else {
             self.moment1.extend(val);
-            self.moment2.extend(val.iter().map(|x| x * x))
+            self.moment2.extend(val.iter().map(|x| x * x));
+            self.count += 1;
         }
     }
     fn combine(&mut self, other: &VecSummary) {
-- 
2.43.0


From a6bd21462457c79a7ad6f19b5c5eb942fbfd8a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:24 +0000
Subject: [PATCH 19/62] fix: combining into an empty vector summary keeps the
 other's moments

---
 pointcloud/src/summaries/mod.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pointcloud/src/summaries/mod.rs b/pointcloud/src/summaries/mod.rs
index f9e282d..2341ed6 100644
--- a/pointcloud/src/summaries/mod.rs
+++ b/pointcloud/src/summaries/mod.rs
@@ -99,14 +99,19 @@ impl Summary for VecSummary {
         }
     }
     fn combine(&mut self, other: &VecSummary) {
-        self.moment1
-            .iter_mut()
-            .zip(&other.moment1)
-            .for_each(|(x, y)| *x += y);
-        self.moment2
-            .iter_mut()
-            .zip(&other.moment2)
-            .for_each(|(x, y)| *x += y);
+        if self.moment1.is_empty() {
+            self.moment1.extend(&other.moment1);
+            self.moment2.extend(&other.moment2);
+        } else {
+            self.moment1
+                .iter_mut()
+                .zip(&other.moment1)
+                .for_each(|(x, y)| *x += y);
+            self.moment2
+                .iter_mut()
+                .zip(&other.moment2)
+                .for_each(|(x, y)| *x += y);
+        }
         self.count += other.count;
     }
 
-- 
2.43.0


From bb6bc93e32d1fe1f909de144311f1f9a9ff5bda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:48 +0000
Subject: [PATCH 20/62] fix: categorical divergence handles different supports
 instead of panicking

---
 goko/src/plugins/discrete/categorical.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/goko/src/plugins/discrete/categorical.rs b/goko/src/plugins/discrete/categorical.rs
index 6761d0f..cf5321b 100644
--- a/goko/src/plugins/discrete/categorical.rs
+++ b/goko/src/plugins/discrete/categorical.rs
@@ -134,14 +134,19 @@ impl Categorical {
         } else {
             let ln_total = my_total.ln() - other_total.ln();
             let mut sum: f64 = 0.0;
-            if self.singleton_count > 0.0 && other.singleton_count > 0.0 {
+            if self.singleton_count > 0.0 {
+                if other.singleton_count <= 0.0 {
+                    return None;
+                }
                 sum += (self.singleton_count / my_total)
                     * (self.singleton_count.ln() - other.singleton_count.ln() - ln_total);
             }
-            for ((ca, ca_count), (other_ca, other_ca_count)) in
-                self.child_counts.iter().zip(other.child_counts.iter())
-            {
-                assert_eq!(ca, other_ca);
+            for (ca, ca_count) in self.child_counts.iter().filter(|(_, c)| *c > 0.0) {
+                let other_ca_count = match other.child_counts.binary_search_by_key(ca, |&(a, _)| a)
+                {
+                    Ok(ind) if other.child_counts[ind].1 > 0.0 => other.child_counts[ind].1,
+                    _ => return None,
+                };
                 sum += (ca_count / my_total) * (ca_count.ln() - other_ca_count.ln() - ln_total);
             }
             Some(sum)
-- 
2.43.0


From ffb234f714da07674edb3f36f61eddcc39d7bd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:48 +0000
Subject: [PATCH 21/62] fix: Dirichlet divergence handles different supports
 instead of panicking

---
 goko/src/plugins/discrete/dirichlet.rs | 27 +++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/goko/src/plugins/discrete/dirichlet.rs b/goko/src/plugins/discrete/dirichlet.rs
index 73e72be..2bc4caf 100644
--- a/goko/src/plugins/discrete/dirichlet.rs
+++ b/goko/src/plugins/discrete/dirichlet.rs
@@ -197,8 +197,28 @@ impl Dirichlet {
     }
 
     /// from <http://bariskurt.com/kullback-leibler-divergence-between-two-dirichlet-and-beta-distributions/>
-    /// We assume that the Dirichlet distribution passed into this one is conditioned on this one! It assumes they have the same keys!
+    /// We assume that the Dirichlet distribution passed into this one is conditioned on this one!
+    /// Returns None if the two do not have the same support.
     pub fn kl_divergence(&self, other: &Dirichlet) -> Option<f64> {
+        let support = |d: &Dirichlet| -> Vec<(NodeAddress, f64)> {
+            d.child_counts
+                .iter()
+                .filter(|(_, c)| *c > 0.0)
+                .cloned()
+                .collect()
+        };
+        let my_counts = support(self);
+        let other_counts = support(other);
+        let same_keys = my_counts.len() == other_counts.len()
+            && my_counts
+                .iter()
+                .zip(other_counts.iter())
+                .all(|((ca, _), (other_ca, _))| ca == other_ca);
+        let same_singletons = (self.singleton_count > 0.0) == (other.singleton_count > 0.0);
+        if !same_keys || !same_singletons {
+            return None;
+        }
+
         let my_total = self.total();
         let mut other_total = other.singleton_count;
         let mut my_total_lng = 0.0;
@@ -210,10 +230,7 @@ impl Dirichlet {
             digamma_portion += (self.singleton_count - other.singleton_count)
                 * (digamma(self.singleton_count) - digamma(my_total));
         }
-        for ((ca, ca_count), (other_ca, other_ca_count)) in
-            self.child_counts.iter().zip(other.child_counts.iter())
-        {
-            assert_eq!(ca, other_ca);
+        for ((_, ca_count), (_, other_ca_count)) in my_counts.iter().zip(other_counts.iter()) {
             other_total += *other_ca_count;
             my_total_lng += ln_gamma(*ca_count);
             other_total_lng += ln_gamma(*other_ca_count);
-- 
2.43.0


From adca0b843e481ad1a7d49426243a2454065e6391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:48 +0000
Subject: [PATCH 22/62] fix: log probability vector exists whenever the
 Dirichlet is not empty

---
 goko/src/plugins/discrete/dirichlet.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/goko/src/plugins/discrete/dirichlet.rs b/goko/src/plugins/discrete/dirichlet.rs
index 2bc4caf..f54f1c0 100644
--- a/goko/src/plugins/discrete/dirichlet.rs
+++ b/goko/src/plugins/discrete/dirichlet.rs
@@ -69,8 +69,9 @@ impl Dirichlet {
 
     /// Gives the probability vector for this
     pub fn ln_prob_vector(&self) -> Option<(Vec<(NodeAddress, f64)>, f64)> {
-        let total_ln = self.total().ln();
-        if total_ln > 1.0 {
+        let total = self.total();
+        if total > 0.0 {
+            let total_ln = total.ln();
             let v: Vec<(NodeAddress, f64)> = self
                 .child_counts
                 .iter()
-- 
2.43.0


From 438e2d8613643c13b0fbd7a9225f7cac9913b86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:48 +0000
Subject: [PATCH 23/62] fix: log probability of an empty Dirichlet is None, not
 NaN

---
 goko/src/plugins/discrete/dirichlet.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/goko/src/plugins/discrete/dirichlet.rs b/goko/src/plugins/discrete/dirichlet.rs
index f54f1c0..bed42fc 100644
--- a/goko/src/plugins/discrete/dirichlet.rs
+++ b/goko/src/plugins/discrete/dirichlet.rs
@@ -178,7 +178,12 @@ impl Dirichlet {
                 .unwrap_or(0.0),
             None => self.singleton_count,
         };
-        Some(ax.ln() - self.total().ln())
+        let total = self.total();
+        if total > 0.0 {
+            Some(ax.ln() - total.ln())
+        } else {
+            None
+        }
     }
 
     /// Samples from the expected PDF of the Dirichlet distribution
-- 
2.43.0


From 28167d27981cb20ea40287284eb8e0d590a74420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:48 +0000
Subject: [PATCH 24/62] fix: Dirichlet sampling keeps fractional parameters

---
 goko/src/plugins/discrete/dirichlet.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/goko/src/plugins/discrete/dirichlet.rs b/goko/src/plugins/discrete/dirichlet.rs
index bed42fc..13d7a21 100644
--- a/goko/src/plugins/discrete/dirichlet.rs
+++ b/goko/src/plugins/discrete/dirichlet.rs
@@ -188,9 +188,8 @@ impl Dirichlet {
 
     /// Samples from the expected PDF of the Dirichlet distribution
     pub fn sample<R: Rng>(&self, rng: &mut R) -> Option<NodeAddress> {
-        let sum = self.total() as usize;
-        let uniform = Uniform::from(0..sum);
-        let sample = uniform.sample(rng) as f64;
+        let uniform = Uniform::from(0.0..self.total());
+        let sample = uniform.sample(rng);
 
         let mut count = 0.0;
         for (a, c) in &self.child_counts {
-- 
2.43.0


From c0ffe8898900b54b5937322190bfe4626d8d474d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:48 +0000
Subject: [PATCH 25/62] fix: log density of a diagonal gaussian

---
 goko/src/plugins/gaussians/diag_gaussian.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/goko/src/plugins/gaussians/diag_gaussian.rs b/goko/src/plugins/gaussians/diag_gaussian.rs
index c6fa7ba..66f8da0 100644
--- a/goko/src/plugins/gaussians/diag_gaussian.rs
+++ b/goko/src/plugins/gaussians/diag_gaussian.rs
@@ -45,13 +45,13 @@ impl ContinousDistribution for DiagGaussian {
             self.count
         ));
 
-        let (exponent, det) = point
+        let (exponent, ln_det) = point
             .dense_iter()
             .zip(mean_vars)
-            .map(|(xi, (ui, vi))| ((xi - ui) * (xi - ui) / vi, vi))
-            .fold((0.0, 1.0), |(a, v), (x, u)| (a + x, v * u));
+            .map(|(xi, (ui, vi))| ((xi - ui) * (xi - ui) / vi, vi.ln()))
+            .fold((0.0, 0.0), |(a, v), (x, u)| (a + x, v + u));
 
-        Some((exponent - det + (self.dim() as f32) * (2.0 * PI).ln()) as f64)
+        Some((-(exponent + ln_det + (self.dim() as f32) * (2.0 * PI).ln()) / 2.0) as f64)
     }
 
     fn sample<R: Rng>(&self, rng: &mut R) -> Vec<f32> {
-- 
2.43.0


From a50c9f40e1bb224a273bcec4dc159c52d73b8a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:48 +0000
Subject: [PATCH 26/62] fix: trace term of the diagonal gaussian divergence

---
 goko/src/plugins/gaussians/diag_gaussian.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goko/src/plugins/gaussians/diag_gaussian.rs b/goko/src/plugins/gaussians/diag_gaussian.rs
index 66f8da0..bf5ee88 100644
--- a/goko/src/plugins/gaussians/diag_gaussian.rs
+++ b/goko/src/plugins/gaussians/diag_gaussian.rs
@@ -82,7 +82,7 @@ impl ContinousDistribution for DiagGaussian {
         let (trace, mah_dist, ln_det) = mean_vars
             .zip(other_mean_vars)
             .map(|((xi, yi), (ui, vi))| {
-                let trace = yi / ui;
+                let trace = yi / vi;
                 let mah_dist = (ui - xi) * (ui - xi) / vi;
                 let ln_det = vi.ln() - yi.ln();
                 (trace, mah_dist, ln_det)
-- 
2.43.0


From b5ea8f7e452f29fac0e26e050fb5911791aebc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:48 +0000
Subject: [PATCH 27/62] fix: expired evidence does not count against the
 posterior divergence

---
 goko/src/plugins/discrete/dirichlet.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/goko/src/plugins/discrete/dirichlet.rs b/goko/src/plugins/discrete/dirichlet.rs
index 13d7a21..058600c 100644
--- a/goko/src/plugins/discrete/dirichlet.rs
+++ b/goko/src/plugins/discrete/dirichlet.rs
@@ -143,7 +143,8 @@ impl Dirichlet {
             digamma_portion -=
                 other.singleton_count * (digamma(self.singleton_count) - digamma(my_total));
         }
-        for (other_ca, other_ca_count) in other.child_counts.iter() {
+        // children without evidence contribute nothing, whether or not they are in the prior
+        for (other_ca, other_ca_count) in other.child_counts.iter().filter(|(_, c)| *c > 0.0) {
             let ca_count = match self
                 .child_counts
                 .binary_search_by_key(other_ca, |&(a, _)| a)
-- 
2.43.0


From b6e7724d434571a3fb8eea95d1bef22cdbf6f5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:52 +0000
Subject: [PATCH 28/62] fix: the whole-tree divergence counts the centers of
 leaves in the prior

---
 goko/src/plugins/discrete/tracker.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/goko/src/plugins/discrete/tracker.rs b/goko/src/plugins/discrete/tracker.rs
index 3927259..0bea1f9 100644
--- a/goko/src/plugins/discrete/tracker.rs
+++ b/goko/src/plugins/discrete/tracker.rs
@@ -216,7 +216,9 @@ impl<D: PointCloud> BayesCategoricalTracker<D> {
         for (addr, evidence) in self.running_evidence.iter() {
             if evidence.singleton_count > 0.0 {
                 self.reader.get_node_and(*addr, |n| {
-                    let prior = n.singletons_len() as f64 + 1.0;
+                    // a leaf also holds its center, so that the priors add up to the total
+                    let held = n.singletons_len() + if n.is_leaf() { 1 } else { 0 };
+                    let prior = held as f64 + 1.0;
                     prior_total_lng += ln_gamma(prior);
                     posterior_total_lng += ln_gamma(evidence.singleton_count + prior);
                     digamma_portion += evidence.singleton_count
-- 
2.43.0


From 9662c205cf97887c76a82b32a219739be7ed7f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:52 +0000
Subject: [PATCH 29/62] fix: a tracker goes back to its window after an append

---
 goko/src/plugins/discrete/tracker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goko/src/plugins/discrete/tracker.rs b/goko/src/plugins/discrete/tracker.rs
index 0bea1f9..9a61e05 100644
--- a/goko/src/plugins/discrete/tracker.rs
+++ b/goko/src/plugins/discrete/tracker.rs
@@ -134,7 +134,7 @@ impl<D: PointCloud> BayesCategoricalTracker<D> {
         if self.window_size != 0 {
             self.sequence_queue.push_back(trace);
 
-            if self.sequence_queue.len() > self.window_size {
+            while self.sequence_queue.len() > self.window_size {
                 let oldest = self.sequence_queue.pop_front().unwrap();
                 self.remove_trace_from_pdfs(&oldest);
             }
-- 
2.43.0


From 2d8c30bd5a60524e68bb1b75d17d5dae3dc79e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:52 +0000
Subject: [PATCH 30/62] fix: appending a windowed tracker to one without a
 window keeps the sequence length right

---
 goko/src/plugins/discrete/tracker.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/goko/src/plugins/discrete/tracker.rs b/goko/src/plugins/discrete/tracker.rs
index 9a61e05..61d8e0b 100644
--- a/goko/src/plugins/discrete/tracker.rs
+++ b/goko/src/plugins/discrete/tracker.rs
@@ -56,9 +56,12 @@ impl<D: PointCloud> BayesCategoricalTracker<D> {
                 .and_modify(|e| e.merge(v))
                 .or_insert_with(|| v.clone());
         }
-        self.sequence_queue
-            .extend(other.sequence_queue.iter().cloned());
-        self.sequence_count += other.sequence_count;
+        // without a window nothing expires, so there is no queue to keep
+        if self.window_size != 0 {
+            self.sequence_queue
+                .extend(other.sequence_queue.iter().cloned());
+        }
+        self.sequence_count += other.sequence_len();
         self
     }
 
-- 
2.43.0


From 8a2b031933487a8095674e78b1c0519ecba86a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:52 +0000
Subject: [PATCH 31/62] fix: a tracker forgets the nodes only expired paths
 touched

---
 goko/src/plugins/discrete/tracker.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/goko/src/plugins/discrete/tracker.rs b/goko/src/plugins/discrete/tracker.rs
index 61d8e0b..6b90855 100644
--- a/goko/src/plugins/discrete/tracker.rs
+++ b/goko/src/plugins/discrete/tracker.rs
@@ -107,6 +107,16 @@ impl<D: PointCloud> BayesCategoricalTracker<D> {
             .get_mut(&last)
             .unwrap()
             .remove_child_pop(None, 1.0);
+        // nodes no path in the window touches have no evidence
+        for (_, address) in trace {
+            let expired = match self.running_evidence.get(address) {
+                Some(evidence) => evidence.total() <= 0.0,
+                None => false,
+            };
+            if expired {
+                self.running_evidence.remove(address);
+            }
+        }
     }
 
     /// Gives the probability vector for this
-- 
2.43.0


From ba6144ea8919755055a1453d4d743cda1b9cd145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:52 +0000
Subject: [PATCH 32/62] fix: a baseline with a single sample no longer panics

---
 goko/src/plugins/discrete/baseline.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/goko/src/plugins/discrete/baseline.rs b/goko/src/plugins/discrete/baseline.rs
index b8fac9f..6b845e1 100644
--- a/goko/src/plugins/discrete/baseline.rs
+++ b/goko/src/plugins/discrete/baseline.rs
@@ -195,6 +195,9 @@ impl KLDivergenceBaseline {
             Err(index) => {
                 if index == 0 {
                     KLDivergenceBaselineStats::default()
+                } else if self.sequence_len.len() == 1 {
+                    // nothing to extrapolate from
+                    self.stats[0].to_mean_var(self.num_sequences as f64)
                 } else if index == self.sequence_len.len() {
                     let stats1 = self.stats[index - 2].to_mean_var(self.num_sequences as f64);
                     let stats2 = self.stats[index - 1].to_mean_var(self.num_sequences as f64);
-- 
2.43.0


From daad475f17d45a40c2a367b23bf5c53d6390753e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:07 +0000
Subject: [PATCH 33/62] fix: the L1 distance is not square-rooted

---
 pointcloud/src/metrics/l1_f32.rs  | 8 ++++----
 pointcloud/src/metrics/l1_misc.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pointcloud/src/metrics/l1_f32.rs b/pointcloud/src/metrics/l1_f32.rs
index f082650..18127f7 100644
--- a/pointcloud/src/metrics/l1_f32.rs
+++ b/pointcloud/src/metrics/l1_f32.rs
@@ -8,25 +8,25 @@ use std::ops::Deref;
 
 impl Metric<[f32]> for L1 {
     fn dist(x: &[f32], y: &[f32]) -> f32 {
-        l1_dense_f32(x.deref(), y.deref()).sqrt()
+        l1_dense_f32(x.deref(), y.deref())
     }
 }
 
 impl<'a> Metric<RawSparse<f32, u32>> for L1 {
     fn dist(x: &RawSparse<f32, u32>, y: &RawSparse<f32, u32>) -> f32 {
-        l1_sparse_f32_f32(x.indexes(), x.values(), y.indexes(), y.values()).sqrt()
+        l1_sparse_f32_f32(x.indexes(), x.values(), y.indexes(), y.values())
     }
 }
 
 impl<'a> Metric<RawSparse<f32, u16>> for L1 {
     fn dist(x: &RawSparse<f32, u16>, y: &RawSparse<f32, u16>) -> f32 {
-        l1_sparse_f32_f32(x.indexes(), x.values(), y.indexes(), y.values()).sqrt()
+        l1_sparse_f32_f32(x.indexes(), x.values(), y.indexes(), y.values())
     }
 }
 
 impl<'a> Metric<RawSparse<f32, u8>> for L1 {
     fn dist(x: &RawSparse<f32, u8>, y: &RawSparse<f32, u8>) -> f32 {
-        l1_sparse_f32_f32(x.indexes(), x.values(), y.indexes(), y.values()).sqrt()
+        l1_sparse_f32_f32(x.indexes(), x.values(), y.indexes(), y.values())
     }
 }
 
diff --git a/pointcloud/src/metrics/l1_misc.rs b/pointcloud/src/metrics/l1_misc.rs
index f8325c8..27ebaeb 100644
--- a/pointcloud/src/metrics/l1_misc.rs
+++ b/pointcloud/src/metrics/l1_misc.rs
@@ -118,25 +118,25 @@ macro_rules! make_l1_distance {
         }
         impl Metric<[$base]> for L1 {
             fn dist(x: &[$base], y: &[$base]) -> f32 {
-                $dist_base(x.deref(), y.deref()).sqrt()
+                $dist_base(x.deref(), y.deref())
             }
         }
 
         impl<'a> Metric<RawSparse<$base, u32>> for L1 {
             fn dist(x: &RawSparse<$base, u32>, y: &RawSparse<$base, u32>) -> f32 {
-                $sparse_base(x.indexes(), x.values(), y.indexes(), y.values()).sqrt()
+                $sparse_base(x.indexes(), x.values(), y.indexes(), y.values())
             }
         }
 
         impl<'a> Metric<RawSparse<$base, u16>> for L1 {
             fn dist(x: &RawSparse<$base, u16>, y: &RawSparse<$base, u16>) -> f32 {
-                $sparse_base(x.indexes(), x.values(), y.indexes(), y.values()).sqrt()
+                $sparse_base(x.indexes(), x.values(), y.indexes(), y.values())
             }
         }
 
         impl<'a> Metric<RawSparse<$base, u8>> for L1 {
             fn dist(x: &RawSparse<$base, u8>, y: &RawSparse<$base, u8>) -> f32 {
-                $sparse_base(x.indexes(), x.values(), y.indexes(), y.values()).sqrt()
+                $sparse_base(x.indexes(), x.values(), y.indexes(), y.values())
             }
         }
     };
-- 
2.43.0


From 7b33986f28f98b80c699402d82f4fd6074301c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:07 +0000
Subject: [PATCH 34/62] fix: dense iteration of a sparse point includes the
 trailing zeros

---
 pointcloud/src/points/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pointcloud/src/points/mod.rs b/pointcloud/src/points/mod.rs
index 0a78ed1..7886372 100644
--- a/pointcloud/src/points/mod.rs
+++ b/pointcloud/src/points/mod.rs
@@ -65,7 +65,11 @@ where
     type Item = f32;
     fn next(&mut self) -> Option<Self::Item> {
         let dim = self.raw.dim();
-        if self.index < dim && self.sparse_index < self.raw.len {
+        if self.index < dim && self.sparse_index == self.raw.len {
+            // past the last stored value, only zeros are left
+            self.index += 1;
+            Some(0.0)
+        } else if self.index < dim {
             let raw_si = unsafe { *self.raw.indexes_ptr.add(self.sparse_index) };
 
             let si: usize = match raw_si.try_into() {
-- 
2.43.0


From 0b42d36cbf1d5464a3d3d7b6f48c9ec81ede1209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:07 +0000
Subject: [PATCH 35/62] fix: batch distances work in more than 300000
 dimensions

---
 pointcloud/src/base_traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointcloud/src/base_traits.rs b/pointcloud/src/base_traits.rs
index 8ee6c1f..a121ca2 100644
--- a/pointcloud/src/base_traits.rs
+++ b/pointcloud/src/base_traits.rs
@@ -39,7 +39,7 @@ use ndarray::{Array1, Array2};
 
 #[inline]
 fn chunk(data_dim: usize) -> usize {
-    min(300000 / data_dim, 100)
+    min(300000 / data_dim.max(1), 100).max(1)
 }
 
 /// Base trait for a point cloud
-- 
2.43.0


From 3e5827904c3c7aa4b53f5135458a231171e6befa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:06 +0000
Subject: [PATCH 36/62] fix: dropping a memory map unmaps all of it

---
 pointcloud/src/data_sources/memmapf32/unix.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pointcloud/src/data_sources/memmapf32/unix.rs b/pointcloud/src/data_sources/memmapf32/unix.rs
index 0f9cb38..7a980cf 100644
--- a/pointcloud/src/data_sources/memmapf32/unix.rs
+++ b/pointcloud/src/data_sources/memmapf32/unix.rs
@@ -39,7 +39,10 @@ const MAP_STACK: libc::c_int = 0;
 
 pub struct MmapInner {
     ptr: *mut libc::c_void,
+    /// in f32s
     len: usize,
+    /// in bytes, what has to be unmapped
+    byte_len: usize,
 }
 
 impl MmapInner {
@@ -80,6 +83,7 @@ impl MmapInner {
                 Ok(MmapInner {
                     ptr: ptr.offset(alignment as isize),
                     len: len / 4,
+                    byte_len: len,
                 })
             }
         }
@@ -216,7 +220,7 @@ impl Drop for MmapInner {
             assert!(
                 libc::munmap(
                     self.ptr.offset(-(alignment as isize)),
-                    (self.len + alignment) as libc::size_t
+                    (self.byte_len + alignment) as libc::size_t
                 ) == 0,
                 "unable to unmap mmap: {}",
                 io::Error::last_os_error()
-- 
2.43.0


From c7111ed9fa48aeba033eedcc52dd9734d3f61240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:06 +0000
Subject: [PATCH 37/62] fix: an incomplete point at the end of a data file does
 not shift the points after it

---
 pointcloud/src/data_sources/memmap_ram.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pointcloud/src/data_sources/memmap_ram.rs b/pointcloud/src/data_sources/memmap_ram.rs
index 9cf6579..3ada4f3 100644
--- a/pointcloud/src/data_sources/memmap_ram.rs
+++ b/pointcloud/src/data_sources/memmap_ram.rs
@@ -80,8 +80,8 @@ impl<M> DataMemmap<M> {
     pub fn convert_to_ram(self) -> DataRam<M> {
         let dim = self.dim;
         let name = self.name;
-        let mut data = Vec::with_capacity(self.data.len());
-        data.extend_from_slice(&*self.data);
+        // an incomplete point at the end of the file is not a point
+        let data = self.data[..(self.data.len() / dim) * dim].to_vec();
         DataRam {
             name,
             data,
@@ -173,7 +173,7 @@ macro_rules! make_point_cloud {
             }
             #[inline]
             fn is_empty(&self) -> bool {
-                self.data.is_empty()
+                self.len() == 0
             }
             #[inline]
             fn reference_indexes(&self) -> Vec<usize> {
-- 
2.43.0


From 5dd83a01e2d121f288e7ef6695feead319a561db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:06 +0000
Subject: [PATCH 38/62] fix: a huge point index is an error instead of wrapping
 around

---
 pointcloud/src/data_sources/memmap_ram.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pointcloud/src/data_sources/memmap_ram.rs b/pointcloud/src/data_sources/memmap_ram.rs
index 3ada4f3..21d7f51 100644
--- a/pointcloud/src/data_sources/memmap_ram.rs
+++ b/pointcloud/src/data_sources/memmap_ram.rs
@@ -181,12 +181,10 @@ macro_rules! make_point_cloud {
             }
             #[inline]
             fn point<'a, 'b: 'a>(&'b self, i: usize) -> PointCloudResult<&'a [f32]> {
-                match self
-                    .data
-                    .get(self.dim * (i as usize)..(self.dim * (i as usize) + self.dim))
-                {
-                    None => Err(PointCloudError::data_access(i as usize, self.name.clone())),
-                    Some(x) => Ok(x),
+                if i < self.len() {
+                    Ok(&self.data[self.dim * i..self.dim * (i + 1)])
+                } else {
+                    Err(PointCloudError::data_access(i, self.name.clone()))
                 }
             }
         }
-- 
2.43.0


From a45c6d838bbf5902a820a897964deafd1cb7bb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:06 +0000
Subject: [PATCH 39/62] fix: names exist only for the points of the cloud

---
 pointcloud/src/data_sources/memmap_ram.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pointcloud/src/data_sources/memmap_ram.rs b/pointcloud/src/data_sources/memmap_ram.rs
index 21d7f51..35196ca 100644
--- a/pointcloud/src/data_sources/memmap_ram.rs
+++ b/pointcloud/src/data_sources/memmap_ram.rs
@@ -154,10 +154,21 @@ macro_rules! make_point_cloud {
                 })
             }
             fn name(&self, pi: usize) -> PointCloudResult<String> {
-                Ok(pi.to_string())
+                if pi < self.len() {
+                    Ok(pi.to_string())
+                } else {
+                    Err(PointCloudError::data_access(pi, self.name.clone()))
+                }
             }
             fn index(&self, pn: &str) -> PointCloudResult<usize> {
-                pn.parse::<usize>().map_err(|_| ParsingError::RegularParsingError("Unable to parse your str into an usize").into())
+                let pi = pn.parse::<usize>().map_err(|_| {
+                    ParsingError::RegularParsingError("Unable to parse your str into an usize")
+                })?;
+                if pi < self.len() {
+                    Ok(pi)
+                } else {
+                    Err(PointCloudError::UnknownName)
+                }
             }
             fn names(&self) -> Vec<String> {
                 (0..self.len()).map(|i| i.to_string()).collect()
-- 
2.43.0


From 3f8ba4d0635d29fd889b1816977341cdd8454860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:06 +0000
Subject: [PATCH 40/62] fix: looking up a name in a glued cloud gives the glued
 index

---
 pointcloud/src/glued_data_cloud.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pointcloud/src/glued_data_cloud.rs b/pointcloud/src/glued_data_cloud.rs
index 28ef578..310e132 100644
--- a/pointcloud/src/glued_data_cloud.rs
+++ b/pointcloud/src/glued_data_cloud.rs
@@ -133,10 +133,12 @@ impl<D: PointCloud> PointCloud for HashGluedCloud<D> {
         self.data_sources[i].name(j)
     }
     fn index(&self, pn: &str) -> PointCloudResult<usize> {
-        for data_source in &self.data_sources {
-            let index = data_source.index(pn);
-            if index.is_ok() {
-                return index;
+        for (i, data_source) in self.data_sources.iter().enumerate() {
+            if let Ok(j) = data_source.index(pn) {
+                // the index is local to the data source
+                if let Some((pi, _)) = self.addresses.iter().find(|(_, a)| **a == (i, j)) {
+                    return Ok(*pi);
+                }
             }
         }
         Err(PointCloudError::UnknownName)
-- 
2.43.0


From 760a5153c105489dab5509d03ae9a548ba64632b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:06 +0000
Subject: [PATCH 41/62] fix: a glued cloud without sources is empty

---
 pointcloud/src/glued_data_cloud.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pointcloud/src/glued_data_cloud.rs b/pointcloud/src/glued_data_cloud.rs
index 310e132..d6d77f7 100644
--- a/pointcloud/src/glued_data_cloud.rs
+++ b/pointcloud/src/glued_data_cloud.rs
@@ -99,11 +99,7 @@ impl<D: PointCloud> PointCloud for HashGluedCloud<D> {
 
     /// Total number of points in the point cloud
     fn is_empty(&self) -> bool {
-        if self.data_sources.is_empty() {
-            false
-        } else {
-            self.data_sources.iter().all(|m| m.is_empty())
-        }
+        self.data_sources.iter().all(|m| m.is_empty())
     }
 
     /// The names of the data are currently a shallow wrapper around a usize.
-- 
2.43.0


From 6ea1bb6b866a2392d7269982fc5a518cce3260ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:06 +0000
Subject: [PATCH 42/62] fix: reindexing that would lose or duplicate points is
 an error

---
 pointcloud/src/glued_data_cloud.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pointcloud/src/glued_data_cloud.rs b/pointcloud/src/glued_data_cloud.rs
index d6d77f7..30bbc31 100644
--- a/pointcloud/src/glued_data_cloud.rs
+++ b/pointcloud/src/glued_data_cloud.rs
@@ -5,7 +5,7 @@ use crate::pc_errors::{PointCloudError, PointCloudResult};
 use crate::base_traits::*;
 
 use fxhash::FxBuildHasher;
-use hashbrown::HashMap;
+use hashbrown::{HashMap, HashSet};
 
 /// For large numbers of underlying point clouds
 #[derive(Debug)]
@@ -37,9 +37,16 @@ impl<D> HashGluedCloud<D> {
     pub fn reindex(&mut self, new_indexes: &[(usize, usize)]) -> PointCloudResult<()> {
         assert!(new_indexes.len() == self.addresses.len());
         let mut new_addresses = HashMap::with_hasher(FxBuildHasher::default());
+        let mut moved = HashSet::new();
         for (old_index, new_index) in new_indexes.iter() {
             match self.addresses.get(&old_index) {
                 Some(addr) => {
+                    if !moved.insert(*old_index) || new_addresses.contains_key(new_index) {
+                        return Err(PointCloudError::DataAccessError {
+                            index: *old_index,
+                            reason: "reindexing would lose a point".to_string(),
+                        });
+                    }
                     new_addresses.insert(*new_index, *addr);
                 }
                 None => {
-- 
2.43.0


From 21625333e91521ed3ebb08645798de9f039de01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:06 +0000
Subject: [PATCH 43/62] fix: merging labels keeps which points are labelled

---
 pointcloud/src/label_sources/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pointcloud/src/label_sources/mod.rs b/pointcloud/src/label_sources/mod.rs
index e0b28e1..1d11eab 100644
--- a/pointcloud/src/label_sources/mod.rs
+++ b/pointcloud/src/label_sources/mod.rs
@@ -69,15 +69,15 @@ impl SmallIntLabels {
         match (self.mask.as_mut(), other.mask.as_ref()) {
             (Some(s_mask), Some(o_mask)) => s_mask.extend(o_mask),
             (Some(s_mask), None) => {
-                s_mask.extend(std::iter::repeat(false).take(other.labels.len()))
+                s_mask.extend(std::iter::repeat(true).take(other.labels.len()))
             }
             (None, Some(_)) => replace_mask = true,
             (None, None) => {}
         }
 
         if replace_mask {
-            let mut mask = std::iter::repeat(false)
-                .take(self.labels.len())
+            let mut mask = std::iter::repeat(true)
+                .take(self.labels.len() - other.labels.len())
                 .collect::<Vec<bool>>();
             mask.extend(other.mask.as_ref().unwrap().iter());
             self.mask = Some(mask)
-- 
2.43.0


From 8caaaeaee88026e8018dc94fd96eaf0d3fc4392c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:06 +0000
Subject: [PATCH 44/62] fix: the length of a vector label set is its number of
 labels

---
 pointcloud/src/label_sources/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointcloud/src/label_sources/mod.rs b/pointcloud/src/label_sources/mod.rs
index 1d11eab..d79c4a3 100644
--- a/pointcloud/src/label_sources/mod.rs
+++ b/pointcloud/src/label_sources/mod.rs
@@ -171,7 +171,7 @@ impl LabelSet for VecLabels {
     type LabelSummary = VecSummary;
 
     fn len(&self) -> usize {
-        self.labels.len()
+        self.labels.len() / self.label_dim
     }
     fn is_empty(&self) -> bool {
         self.labels.is_empty()
-- 
2.43.0


From 232ac9084eb1d38980ab25f44980870852b1bb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:06 +0000
Subject: [PATCH 45/62] fix: only negative csv labels are unlabeled

---
 pointcloud/src/loaders/csv_loaders.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointcloud/src/loaders/csv_loaders.rs b/pointcloud/src/loaders/csv_loaders.rs
index 26e31e2..c1a0a2a 100644
--- a/pointcloud/src/loaders/csv_loaders.rs
+++ b/pointcloud/src/loaders/csv_loaders.rs
@@ -49,7 +49,7 @@ fn read_csv<P: AsRef<Path> + std::fmt::Debug, R: Read>(
                         key: format!("Unable to read u64 from {:?}", record),
                     })
                 })?;
-                if 0 < val {
+                if 0 <= val {
                     mask.push(true);
                 } else {
                     mask.push(false);
-- 
2.43.0


From 0fa0f1f8aa19b156f1e8ab2692d1a966f6b5cf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:31 +0000
Subject: [PATCH 46/62] fix: a point beyond the labels is unlabeled, not a
 panic

---
 pointcloud/src/label_sources/mod.rs | 80 +++++------------------------
 1 file changed, 14 insertions(+), 66 deletions(-)

diff --git a/pointcloud/src/label_sources/mod.rs b/pointcloud/src/label_sources/mod.rs
index d79c4a3..c59ebf5 100644
--- a/pointcloud/src/label_sources/mod.rs
+++ b/pointcloud/src/label_sources/mod.rs
@@ -22,37 +22,17 @@ impl LabelSet for SmallIntLabels {
         self.labels.is_empty()
     }
     fn label(&self, pn: usize) -> PointCloudResult<Option<&i64>> {
-        if let Some(mask) = &self.mask {
-            if mask[pn] {
-                Ok(self.labels.get(pn))
-            } else {
-                Ok(None)
-            }
-        } else {
-            Ok(self.labels.get(pn))
+        match &self.mask {
+            Some(mask) if !mask.get(pn).copied().unwrap_or(false) => Ok(None),
+            _ => Ok(self.labels.get(pn)),
         }
     }
     fn label_summary(&self, pns: &[usize]) -> PointCloudResult<SummaryCounter<Self::LabelSummary>> {
-        let mut summary = CategorySummary::default();
-        let mut nones = 0;
-        if let Some(mask) = &self.mask {
-            for i in pns {
-                if mask[*i] {
-                    summary.add(&self.labels[*i]);
-                } else {
-                    nones += 1;
-                }
-            }
-        } else {
-            for i in pns {
-                summary.add(&self.labels[*i]);
-            }
+        let mut summary = SummaryCounter::<Self::LabelSummary>::default();
+        for i in pns {
+            summary.add(self.label(*i));
         }
-        Ok(SummaryCounter {
-            summary,
-            nones,
-            errors: 0,
-        })
+        Ok(summary)
     }
 }
 
@@ -177,48 +157,16 @@ impl LabelSet for VecLabels {
         self.labels.is_empty()
     }
     fn label(&self, pn: usize) -> PointCloudResult<Option<&Self::Label>> {
-        if let Some(mask) = &self.mask {
-            if mask[pn] {
-                Ok(self
-                    .labels
-                    .get(self.label_dim * (pn as usize)..self.label_dim * (pn as usize + 1)))
-            } else {
-                Ok(None)
-            }
-        } else {
-            Ok(self
-                .labels
-                .get(self.label_dim * (pn as usize)..self.label_dim * (pn as usize + 1)))
+        match &self.mask {
+            Some(mask) if !mask.get(pn).copied().unwrap_or(false) => Ok(None),
+            _ => Ok(self.labels.chunks_exact(self.label_dim).nth(pn)),
         }
     }
     fn label_summary(&self, pns: &[usize]) -> PointCloudResult<SummaryCounter<Self::LabelSummary>> {
-        let mut summary = Self::LabelSummary::default();
-        let mut nones = 0;
-        if let Some(mask) = &self.mask {
-            for i in pns {
-                if mask[*i] {
-                    summary.add(
-                        self.labels
-                            .get(self.label_dim * (*i as usize)..self.label_dim * (*i as usize + 1))
-                            .unwrap(),
-                    );
-                } else {
-                    nones += 1;
-                }
-            }
-        } else {
-            for i in pns {
-                summary.add(
-                    self.labels
-                        .get(self.label_dim * (*i as usize)..self.label_dim * (*i as usize + 1))
-                        .unwrap(),
-                );
-            }
+        let mut summary = SummaryCounter::<Self::LabelSummary>::default();
+        for i in pns {
+            summary.add(self.label(*i));
         }
-        Ok(SummaryCounter {
-            summary,
-            nones,
-            errors: 0,
-        })
+        Ok(summary)
     }
 }
-- 
2.43.0


From 86e1593a839d8c4aee5df792583864c761735a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:27 +0000
Subject: [PATCH 47/62] fix: the seed in a config file is its rng_seed, not its
 verbosity

---
 goko/src/covertree/builders.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goko/src/covertree/builders.rs b/goko/src/covertree/builders.rs
index af71809..4b6379d 100644
--- a/goko/src/covertree/builders.rs
+++ b/goko/src/covertree/builders.rs
@@ -362,7 +362,7 @@ impl CoverTreeBuilder {
             use_singletons: params["use_singletons"].as_bool().unwrap_or(true),
             partition_type,
             verbosity: params["verbosity"].as_i64().unwrap_or(2) as u32,
-            rng_seed: params["verbosity"].as_i64().map(|i| i as u64),
+            rng_seed: params["rng_seed"].as_i64().map(|i| i as u64),
         }
     }
 
-- 
2.43.0


From 8a4132e5a1d78832b8582affde3a1a4f750546a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:27 +0000
Subject: [PATCH 48/62] fix: a whole number as scale_base in a config file is
 used

---
 goko/src/covertree/builders.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/goko/src/covertree/builders.rs b/goko/src/covertree/builders.rs
index 4b6379d..a8b5b44 100644
--- a/goko/src/covertree/builders.rs
+++ b/goko/src/covertree/builders.rs
@@ -356,7 +356,11 @@ impl CoverTreeBuilder {
             PartitionType::Nearest
         };
         CoverTreeBuilder {
-            scale_base: params["scale_base"].as_f64().unwrap_or(2.0) as f32,
+            // a whole number is an integer to the yaml parser
+            scale_base: params["scale_base"]
+                .as_f64()
+                .or_else(|| params["scale_base"].as_i64().map(|i| i as f64))
+                .unwrap_or(2.0) as f32,
             leaf_cutoff: params["leaf_cutoff"].as_i64().unwrap_or(1) as usize,
             min_res_index: params["min_res_index"].as_i64().unwrap_or(-10) as i32,
             use_singletons: params["use_singletons"].as_bool().unwrap_or(true),
-- 
2.43.0


From f136cb33f53c6de9dcead0512c23e40b4c598a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:27 +0000
Subject: [PATCH 49/62] fix: the documented label_csv_index and label_dim are
 read from config files

---
 pointcloud/src/loaders/yaml_loaders.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pointcloud/src/loaders/yaml_loaders.rs b/pointcloud/src/loaders/yaml_loaders.rs
index f716da4..3df2fb8 100644
--- a/pointcloud/src/loaders/yaml_loaders.rs
+++ b/pointcloud/src/loaders/yaml_loaders.rs
@@ -64,6 +64,7 @@ pub fn vec_labeled_ram_from_yaml<P: AsRef<Path>, M: Metric<[f32]>>(
 
     let labels_dim = params_files["labels_dim"]
         .as_i64()
+        .or_else(|| params_files["label_dim"].as_i64())
         .expect("Unable to read the 'labels_dim'") as usize;
 
     let label_set = convert_glued_memmap_to_ram::<L2>(open_memmaps(labels_dim, labels_path)?)
@@ -127,8 +128,14 @@ pub fn labels_from_yaml<P: AsRef<Path>>(path: P) -> PointCloudResult<SmallIntLab
     );
     trace!("Label path list, post glob: {:?}", labels_path);
 
-    let labels_index = params_files["labels_index"].as_i64().map(|i| i as usize);
-    let labels_dim = params_files["labels_dim"].as_i64().map(|i| i as usize);
+    let labels_index = params_files["labels_index"]
+        .as_i64()
+        .or_else(|| params_files["label_csv_index"].as_i64())
+        .map(|i| i as usize);
+    let labels_dim = params_files["labels_dim"]
+        .as_i64()
+        .or_else(|| params_files["label_dim"].as_i64())
+        .map(|i| i as usize);
 
     let mut label_set: Vec<SmallIntLabels> = labels_path
         .iter()
-- 
2.43.0


From 2a2d3da95c7909cbb278f266734da969a995bf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:29 +0000
Subject: [PATCH 50/62] fix: a query for far more neighbours than there are
 points no longer aborts

---
 goko/src/covertree/query_tools/knn_query_heap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goko/src/covertree/query_tools/knn_query_heap.rs b/goko/src/covertree/query_tools/knn_query_heap.rs
index c579692..2d8486c 100644
--- a/goko/src/covertree/query_tools/knn_query_heap.rs
+++ b/goko/src/covertree/query_tools/knn_query_heap.rs
@@ -195,7 +195,7 @@ impl KnnQueryHeap {
 
     /// Unpacks the distance heap. This consumes the query heap.
     pub fn unpack(mut self) -> Vec<(f32, usize)> {
-        let mut result = Vec::with_capacity(self.k);
+        let mut result = Vec::with_capacity(self.dist_heap.len());
         while let Some(el) = self.dist_heap.pop() {
             result.push((el.dist, el.index));
         }
-- 
2.43.0


From 1943bc42864433de4cc60a21a069fc10362fa862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:10 +0000
Subject: [PATCH 51/62] fix: query parameters are matched by their whole name
 and tracker names are not cut short

---
 serve_goko/src/http/service.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/serve_goko/src/http/service.rs b/serve_goko/src/http/service.rs
index aff8dce..a40b5f5 100644
--- a/serve_goko/src/http/service.rs
+++ b/serve_goko/src/http/service.rs
@@ -39,7 +39,7 @@ pub struct GokoHttp<D: PointCloud, P: PointParser> {
 
 fn parse_knn_query(uri: &Uri) -> usize {
     lazy_static! {
-        static ref RE: Regex = Regex::new(r"k=(?P<k>\d+)").unwrap();
+        static ref RE: Regex = Regex::new(r"(?:^|&)k=(?P<k>\d+)").unwrap();
     }
 
     match uri.query().map(|s| RE.captures(s)).flatten() {
@@ -50,10 +50,10 @@ fn parse_knn_query(uri: &Uri) -> usize {
 
 fn parse_tracker_query(uri: &Uri) -> (Option<String>, Option<usize>) {
     lazy_static! {
-        static ref RE_TRACKER: Regex = Regex::new(r"tracker_name=(?P<tracker_name>\w+)").unwrap();
+        static ref RE_TRACKER: Regex = Regex::new(r"(?:^|&)tracker_name=(?P<tracker_name>[^&]+)").unwrap();
     }
     lazy_static! {
-        static ref RE_WINDOW: Regex = Regex::new(r"window_size=(?P<window_size>\d+)").unwrap();
+        static ref RE_WINDOW: Regex = Regex::new(r"(?:^|&)window_size=(?P<window_size>\d+)").unwrap();
     }
 
     let tracker_name = match uri.query().map(|s| RE_TRACKER.captures(s)).flatten() {
-- 
2.43.0


From f58965fc8f7d6ca824e125acd844e12a2a2aadf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:10 +0000
Subject: [PATCH 52/62] fix: tracking a ready-made path without any tracker is
 not reported as a success

---
 serve_goko/src/api/tracker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serve_goko/src/api/tracker.rs b/serve_goko/src/api/tracker.rs
index 0133ebb..7f1de0e 100644
--- a/serve_goko/src/api/tracker.rs
+++ b/serve_goko/src/api/tracker.rs
@@ -92,7 +92,7 @@ impl<D: PointCloud, T: Deref<Target = D::Point> + Send + Sync> InternalService<T
                     tracker.add_path(req.path.clone());
                 }
                 Ok(TrackingResponse::TrackPath(TrackPathResponse {
-                    success: true,
+                    success: !self.trackers.is_empty(),
                 }))
             }
             AddTracker(req) => {
-- 
2.43.0


From aa6e53dc74fd19ca938bb7a22e367bc946039c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:23 +0000
Subject: [PATCH 53/62] fix: a request body of undeclared length ends when its
 data does

---
 serve_goko/src/parsers/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/serve_goko/src/parsers/mod.rs b/serve_goko/src/parsers/mod.rs
index 86b0e28..6323e59 100644
--- a/serve_goko/src/parsers/mod.rs
+++ b/serve_goko/src/parsers/mod.rs
@@ -53,7 +53,7 @@ impl<P: PointParser> PointBuffer<P> {
                 Poll::Ready(data) => data,
                 Poll::Pending => return Poll::Pending,
             };
-            if let Some(new_bytes) = new_bytes {
+            let finished = if let Some(new_bytes) = new_bytes {
                 match new_bytes {
                     Ok(new_bytes) => {
                         this.body_buffer.extend_from_slice(&new_bytes);
@@ -65,14 +65,16 @@ impl<P: PointParser> PointBuffer<P> {
                         return Poll::Ready(Err(e.into()))
                     },
                 }
+                body.is_end_stream()
             } else {
                 match Pin::new(&mut body).poll_trailers(cx) {
                     Poll::Ready(_) => (),
                     Poll::Pending => return Poll::Pending,
                 }
-            }
+                true
+            };
 
-            if body.is_end_stream() {
+            if finished {
                 let point_res = P::parse(this.body_buffer, this.point_buffer, this.request);
                 this.body_buffer.clear();
                 this.point_buffer.clear();
-- 
2.43.0


From 3efbf5793c31f8f2dd8176707fe6b2373128efc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:53 +0000
Subject: [PATCH 54/62] fix: gzip and zlib request bodies are decoded as what
 they are

---
 serve_goko/src/parsers/msgpack_dense.rs | 27 ++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/serve_goko/src/parsers/msgpack_dense.rs b/serve_goko/src/parsers/msgpack_dense.rs
index 6697971..672be86 100644
--- a/serve_goko/src/parsers/msgpack_dense.rs
+++ b/serve_goko/src/parsers/msgpack_dense.rs
@@ -6,7 +6,7 @@
 use hyper::{Request, Body};
 
 use http::header::CONTENT_TYPE;
-use flate2::read::{DeflateDecoder, ZlibDecoder};
+use flate2::read::{DeflateDecoder, GzDecoder, ZlibDecoder};
 use rmp_serde;
 use std::io::Read;
 use crate::PointParser;
@@ -22,8 +22,9 @@ pub trait ParserService: Send + Sync + 'static {
 pub struct MsgPackDense {}
 
 pub enum Readers<R: Read> {
-    Zlib(DeflateDecoder<R>),
-    Gzip(ZlibDecoder<R>),
+    Deflate(DeflateDecoder<R>),
+    Zlib(ZlibDecoder<R>),
+    Gzip(GzDecoder<R>),
     None(R),
 }
 
@@ -31,6 +32,7 @@ impl<R: Read> Read for Readers<R> {
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
         use Readers::*;
         match self {
+            Deflate(reader) => reader.read(buf),
             Zlib(reader) => reader.read(buf),
             Gzip(reader) => reader.read(buf),
             None(reader) => reader.read(buf),
@@ -39,6 +41,15 @@ impl<R: Read> Read for Readers<R> {
 }
 
 
+// Clients have been sending bare deflate streams as zlib, and zlib streams as gzip. Those are still read.
+fn has_zlib_header(body: &[u8]) -> bool {
+    body.len() > 1 && body[0] & 0x0f == 8 && (body[0] as u16 * 256 + body[1] as u16) % 31 == 0
+}
+
+fn has_gzip_header(body: &[u8]) -> bool {
+    body.starts_with(&[0x1f, 0x8b])
+}
+
 impl PointParser for MsgPackDense {
     type Point = Vec<f32>;
     fn parse(body_buffer: &[u8], scratch_buffer: &mut Vec<u8>, request: &Request<Body>) -> Result<Self::Point, GokoClientError> {
@@ -47,11 +58,17 @@ impl PointParser for MsgPackDense {
             Some(typestr) => {
                 let token = typestr.to_str().unwrap();
                 match token {
+                    "zlib" if has_zlib_header(body_buffer) => {
+                        Readers::Zlib(ZlibDecoder::new(body_buffer))
+                    }
                     "zlib" => {
-                        Readers::Zlib(DeflateDecoder::new(body_buffer))
+                        Readers::Deflate(DeflateDecoder::new(body_buffer))
+                    }
+                    "gzip" if has_gzip_header(body_buffer) => {
+                        Readers::Gzip(GzDecoder::new(body_buffer))
                     }
                     "gzip" => {
-                        Readers::Gzip(ZlibDecoder::new(body_buffer))
+                        Readers::Zlib(ZlibDecoder::new(body_buffer))
                     }
                     _ => {
                         return Err(GokoClientError::parse(Box::new(std::io::Error::new(std::io::ErrorKind::Other, "Unknown Content Type"))));
-- 
2.43.0


From 23f1a627e614d8eab916afeb20edca1624405938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:26 +0000
Subject: [PATCH 55/62] fix: a request that panics is answered with an error
 and does not stop the workers

---
 serve_goko/src/core/internal_service.rs | 7 +++++--
 serve_goko/src/http/service.rs          | 8 +++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/serve_goko/src/core/internal_service.rs b/serve_goko/src/core/internal_service.rs
index 3c62082..3aa6310 100644
--- a/serve_goko/src/core/internal_service.rs
+++ b/serve_goko/src/core/internal_service.rs
@@ -3,6 +3,7 @@ use pin_project::pin_project;
 use goko::errors::GokoError;
 use core::task::Context;
 use std::future::Future;
+use std::panic::{catch_unwind, AssertUnwindSafe};
 use std::pin::Pin;
 use std::task::Poll;
 
@@ -93,8 +94,10 @@ impl<T: Send + 'static, S: Send + 'static> InternalServiceOperator<T, S> {
         tokio::spawn(async move {
             while let Some(mut msg) = request_rcv.recv().await {
                 if let Some(request) = msg.request() {
-                    let response = server.process(request);
-                    msg.respond(response);
+                    // A request that panics must not take the worker with it; its reply channel is dropped instead.
+                    if let Ok(response) = catch_unwind(AssertUnwindSafe(|| server.process(request))) {
+                        msg.respond(response);
+                    }
                 } else {
                     msg.error(InternalServiceError::DoubleRead)
                 }
diff --git a/serve_goko/src/http/service.rs b/serve_goko/src/http/service.rs
index a40b5f5..24f7a21 100644
--- a/serve_goko/src/http/service.rs
+++ b/serve_goko/src/http/service.rs
@@ -11,6 +11,8 @@ use tower::load::Load;
 use tower::Service;
 
 use core::task::Context;
+use futures::FutureExt;
+use std::panic::AssertUnwindSafe;
 use std::task::Poll;
 
 use std::sync::{atomic, Arc, Mutex};
@@ -172,7 +174,11 @@ where
                 if let Some(hyper_request) = msg.request() {
                     let goko_request = parse_http(hyper_request, &mut parser).await;
                     let response = match goko_request {
-                        Ok(r) => reader.process(r).await.map_err(|e| e.into()),
+                        // A request that panics, a point of the wrong length say, must not take the connection's worker with it.
+                        Ok(r) => match AssertUnwindSafe(reader.process(r)).catch_unwind().await {
+                            Ok(response) => response.map_err(|e| e.into()),
+                            Err(_) => Ok(GokoResponse::Unknown("Unable to process the request.".to_string(), 500)),
+                        },
                         Err(e) => {
                             if let GokoClientError::MalformedQuery(s) = e {
                                 Ok(GokoResponse::Unknown(s.to_string(), 404))
-- 
2.43.0


From 7d9845129d2c6ab8d7b40009db0862c40de38925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:26 +0000
Subject: [PATCH 56/62] fix: requests without a readable point, or that fail,
 get an error response and keep their connection

---
 serve_goko/src/http/service.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/serve_goko/src/http/service.rs b/serve_goko/src/http/service.rs
index 24f7a21..51d4ac0 100644
--- a/serve_goko/src/http/service.rs
+++ b/serve_goko/src/http/service.rs
@@ -176,15 +176,16 @@ where
                     let response = match goko_request {
                         // A request that panics, a point of the wrong length say, must not take the connection's worker with it.
                         Ok(r) => match AssertUnwindSafe(reader.process(r)).catch_unwind().await {
-                            Ok(response) => response.map_err(|e| e.into()),
+                            Ok(Ok(response)) => Ok(response),
+                            Ok(Err(e)) => Ok(GokoResponse::Unknown(e.to_string(), 500)),
                             Err(_) => Ok(GokoResponse::Unknown("Unable to process the request.".to_string(), 500)),
                         },
                         Err(e) => {
-                            if let GokoClientError::MalformedQuery(s) = e {
-                                Ok(GokoResponse::Unknown(s.to_string(), 404))
-                            } else {
-                                Err(e)
-                            }
+                            let status = match e {
+                                GokoClientError::MalformedQuery(_) => 404,
+                                _ => 400,
+                            };
+                            Ok(GokoResponse::Unknown(e.to_string(), status))
                         },
                     };
                     match response {
-- 
2.43.0


From ac94916c9b2b820fda777433a973cf67d181ff6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:26 +0000
Subject: [PATCH 57/62] fix: a k too large to parse is a malformed query, not a
 panic

---
 serve_goko/src/http/service.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/serve_goko/src/http/service.rs b/serve_goko/src/http/service.rs
index 51d4ac0..c14a646 100644
--- a/serve_goko/src/http/service.rs
+++ b/serve_goko/src/http/service.rs
@@ -39,14 +39,14 @@ pub struct GokoHttp<D: PointCloud, P: PointParser> {
 }
 
 
-fn parse_knn_query(uri: &Uri) -> usize {
+fn parse_knn_query(uri: &Uri) -> Result<usize, GokoClientError> {
     lazy_static! {
         static ref RE: Regex = Regex::new(r"(?:^|&)k=(?P<k>\d+)").unwrap();
     }
 
     match uri.query().map(|s| RE.captures(s)).flatten() {
-        Some(caps) => caps["k"].parse::<usize>().unwrap(),
-        None => 10,
+        Some(caps) => caps["k"].parse::<usize>().map_err(|_| GokoClientError::MalformedQuery("Unable to parse k.")),
+        None => Ok(10),
     }
 }
 
@@ -75,12 +75,12 @@ pub(crate) async fn parse_http<P: PointParser>(request: Request<Body>, parser: &
         // Serve some instructions at /
         (&Method::GET, "/") => Ok(GokoRequest::Parameters(ParametersRequest)),
         (&Method::GET, "/knn") => {
-            let k = parse_knn_query(request.uri());
+            let k = parse_knn_query(request.uri())?;
             let point = parser.point(request).await?;
             Ok(GokoRequest::Knn(KnnRequest { point, k }))
         }
         (&Method::GET, "/routing_knn") => {
-            let k = parse_knn_query(request.uri());
+            let k = parse_knn_query(request.uri())?;
             let point = parser.point(request).await?;
             Ok(GokoRequest::RoutingKnn(RoutingKnnRequest { point, k }))
 
-- 
2.43.0


From bcf7a7db05b4bd16364b76c76648e2d37056e899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:26 +0000
Subject: [PATCH 58/62] fix: a content type that is not text is refused, not a
 panic

---
 serve_goko/src/parsers/msgpack_dense.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serve_goko/src/parsers/msgpack_dense.rs b/serve_goko/src/parsers/msgpack_dense.rs
index 672be86..6fa9dd8 100644
--- a/serve_goko/src/parsers/msgpack_dense.rs
+++ b/serve_goko/src/parsers/msgpack_dense.rs
@@ -56,7 +56,7 @@ impl PointParser for MsgPackDense {
         scratch_buffer.clear();
         let mut reader = match request.headers().get(CONTENT_TYPE) {
             Some(typestr) => {
-                let token = typestr.to_str().unwrap();
+                let token = typestr.to_str().map_err(|e| GokoClientError::parse(Box::new(e)))?;
                 match token {
                     "zlib" if has_zlib_header(body_buffer) => {
                         Readers::Zlib(ZlibDecoder::new(body_buffer))
-- 
2.43.0


From 40624447a221a8a2de6c2d6be97d9612bc6db493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:53 +0000
Subject: [PATCH 59/62] fix: a request counts as in flight until it is answered
 or given up, once

---
 serve_goko/src/core/internal_service.rs | 28 ++++++++++++++++++++-----
 serve_goko/src/http/message.rs          | 10 ++++++---
 serve_goko/src/http/service.rs          |  6 +++---
 3 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/serve_goko/src/core/internal_service.rs b/serve_goko/src/core/internal_service.rs
index 3aa6310..3c069a7 100644
--- a/serve_goko/src/core/internal_service.rs
+++ b/serve_goko/src/core/internal_service.rs
@@ -47,11 +47,27 @@ impl<T: Send, S: Send> Message<T, S> {
     }
 }
 
+/// Counts one request as in flight for as long as this is around.
+pub(crate) struct InFlight(Arc<atomic::AtomicU32>);
+
+impl InFlight {
+    pub(crate) fn new(counter: &Arc<atomic::AtomicU32>) -> InFlight {
+        counter.fetch_add(1, atomic::Ordering::SeqCst);
+        InFlight(Arc::clone(counter))
+    }
+}
+
+impl Drop for InFlight {
+    fn drop(&mut self) {
+        self.0.fetch_sub(1, atomic::Ordering::SeqCst);
+    }
+}
+
 #[pin_project]
 pub struct ResponseFuture<T> {
     #[pin]
     pub(crate) response: oneshot::Receiver<Result<T,InternalServiceError>>,
-    pub(crate) flight_counter: Arc<atomic::AtomicU32>,
+    pub(crate) in_flight: Option<InFlight>,
     pub(crate) error: Option<InternalServiceError>,
 }
 
@@ -60,6 +76,7 @@ impl<T> Future for ResponseFuture<T> {
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
         let this = self.project();
         if let Some(err) = this.error.take() {
+            this.in_flight.take();
             return core::task::Poll::Ready(Err(err));
         }
         else {
@@ -69,7 +86,9 @@ impl<T> Future for ResponseFuture<T> {
                     Err(e) => Err(e.into())
                 }
             });
-            this.flight_counter.fetch_sub(1, atomic::Ordering::SeqCst);
+            if res.is_ready() {
+                this.in_flight.take();
+            }
             res
         }
     }
@@ -114,8 +133,7 @@ impl<T: Send + 'static, S: Send + 'static> InternalServiceOperator<T, S> {
 
 
     pub(crate) fn message(&self, request: T) -> ResponseFuture<S> {
-        let flight_counter = Arc::clone(&self.in_flight);
-        self.in_flight.fetch_add(1, atomic::Ordering::SeqCst);
+        let in_flight = Some(InFlight::new(&self.in_flight));
         let (reply, response): (CoreResponseSender<S>, CoreResponseReciever<S>) = oneshot::channel();
         
         let msg = Message {
@@ -127,7 +145,7 @@ impl<T: Send + 'static, S: Send + 'static> InternalServiceOperator<T, S> {
         let error = self.request_snd.send(msg).err().map(|_e| InternalServiceError::FailedSend); 
         ResponseFuture {
             response,
-            flight_counter,
+            in_flight,
             error,
         }
     }
diff --git a/serve_goko/src/http/message.rs b/serve_goko/src/http/message.rs
index 8fa94da..377a992 100644
--- a/serve_goko/src/http/message.rs
+++ b/serve_goko/src/http/message.rs
@@ -9,8 +9,9 @@ use std::future::Future;
 use std::pin::Pin;
 use std::task::Poll;
 
-use std::sync::{atomic, Arc, Mutex};
+use std::sync::{Arc, Mutex};
 
+use crate::core::internal_service::InFlight;
 use crate::errors::{GokoClientError, InternalServiceError};
 
 pub(crate) type HttpResponseSender = oneshot::Sender<Result<Response<Body>, GokoClientError>>;
@@ -52,7 +53,7 @@ impl HttpMessage {
 pub struct ResponseFuture {
     #[pin]
     pub(crate) response: HttpResponseReciever,
-    pub(crate) flight_counter: Arc<atomic::AtomicU32>,
+    pub(crate) in_flight: Option<InFlight>,
     pub(crate) error: Option<GokoClientError>,
 }
 
@@ -61,6 +62,7 @@ impl Future for ResponseFuture {
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
         let this = self.project();
         if let Some(err) = this.error.take() {
+            this.in_flight.take();
             return core::task::Poll::Ready(Err(err));
         }
         else {
@@ -70,7 +72,9 @@ impl Future for ResponseFuture {
                     Err(e) => Err(GokoClientError::from(e))
                 }
             });
-            this.flight_counter.fetch_sub(1, atomic::Ordering::SeqCst);
+            if res.is_ready() {
+                this.in_flight.take();
+            }
             res
         }
     }
diff --git a/serve_goko/src/http/service.rs b/serve_goko/src/http/service.rs
index c14a646..109e5f1 100644
--- a/serve_goko/src/http/service.rs
+++ b/serve_goko/src/http/service.rs
@@ -28,6 +28,7 @@ use crate::parsers::PointBuffer;
 use crate::errors::*;
 use crate::api::*;
 use crate::core::*;
+use crate::core::internal_service::InFlight;
 
 
 pub struct GokoHttp<D: PointCloud, P: PointParser> {
@@ -209,8 +210,7 @@ where
     }
 
     pub(crate) fn message(&self, request: Request<Body>) -> ResponseFuture {
-        let flight_counter = Arc::clone(&self.in_flight);
-        self.in_flight.fetch_add(1, atomic::Ordering::SeqCst);
+        let in_flight = Some(InFlight::new(&self.in_flight));
         let (reply, response): (HttpResponseSender, HttpResponseReciever) = oneshot::channel();
         
         let msg = HttpMessage {
@@ -222,7 +222,7 @@ where
         let error = self.request_snd.send(msg).err().map(|_e| GokoClientError::Underlying(InternalServiceError::FailedSend)); 
         ResponseFuture {
             response,
-            flight_counter,
+            in_flight,
             error,
         }
     }
-- 
2.43.0


From 5189230b69c52aefcc8a115620d1703a9dc72dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:13 +0000
Subject: [PATCH 60/62] fix: registering a handle inside a read no longer
 deadlocks with the writer

The writer held the list of readers locked while it waited for a read to end, so a reader that cloned its handle before
leaving waited for the writer and the writer for the reader. The list is now released between attempts.
---
 goko/src/monomap/write.rs | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/goko/src/monomap/write.rs b/goko/src/monomap/write.rs
index 1e9ad00..d303b17 100644
--- a/goko/src/monomap/write.rs
+++ b/goko/src/monomap/write.rs
@@ -7,12 +7,12 @@ use std::hash::{BuildHasher, Hash};
 use std::mem;
 #[cfg(goko_verif)]
 use crate::verif_sync::{
-    sync::{atomic, Arc, MutexGuard},
+    sync::{atomic, Arc, Mutex, MutexGuard},
     thread,
 };
 #[cfg(not(goko_verif))]
 use std::{
-    sync::{atomic, Arc, MutexGuard},
+    sync::{atomic, Arc, Mutex, MutexGuard},
     thread,
 };
 
@@ -89,13 +89,13 @@ where
         atomic::fence(atomic::Ordering::SeqCst);
 
         // now, wait for all readers that were active when the pointer was set to NULL to depart
-        let epochs = Arc::clone(&self.epochs);
-        let mut epochs = epochs.lock().unwrap();
+        let lock = Arc::clone(&self.epochs);
+        let epochs = lock.lock().unwrap();
         self.last_epochs.resize(epochs.len(), 0);
         for (i, epoch) in epochs.iter().enumerate() {
             self.last_epochs[i] = epoch.load(atomic::Ordering::Acquire);
         }
-        self.wait(&mut epochs);
+        let _epochs = self.wait(&lock, epochs);
 
         let w_handle = &mut self.w_handle.as_mut().unwrap().data;
 
@@ -118,7 +118,11 @@ where
     V: Clone,
     M: 'static + Clone,
 {
-    fn wait(&mut self, epochs: &mut MutexGuard<Vec<Arc<atomic::AtomicUsize>>>) {
+    fn wait<'a>(
+        &mut self,
+        lock: &'a Mutex<Vec<Arc<atomic::AtomicUsize>>>,
+        mut epochs: MutexGuard<'a, Vec<Arc<atomic::AtomicUsize>>>,
+    ) -> MutexGuard<'a, Vec<Arc<atomic::AtomicUsize>>> {
         let mut iter = 0;
         let mut starti = 0;
         let high_bit = 1usize << (mem::size_of::<usize>() * 8 - 1);
@@ -144,13 +148,17 @@ where
                     if iter != 20 {
                         iter += 1;
                     } else {
+                        // the reader may be about to register another handle before it leaves
+                        drop(epochs);
                         thread::yield_now();
+                        epochs = lock.lock().unwrap();
+                        self.last_epochs.resize(epochs.len(), 0);
                     }
 
                     continue 'retry;
                 }
             }
-            break;
+            break epochs;
         }
     }
 
@@ -164,13 +172,13 @@ where
         // flag has been observed to be on for two subsequent iterations (there still may be some
         // readers present since we did the previous refresh)
         //
-        // NOTE: it is safe for us to hold the lock for the entire duration of the swap. we will
-        // only block on pre-existing readers, and they are never waiting to push onto epochs
-        // unless they have finished reading.
-        let epochs = Arc::clone(&self.epochs);
-        let mut epochs = epochs.lock().unwrap();
+        // NOTE: the readers we wait for may themselves be waiting to push onto epochs, so the lock
+        // is released between attempts. a handle made in the meantime only ever sees the current
+        // r_handle, and we hold the lock again for the entire duration of the swap.
+        let lock = Arc::clone(&self.epochs);
+        let epochs = lock.lock().unwrap();
 
-        self.wait(&mut epochs);
+        let epochs = self.wait(&lock, epochs);
 
         {
             // all the readers have left!
-- 
2.43.0


From 8d0163d2ce8cb74c515d1c0f1eb54822116c45c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:13 +0000
Subject: [PATCH 61/62] verif: the map is reachable and channel lengths can go
 stale under cfg goko_verif

---
 goko/src/verif_sync.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/goko/src/verif_sync.rs b/goko/src/verif_sync.rs
index e2e0787..df33e08 100644
--- a/goko/src/verif_sync.rs
+++ b/goko/src/verif_sync.rs
@@ -192,7 +192,10 @@ pub mod channel {
         }
         pub fn len(&self) -> usize {
             super::point();
-            self.0.len()
+            let n = self.0.len();
+            // what it says may be out of date by the time it is used
+            super::point();
+            n
         }
         pub fn is_empty(&self) -> bool {
             self.len() == 0
@@ -236,7 +239,10 @@ pub mod channel {
         }
         pub fn len(&self) -> usize {
             super::point();
-            self.0.len()
+            let n = self.0.len();
+            // what it says may be out of date by the time it is used
+            super::point();
+            n
         }
         pub fn is_empty(&self) -> bool {
             self.len() == 0
@@ -251,3 +257,8 @@ pub mod channel {
         }
     }
 }
+
+/// The map behind the layers, which is private otherwise.
+pub mod map {
+    pub use crate::monomap::*;
+}
-- 
2.43.0


From 724808c6007e008794c0eb4c6e15465ef9b2c8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:32 +0000
Subject: [PATCH 62/62] fix: building over equal points ends when the smallest
 scale underflows to zero

---
 goko/src/covertree/builders.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/goko/src/covertree/builders.rs b/goko/src/covertree/builders.rs
index a8b5b44..3750891 100644
--- a/goko/src/covertree/builders.rs
+++ b/goko/src/covertree/builders.rs
@@ -121,20 +121,23 @@ impl BuilderNode {
         /* Occasionally there's a small cluster split off of at a low min_res_index.
         This brings the scale-index down/min_res_index up quickly, locally.
         */
+        let next_scale_index = min(
+            scale_index - 1,
+            max(
+                radius.log(parameters.scale_base).ceil() as i32,
+                parameters.min_res_index,
+            ),
+        );
+        // No point is closer than a scale that underflows to zero, not even a center to itself.
+        let next_scale_vanishes = parameters.scale_base.powi(next_scale_index) == 0.0;
         let mut new_nodes = if self.covered.len() <= parameters.leaf_cutoff
             || scale_index < parameters.min_res_index
+            || next_scale_vanishes
         {
             //println!("== This is getting cut down by parameters ==");
             node.insert_singletons(self.covered.into_indexes());
             vec![]
         } else {
-            let next_scale_index = min(
-                scale_index - 1,
-                max(
-                    radius.log(parameters.scale_base).ceil() as i32,
-                    parameters.min_res_index,
-                ),
-            );
             match self.covered {
                 CoveredData::FirstCoveredData(covered) => BuilderNode::split_first(
                     &mut node,
-- 
2.43.0

