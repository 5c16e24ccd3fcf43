From 6396f193e7f7ecd6af30f60aa44a4e69f101382a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:02 +0000
Subject: [PATCH 01/15] verif: instrumented atomics and root accessor behind
 cfg(masstree_verif)

---
 src/internode.rs                |   3 +
 src/leaf24.rs                   |   3 +
 src/lib.rs                      |   4 +
 src/nodeversion.rs              |   3 +
 src/permuter24.rs               |   3 +
 src/tree.rs                     |  16 ++
 src/tree/generic.rs             |   6 +-
 src/tree/split/propagation.rs   |   3 +
 src/tree/split/root_creation.rs |   3 +
 src/verif.rs                    | 288 ++++++++++++++++++++++++++++++++
 10 files changed, 331 insertions(+), 1 deletion(-)
 create mode 100644 src/verif.rs

diff --git a/src/internode.rs b/src/internode.rs
index 48c37bb..68c8fec 100644
--- a/src/internode.rs
+++ b/src/internode.rs
@@ -59,6 +59,9 @@ use std::fmt as StdFmt;
 use std::marker::PhantomData;
 use std::mem as StdMem;
 use std::ptr as StdPtr;
+#[cfg(masstree_verif)]
+use crate::verif::atomic::{AtomicPtr, AtomicU8, AtomicU64, fence};
+#[cfg(not(masstree_verif))]
 use std::sync::atomic::{AtomicPtr, AtomicU8, AtomicU64, fence};
 
 use crate::leaf_trait::TreeInternode;
diff --git a/src/leaf24.rs b/src/leaf24.rs
index d1f3ff1..85d0743 100644
--- a/src/leaf24.rs
+++ b/src/leaf24.rs
@@ -14,6 +14,9 @@
 use std::fmt as StdFmt;
 use std::marker::PhantomData;
 use std::ptr as StdPtr;
+#[cfg(masstree_verif)]
+use crate::verif::atomic::{AtomicPtr, AtomicU8, AtomicU64};
+#[cfg(not(masstree_verif))]
 use std::sync::atomic::{AtomicPtr, AtomicU8, AtomicU64};
 
 use crate::nodeversion::NodeVersion;
diff --git a/src/lib.rs b/src/lib.rs
index abf6582..c31eb93 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -65,6 +65,8 @@
 #![warn(clippy::nursery)]
 // We use extensive benchmarking to verify #[inline(always)] placement is correct.
 #![allow(clippy::inline_always)]
+// `masstree_verif` is set by hand to compile the verification hooks in.
+#![allow(unexpected_cfgs)]
 
 // Global allocator selection (enabled via features)
 #[cfg(feature = "mimalloc")]
@@ -187,6 +189,8 @@ pub mod suffix;
 mod tracing_helpers;
 pub mod tree;
 pub mod value;
+#[cfg(masstree_verif)]
+pub mod verif;
 
 // Re-export freeze types for convenience
 pub use freeze24::Freeze24Utils;
diff --git a/src/nodeversion.rs b/src/nodeversion.rs
index 1996bbd..c4c94e3 100644
--- a/src/nodeversion.rs
+++ b/src/nodeversion.rs
@@ -22,6 +22,9 @@
 
 use std::marker::PhantomData;
 use std::sync::atomic::compiler_fence;
+#[cfg(masstree_verif)]
+use crate::verif::atomic::{AtomicU32, Ordering, fence};
+#[cfg(not(masstree_verif))]
 use std::sync::atomic::{AtomicU32, Ordering, fence};
 use std::time::{Duration, Instant};
 
diff --git a/src/permuter24.rs b/src/permuter24.rs
index ccd0ca4..a72f122 100644
--- a/src/permuter24.rs
+++ b/src/permuter24.rs
@@ -15,6 +15,9 @@
 //! Size:   bits 0-4 (5 bits, values 0-24)
 //! ```
 
+#[cfg(masstree_verif)]
+use crate::verif::atomic::{AtomicU128, Ordering};
+#[cfg(not(masstree_verif))]
 use portable_atomic::{AtomicU128, Ordering};
 
 use crate::{leaf_trait::TreePermutation, suffix::PermutationProvider};
diff --git a/src/tree.rs b/src/tree.rs
index 1fe66cd..de29613 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -7,6 +7,9 @@
 
 use std::fmt as StdFmt;
 use std::marker::PhantomData;
+#[cfg(masstree_verif)]
+use crate::verif::atomic::{AtomicPtr, AtomicUsize, Ordering as AtomicOrdering};
+#[cfg(not(masstree_verif))]
 use std::sync::atomic::{AtomicPtr, AtomicUsize, Ordering as AtomicOrdering};
 
 use crate::slot::ValueSlot;
@@ -224,6 +227,19 @@ pub(crate) enum InsertSearchResultGeneric {
     Layer { slot: usize, shift_amount: usize },
 }
 
+#[cfg(masstree_verif)]
+impl<S, L, A> MassTreeGeneric<S, L, A>
+where
+    S: ValueSlot,
+    L: TreeLeafNode<S>,
+    A: NodeAllocatorGeneric<S, L>,
+{
+    /// Verification hook: the current root node.
+    pub fn verif_root(&self) -> *const u8 {
+        self.root_ptr.load(AtomicOrdering::Acquire)
+    }
+}
+
 impl<S, L, A> Drop for MassTreeGeneric<S, L, A>
 where
     S: ValueSlot,
diff --git a/src/tree/generic.rs b/src/tree/generic.rs
index 0f8368d..261a91e 100644
--- a/src/tree/generic.rs
+++ b/src/tree/generic.rs
@@ -4,9 +4,13 @@ use std::{
     cmp::Ordering,
     marker::PhantomData,
     ptr as StdPtr,
-    sync::atomic::{AtomicPtr, AtomicUsize, Ordering as AtomicOrdering},
 };
 
+#[cfg(masstree_verif)]
+use crate::verif::atomic::{AtomicPtr, AtomicUsize, Ordering as AtomicOrdering};
+#[cfg(not(masstree_verif))]
+use std::sync::atomic::{AtomicPtr, AtomicUsize, Ordering as AtomicOrdering};
+
 use parking_lot::{Condvar, Mutex};
 use seize::{Collector, Guard, LocalGuard};
 
diff --git a/src/tree/split/propagation.rs b/src/tree/split/propagation.rs
index e09736b..eb24ea2 100644
--- a/src/tree/split/propagation.rs
+++ b/src/tree/split/propagation.rs
@@ -36,6 +36,9 @@
 #[cfg(feature = "tracing")]
 use std::time::Instant;
 
+#[cfg(masstree_verif)]
+use crate::verif::atomic::{AtomicPtr, Ordering as AtomicOrdering};
+#[cfg(not(masstree_verif))]
 use std::sync::atomic::{AtomicPtr, Ordering as AtomicOrdering};
 
 use seize::LocalGuard;
diff --git a/src/tree/split/root_creation.rs b/src/tree/split/root_creation.rs
index b870863..4e0ae94 100644
--- a/src/tree/split/root_creation.rs
+++ b/src/tree/split/root_creation.rs
@@ -9,6 +9,9 @@
 //! NOT retired. It remains tracked by the allocator and will be freed
 //! when the allocator drops. This prevents double-free.
 
+#[cfg(masstree_verif)]
+use crate::verif::atomic::{AtomicPtr, Ordering as AtomicOrdering, fence as atomic_fence};
+#[cfg(not(masstree_verif))]
 use std::sync::atomic::{AtomicPtr, Ordering as AtomicOrdering, fence as atomic_fence};
 
 use crate::NodeAllocatorGeneric;
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..e000d6f
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,288 @@
+//! Verification hooks, compiled only with `--cfg masstree_verif`.
+//!
+//! [`atomic`] holds drop-in replacements for the atomic types the nodes and the
+//! tree are made of. They perform the same operations, and report every access
+//! to the hooks installed with [`install`]: a monitor can delay the access,
+//! record it, or (for loads) hand back an older value that the memory model
+//! would also have permitted. Without hooks they behave as the plain types.
+
+use std::sync::atomic::{AtomicUsize, Ordering};
+
+/// What an access does.
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
+pub enum Kind {
+    /// A load.
+    Load,
+    /// A store.
+    Store,
+    /// A read-modify-write, successful or not.
+    Rmw,
+    /// A fence (`addr` is 0).
+    Fence,
+}
+
+/// One access to shared memory.
+#[derive(Clone, Copy, Debug)]
+pub struct Op {
+    /// What it does.
+    pub kind: Kind,
+    /// Address of the atomic object.
+    pub addr: usize,
+    /// Size of the atomic object in bytes.
+    pub size: usize,
+    /// Memory ordering requested.
+    pub order: Ordering,
+}
+
+/// Monitor callbacks.
+#[derive(Clone, Copy, Debug)]
+pub struct Hooks {
+    /// Called before every access.
+    pub before: fn(&Op),
+    /// Called with the value a load found; returns the value it yields.
+    pub loaded: fn(&Op, u128) -> u128,
+    /// Called after a store, with the old and new value.
+    pub stored: fn(&Op, u128, u128),
+    /// Called after a read-modify-write, with the value it read and the value
+    /// it wrote, if any.
+    pub updated: fn(&Op, u128, Option<u128>),
+}
+
+static HOOKS: AtomicUsize = AtomicUsize::new(0);
+
+/// Install `hooks` for the whole process.
+pub fn install(hooks: &'static Hooks) {
+    HOOKS.store(std::ptr::from_ref(hooks).expose_provenance(), Ordering::SeqCst);
+}
+
+/// Remove the hooks.
+pub fn uninstall() {
+    HOOKS.store(0, Ordering::SeqCst);
+}
+
+#[inline(always)]
+fn hooks() -> Option<&'static Hooks> {
+    let p = HOOKS.load(Ordering::Acquire);
+    if p == 0 {
+        None
+    } else {
+        // SAFETY: only `install` stores a non-zero value, from a `&'static Hooks`.
+        Some(unsafe { &*std::ptr::with_exposed_provenance::<Hooks>(p) })
+    }
+}
+
+/// Replacements for the atomic types.
+pub mod atomic {
+    use super::{Kind, Op, hooks};
+    pub use std::sync::atomic::Ordering;
+
+    /// See [`std::sync::atomic::fence`].
+    pub fn fence(order: Ordering) {
+        if let Some(h) = hooks() {
+            (h.before)(&Op { kind: Kind::Fence, addr: 0, size: 0, order });
+        }
+        std::sync::atomic::fence(order);
+    }
+
+    macro_rules! wrap {
+        ($name:ident $(<$g:ident>)?, $inner:ty, $val:ty, $to:expr, $from:expr) => {
+            /// Instrumented atomic.
+            #[repr(transparent)]
+            pub struct $name $(<$g>)? {
+                inner: $inner,
+            }
+
+            impl $(<$g>)? std::fmt::Debug for $name $(<$g>)? {
+                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+                    std::fmt::Debug::fmt(&self.inner, f)
+                }
+            }
+
+            impl $(<$g>)? std::ops::Deref for $name $(<$g>)? {
+                type Target = $inner;
+                fn deref(&self) -> &$inner {
+                    &self.inner
+                }
+            }
+
+            impl $(<$g>)? From<$val> for $name $(<$g>)? {
+                fn from(v: $val) -> Self {
+                    Self::new(v)
+                }
+            }
+
+            #[allow(missing_docs, clippy::missing_errors_doc, clippy::must_use_candidate)]
+            impl $(<$g>)? $name $(<$g>)? {
+                pub const fn new(v: $val) -> Self {
+                    Self { inner: <$inner>::new(v) }
+                }
+
+                fn op(&self, kind: Kind, order: Ordering) -> Op {
+                    Op {
+                        kind,
+                        addr: std::ptr::from_ref(self).addr(),
+                        size: size_of::<Self>(),
+                        order,
+                    }
+                }
+
+                #[inline]
+                pub fn load(&self, order: Ordering) -> $val {
+                    let Some(h) = hooks() else { return self.inner.load(order) };
+                    let op = self.op(Kind::Load, order);
+                    (h.before)(&op);
+                    let v = self.inner.load(order);
+                    let seen = ($to)(v);
+                    let yields = (h.loaded)(&op, seen);
+                    if yields == seen { v } else { ($from)(yields) }
+                }
+
+                #[inline]
+                pub fn store(&self, v: $val, order: Ordering) {
+                    let Some(h) = hooks() else { return self.inner.store(v, order) };
+                    let op = self.op(Kind::Store, order);
+                    (h.before)(&op);
+                    let old = self.inner.load(Ordering::Relaxed);
+                    self.inner.store(v, order);
+                    (h.stored)(&op, ($to)(old), ($to)(v));
+                }
+
+                #[inline]
+                pub fn swap(&self, v: $val, order: Ordering) -> $val {
+                    let Some(h) = hooks() else { return self.inner.swap(v, order) };
+                    let op = self.op(Kind::Rmw, order);
+                    (h.before)(&op);
+                    let old = self.inner.swap(v, order);
+                    (h.updated)(&op, ($to)(old), Some(($to)(v)));
+                    old
+                }
+
+                #[inline]
+                pub fn compare_exchange(
+                    &self,
+                    current: $val,
+                    new: $val,
+                    success: Ordering,
+                    failure: Ordering,
+                ) -> Result<$val, $val> {
+                    let Some(h) = hooks() else {
+                        return self.inner.compare_exchange(current, new, success, failure);
+                    };
+                    let mut op = self.op(Kind::Rmw, success);
+                    (h.before)(&op);
+                    let r = self.inner.compare_exchange(current, new, success, failure);
+                    match r {
+                        Ok(old) => (h.updated)(&op, ($to)(old), Some(($to)(new))),
+                        Err(old) => {
+                            op.order = failure;
+                            (h.updated)(&op, ($to)(old), None);
+                        }
+                    }
+                    r
+                }
+
+                #[inline]
+                pub fn compare_exchange_weak(
+                    &self,
+                    current: $val,
+                    new: $val,
+                    success: Ordering,
+                    failure: Ordering,
+                ) -> Result<$val, $val> {
+                    self.compare_exchange(current, new, success, failure)
+                }
+
+                pub fn get_mut(&mut self) -> &mut $val {
+                    self.inner.get_mut()
+                }
+
+                pub fn into_inner(self) -> $val {
+                    self.inner.into_inner()
+                }
+
+                #[inline]
+                pub fn fetch_update<F: FnMut($val) -> Option<$val>>(
+                    &self,
+                    set_order: Ordering,
+                    fetch_order: Ordering,
+                    mut f: F,
+                ) -> Result<$val, $val> {
+                    let mut prev = self.load(fetch_order);
+                    while let Some(next) = f(prev) {
+                        match self.compare_exchange(prev, next, set_order, fetch_order) {
+                            Ok(v) => return Ok(v),
+                            Err(v) => prev = v,
+                        }
+                    }
+                    Err(prev)
+                }
+            }
+        };
+    }
+
+    macro_rules! fetch {
+        ($name:ident, $val:ty, $($f:ident => $e:expr),*) => {
+            #[allow(missing_docs)]
+            impl $name {
+                $(
+                #[inline]
+                pub fn $f(&self, v: $val, order: Ordering) -> $val {
+                    let Some(h) = hooks() else { return self.inner.$f(v, order) };
+                    let op = self.op(Kind::Rmw, order);
+                    (h.before)(&op);
+                    let old = self.inner.$f(v, order);
+                    let new: $val = ($e)(old, v);
+                    (h.updated)(&op, u128::from_le_bytes(le(old)), Some(u128::from_le_bytes(le(new))));
+                    old
+                }
+                )*
+            }
+        };
+    }
+
+    trait Le: Copy {
+        fn le(self) -> [u8; 16];
+    }
+
+    macro_rules! le_impl {
+        ($($t:ty),*) => { $(impl Le for $t {
+            fn le(self) -> [u8; 16] {
+                let mut b = [0u8; 16];
+                b[..size_of::<$t>()].copy_from_slice(&self.to_le_bytes());
+                b
+            }
+        })* };
+    }
+    le_impl!(u8, u32, u64, usize, u128);
+
+    fn le<T: Le>(v: T) -> [u8; 16] {
+        v.le()
+    }
+
+    macro_rules! wrap_int {
+        ($name:ident, $inner:ty, $val:ty) => {
+            wrap!($name, $inner, $val, |v: $val| u128::from_le_bytes(le(v)), |v: u128| v as $val);
+            fetch!($name, $val,
+                fetch_add => |o: $val, v: $val| o.wrapping_add(v),
+                fetch_sub => |o: $val, v: $val| o.wrapping_sub(v),
+                fetch_or => |o: $val, v: $val| o | v,
+                fetch_and => |o: $val, v: $val| o & v,
+                fetch_xor => |o: $val, v: $val| o ^ v,
+                fetch_max => |o: $val, v: $val| o.max(v),
+                fetch_min => |o: $val, v: $val| o.min(v));
+        };
+    }
+
+    wrap_int!(AtomicU8, std::sync::atomic::AtomicU8, u8);
+    wrap_int!(AtomicU32, std::sync::atomic::AtomicU32, u32);
+    wrap_int!(AtomicU64, std::sync::atomic::AtomicU64, u64);
+    wrap_int!(AtomicUsize, std::sync::atomic::AtomicUsize, usize);
+    wrap_int!(AtomicU128, portable_atomic::AtomicU128, u128);
+    wrap!(
+        AtomicPtr<T>,
+        std::sync::atomic::AtomicPtr<T>,
+        *mut T,
+        |v: *mut T| v.expose_provenance() as u128,
+        |v: u128| std::ptr::with_exposed_provenance_mut(v as usize)
+    );
+}
-- 
2.43.0


From 72e875256d979b07bedc2eeb5f39aa3a39497ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:02 +0000
Subject: [PATCH 02/15] fix: never split a leaf inside a group of equal leading
 slices

---
 src/leaf24.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/leaf24.rs b/src/leaf24.rs
index 85d0743..1a06b1c 100644
--- a/src/leaf24.rs
+++ b/src/leaf24.rs
@@ -1214,18 +1214,17 @@ impl<S: ValueSlot + Send + Sync + 'static> crate::leaf_trait::TreeLeafNode<S> fo
             if left_ikey == right_ikey {
                 // Equal keys - check if insert_ikey matches
                 match insert_ikey.cmp(&left_ikey) {
-                    std::cmp::Ordering::Equal => {
-                        // Insert goes with this group - move split right
+                    std::cmp::Ordering::Equal | std::cmp::Ordering::Greater => {
+                        // Insert goes with or after this group - move split right,
+                        // past the group (its keys must not be separated: the
+                        // separator is their common ikey, so those left behind
+                        // would be unreachable)
                         split_pos += 1;
                     }
                     std::cmp::Ordering::Less => {
                         // Insert goes left - move split left
                         split_pos -= 1;
                     }
-                    std::cmp::Ordering::Greater => {
-                        // Insert goes right - done
-                        break;
-                    }
                 }
             } else {
                 break;
-- 
2.43.0


From 189bb6b73d0d37eaff4b18eab0a7c9dcd53383e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:17 +0000
Subject: [PATCH 03/15] fix: is_empty decides on one load of the root

---
 src/tree/generic.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/tree/generic.rs b/src/tree/generic.rs
index 261a91e..54d73d1 100644
--- a/src/tree/generic.rs
+++ b/src/tree/generic.rs
@@ -172,10 +172,13 @@ where
     #[must_use]
     #[inline(always)]
     pub fn is_empty(&self) -> bool {
-        if self.root_is_leaf_generic() {
-            // SAFETY: root_is_leaf_generic confirmed this is a leaf
-            let leaf_ptr: *const L = self.root_ptr.load(AtomicOrdering::Acquire).cast();
-            unsafe { (*leaf_ptr).is_empty() }
+        // Load the root once: a concurrent split may replace a leaf root by an
+        // internode between two loads.
+        let root: *const u8 = self.root_ptr.load(AtomicOrdering::Acquire);
+
+        if Self::is_leaf_generic(root) {
+            // SAFETY: is_leaf_generic confirmed this is a leaf
+            unsafe { (*root.cast::<L>()).is_empty() }
         } else {
             // Internode implies at least one key
             false
@@ -229,10 +232,10 @@ where
             .map(|_| ())
     }
 
-    /// Check if the current root is a leaf node.
+    /// Check if a root loaded from `root_ptr` is a leaf node.
     ///
     /// # Safety
-    /// Reads the version field through a raw pointer. The `root_ptr` must
+    /// Reads the version field through a raw pointer. The root must
     /// point to a valid node (guaranteed by construction).
     #[inline(always)]
     #[expect(
@@ -240,9 +243,7 @@ where
         reason = "root_ptr points to L or L::Internode, both have NodeVersion \
                   as first field with proper alignment"
     )]
-    fn root_is_leaf_generic(&self) -> bool {
-        let root: *const u8 = self.root_ptr.load(AtomicOrdering::Acquire);
-
+    fn is_leaf_generic(root: *const u8) -> bool {
         // SAFETY: `root_ptr` always points to a valid node.
         // `NodeVersion` is the first field of both leaf and internode types.
         let version_ptr: *const NodeVersion = root.cast::<NodeVersion>();
-- 
2.43.0


From e58408a9e273ba1595d16a18af8fd99ed94f49f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:27 +0000
Subject: [PATCH 04/15] fix: readers revalidate nodes that are being modified

has_changed() ignores INSERTING_BIT, so a lookup that overlapped a locked
modification could accept what it read in the middle of it: a leaf slot
between value and layer pointer (key not found) or an internode being
shifted (routed into a leaf right of the key, where a later insert lost it).
---
 src/tree/generic.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tree/generic.rs b/src/tree/generic.rs
index 54d73d1..142729d 100644
--- a/src/tree/generic.rs
+++ b/src/tree/generic.rs
@@ -589,7 +589,7 @@ where
                     }
 
                     // Validate version AFTER all reads
-                    if leaf.version().has_changed(version) {
+                    if leaf.version().has_changed_or_locked(version) {
                         let (advanced, new_version) =
                             self.advance_to_key_generic(leaf, key, version, guard);
 
@@ -747,7 +747,7 @@ where
                     }
 
                     // Validate version AFTER all reads
-                    if leaf.version().has_changed(version) {
+                    if leaf.version().has_changed_or_locked(version) {
                         // Version changed - follow B-link chain if split occurred
                         let (advanced, new_version) =
                             self.advance_to_key_generic(leaf, key, version, guard);
@@ -914,7 +914,7 @@ where
             }
 
             // Check if internode changed during our read
-            if inode.version().has_changed(v) {
+            if inode.version().has_changed_or_locked(v) {
                 // Version changed - check for split
                 if inode.version().has_split(v) {
                     // Key might have escaped to sibling - retry from start
-- 
2.43.0


From fa1285a722c00eb478e4a15cbf3f33f44727cb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:34 +0000
Subject: [PATCH 05/15] fix: stay in the layer when an insert exceeds the
 B-link hop limit

The retry started at the main root with a key already shifted into a
sublayer, so the key was stored under the wrong prefix.
---
 src/tree/generic.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tree/generic.rs b/src/tree/generic.rs
index 142729d..3f40126 100644
--- a/src/tree/generic.rs
+++ b/src/tree/generic.rs
@@ -1591,9 +1591,10 @@ where
             // B-link advance if needed
             let (leaf, exceeded_hop_limit) = self.advance_to_key_by_bound_generic(leaf, key, guard);
 
-            // If we exceeded the hop limit, re-traverse from root
+            // If we exceeded the hop limit, re-traverse from the root of this layer
+            // (`key` is already shifted to it; `maybe_parent_generic` finds its
+            // current root).
             if exceeded_hop_limit {
-                layer_root = self.load_root_ptr_generic(guard);
                 continue;
             }
 
-- 
2.43.0


From 4b32d03a365ea4fa9fab22bf592c92cdabea7ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:40 +0000
Subject: [PATCH 06/15] fix: never change a published suffix bag in place

assign_ksuf appended to the bag that concurrent lookups were reading: a
data race (and, through &mut, undefined behaviour) even though lookups
validate the version afterwards.
---
 src/leaf24.rs | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/src/leaf24.rs b/src/leaf24.rs
index 1a06b1c..1ce4deb 100644
--- a/src/leaf24.rs
+++ b/src/leaf24.rs
@@ -404,21 +404,9 @@ impl<S: ValueSlot> LeafNode24<S> {
 
         let old_ptr: *mut SuffixBag<WIDTH_24> = self.ksuf.load(RELAXED);
 
-        // FAST PATH: Try in-place assignment if bag exists and has room.
-        // This avoids clone + box allocation + defer_retire in the common case.
-        // SAFETY: We hold the lock, so no concurrent writers. Readers use version
-        // validation and will retry if they see partial state.
-        if !old_ptr.is_null() {
-            // SAFETY: old_ptr is non-null and came from Box::into_raw.
-            // We hold the lock, so we can mutate the bag in place.
-            let bag: &mut SuffixBag<WIDTH_24> = unsafe { &mut *old_ptr };
-            if bag.try_assign_in_place(slot, suffix) {
-                self.keylenx[slot].store(KSUF_KEYLENX, WRITE_ORD);
-                return;
-            }
-        }
-
-        // SLOW PATH: Need to allocate a new bag (either first allocation or bag is full)
+        // Always copy: lookups read the published bag without holding the lock, so
+        // it must not change. (Validating the version afterwards does not help
+        // them: changing the bag under them is a data race.)
         let mut new_bag: SuffixBag<WIDTH_24> = if old_ptr.is_null() {
             SuffixBag::new()
         } else {
-- 
2.43.0


From 0db6df033f1eb766598c9db065a486ff8296420a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:48 +0000
Subject: [PATCH 07/15] fix: reclaim the bytes of cleared suffixes

A leaf that is split repeatedly (keys inserted in descending order) kept,
and copied at every change, all suffixes it ever held.
---
 src/leaf24.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/leaf24.rs b/src/leaf24.rs
index 1ce4deb..261c66e 100644
--- a/src/leaf24.rs
+++ b/src/leaf24.rs
@@ -455,6 +455,9 @@ impl<S: ValueSlot> LeafNode24<S> {
         // SAFETY: old_ptr is non-null and came from Box::into_raw
         let mut new_bag: SuffixBag<WIDTH_24> = unsafe { (*old_ptr).clone() };
         new_bag.clear(slot);
+        // Drop the bytes of this slot as well: otherwise a leaf that is split again
+        // and again carries (and copies) every suffix it ever held.
+        new_bag.compact(0..WIDTH_24);
         let new_ptr: *mut SuffixBag<WIDTH_24> = Box::into_raw(Box::new(new_bag));
 
         self.ksuf.store(new_ptr, WRITE_ORD);
-- 
2.43.0


From e72422944d50b42defd49ff2076944063ec0aa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:58 +0000
Subject: [PATCH 08/15] fix: reject a guard of another tree

A guard only protects the nodes and values of the tree it was taken from;
with another one get_ref could return a dangling reference from safe code.
---
 src/tree/generic.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/tree/generic.rs b/src/tree/generic.rs
index 3f40126..2e06970 100644
--- a/src/tree/generic.rs
+++ b/src/tree/generic.rs
@@ -269,6 +269,20 @@ where
         &self.collector
     }
 
+    /// Check that a guard passed by the user comes from this tree.
+    ///
+    /// A guard of another tree does not protect the nodes and values of this one.
+    ///
+    /// # Panics
+    /// If the guard belongs to a different collector.
+    #[inline(always)]
+    fn check_guard(&self, guard: &LocalGuard<'_>) {
+        assert!(
+            *guard.collector() == self.collector,
+            "guard does not belong to this tree"
+        );
+    }
+
     /// Increment the entry count.
     #[inline(always)]
     pub(crate) fn inc_count(&self) {
@@ -466,6 +480,7 @@ where
     #[must_use]
     #[inline(always)]
     pub fn get_with_guard(&self, key: &[u8], guard: &LocalGuard<'_>) -> Option<S::Output> {
+        self.check_guard(guard);
         let mut search_key: Key<'_> = Key::new(key);
         self.get_concurrent_generic(&mut search_key, guard)
     }
@@ -492,6 +507,7 @@ where
     #[must_use]
     #[inline(always)]
     pub fn get_ref<'g>(&self, key: &[u8], guard: &'g LocalGuard<'_>) -> Option<&'g S::Value> {
+        self.check_guard(guard);
         let mut search_key: Key<'_> = Key::new(key);
         self.get_ref_generic(&mut search_key, guard)
     }
@@ -1540,6 +1556,7 @@ where
         value: S::Value,
         guard: &LocalGuard<'_>,
     ) -> Result<Option<S::Output>, InsertError> {
+        self.check_guard(guard);
         let mut key = Key::new(key);
         let output = S::into_output(value);
         self.insert_concurrent_generic(&mut key, output, guard)
-- 
2.43.0


From 0f1a527e4917496dcfb4f27428d4d1e9554bf35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:45 +0000
Subject: [PATCH 09/15] fix: lookups wait for a split that is linking its
 sibling

With the next pointer marked, a lookup that had reached the leaf through a
stale parent gave up instead of checking the sibling, and missed a key.
---
 src/tree/generic.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/tree/generic.rs b/src/tree/generic.rs
index 2e06970..b7dcf1f 100644
--- a/src/tree/generic.rs
+++ b/src/tree/generic.rs
@@ -642,8 +642,14 @@ where
                     }
 
                     let next_raw: *mut L = leaf.next_raw();
+                    if is_marked(next_raw) {
+                        // Another split of this leaf has begun: the key may be in a
+                        // sibling linked before. Search again when it is done.
+                        version = leaf.version().stable();
+                        continue 'search_loop;
+                    }
                     let next_ptr: *mut L = unmark_ptr(next_raw);
-                    if !next_ptr.is_null() && !is_marked(next_raw) {
+                    if !next_ptr.is_null() {
                         let next_bound: u64 = unsafe { (*next_ptr).ikey_bound() };
                         if target_ikey >= next_bound {
                             leaf_ptr = next_ptr;
@@ -807,8 +813,14 @@ where
 
                     // Check if key belongs to a right sibling via B-link
                     let next_raw: *mut L = leaf.next_raw();
+                    if is_marked(next_raw) {
+                        // Another split of this leaf has begun: the key may be in a
+                        // sibling linked before. Search again when it is done.
+                        version = leaf.version().stable();
+                        continue 'search_loop;
+                    }
                     let next_ptr: *mut L = unmark_ptr(next_raw);
-                    if !next_ptr.is_null() && !is_marked(next_raw) {
+                    if !next_ptr.is_null() {
                         // SAFETY: next_ptr is valid
                         let next_bound: u64 = unsafe { (*next_ptr).ikey_bound() };
                         if target_ikey >= next_bound {
-- 
2.43.0


From 6ef08cef2a6784276ce72905a8f522d1accda9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:42 +0000
Subject: [PATCH 10/15] fix: never read past the slice when counting keys

The AVX2 version of count_le_u64 trusted the given size, so a size larger
than the slice read out of bounds (the scalar version stops at the end).
---
 src/ksearch/simd.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ksearch/simd.rs b/src/ksearch/simd.rs
index ed63f5b..c9854b4 100644
--- a/src/ksearch/simd.rs
+++ b/src/ksearch/simd.rs
@@ -251,6 +251,8 @@ mod avx2_impl {
     #[allow(clippy::indexing_slicing)]
     #[allow(clippy::cast_possible_wrap)]
     pub unsafe fn count_le_u64_avx2(keys: &[u64], size: usize, target: u64) -> usize {
+        // Never read past the slice (matches the scalar version's `take(size)`)
+        let size = size.min(keys.len());
         if size == 0 {
             return 0;
         }
-- 
2.43.0


From bcd0906d7898cc418e1685c9ca2fd8b06a68d6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:34 +0000
Subject: [PATCH 11/15] fix: count keys as unsigned in the AVX2 search

_mm256_cmpgt_epi64 compares signed numbers, so count_le_u64 gave wrong
answers whenever the target or a key had its top bit set.
---
 src/ksearch/simd.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ksearch/simd.rs b/src/ksearch/simd.rs
index c9854b4..6b5cc05 100644
--- a/src/ksearch/simd.rs
+++ b/src/ksearch/simd.rs
@@ -258,7 +258,10 @@ mod avx2_impl {
         }
 
         unsafe {
-            let target_vec = _mm256_set1_epi64x(target as i64);
+            // AVX2 only has a signed comparison: flipping the sign bit on both
+            // sides makes it order the keys as unsigned numbers
+            let sign = _mm256_set1_epi64x(i64::MIN);
+            let target_vec = _mm256_xor_si256(_mm256_set1_epi64x(target as i64), sign);
             let mut count = 0;
             let mut i = 0;
 
@@ -268,7 +271,7 @@ mod avx2_impl {
 
                 // AVX2 has _mm256_cmpgt_epi64: gives 1s where key > target
                 // We want key <= target, which is !(key > target)
-                let gt = _mm256_cmpgt_epi64(keys_vec, target_vec);
+                let gt = _mm256_cmpgt_epi64(_mm256_xor_si256(keys_vec, sign), target_vec);
                 let mask = _mm256_movemask_epi8(gt);
 
                 // Count lanes where key <= target (i.e., gt mask is 0)
-- 
2.43.0


From ddb3aba7283643ba8d48e78a15ce7e433473436b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:12 +0000
Subject: [PATCH 12/15] verif: reach the SSE searches behind
 cfg(masstree_verif)

---
 src/ksearch/simd.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ksearch/simd.rs b/src/ksearch/simd.rs
index 6b5cc05..162686e 100644
--- a/src/ksearch/simd.rs
+++ b/src/ksearch/simd.rs
@@ -488,6 +488,17 @@ mod find_all_impl {
 #[cfg(target_arch = "x86_64")]
 use find_all_impl::{find_all_matches_u64_avx2, find_all_matches_u64_sse2};
 
+// ============================================================================
+//  Verification hook
+// ============================================================================
+
+/// The SSE variants, which are otherwise only reachable on CPUs without AVX2.
+#[cfg(all(masstree_verif, target_arch = "x86_64"))]
+pub mod verif_sse {
+    pub use super::find_all_impl::find_all_matches_u64_sse2;
+    pub use super::sse2_impl::find_exact_u64_sse2;
+}
+
 // ============================================================================
 //  Tests
 // ============================================================================
-- 
2.43.0


From 57dca748aade265ca43627e75c4ce6d237d1047c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:17 +0000
Subject: [PATCH 13/15] fix: order the lock and dirty marks before relaxed
 stores made under them

Taking the lock and setting a mark were not followed by a release fence, so
relaxed stores made under the lock (taking a value out of a slot, shifting an
internode's keys) could become visible before the mark: a reader could see a
half-made change and still validate the old version.
---
 src/nodeversion.rs | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/nodeversion.rs b/src/nodeversion.rs
index c4c94e3..0b329e3 100644
--- a/src/nodeversion.rs
+++ b/src/nodeversion.rs
@@ -226,7 +226,7 @@ impl LockGuard<'_> {
                 .value
                 .store(value | INSERTING_BIT, Ordering::Release);
 
-            fence(Ordering::Acquire);
+            fence(Ordering::AcqRel);
 
             self.locked_value |= INSERTING_BIT;
         }
@@ -247,7 +247,7 @@ impl LockGuard<'_> {
     /// 3. Split operations need the split version counter incremented
     ///
     /// # Memory Ordering
-    /// Uses [`Ordering::Release`] followed by [`Ordering::Acquire`] fence.
+    /// Uses [`Ordering::Release`] followed by an [`Ordering::AcqRel`] fence.
     #[inline]
     pub fn mark_split(&mut self) {
         // INVARIANT: lock is held, so no concurrent modifications possible.
@@ -257,9 +257,9 @@ impl LockGuard<'_> {
             .value
             .store(value | SPLITTING_BIT, Ordering::Release);
 
-        // Acquire fence ensures subsequent structural modifications
-        // cannot be reordered before the dirty bit becomes visible.
-        fence(Ordering::Acquire);
+        // The fence ensures subsequent structural modifications (relaxed
+        // stores included) cannot become visible before the dirty bit.
+        fence(Ordering::AcqRel);
 
         self.locked_value |= SPLITTING_BIT;
     }
@@ -269,7 +269,7 @@ impl LockGuard<'_> {
     /// Also sets the splitting bit to bump version on unlock.
     ///
     /// # Memory Ordering
-    /// Same as [`mark_insert()`]: Release store followed by Acquire fence.
+    /// Same as [`mark_insert()`]: Release store followed by AcqRel fence.
     #[inline(always)]
     pub fn mark_deleted(&mut self) {
         // INVARIANT: lock is held, so no concurrent modifications possible.
@@ -278,9 +278,9 @@ impl LockGuard<'_> {
 
         self.version().value.store(new_value, Ordering::Release);
 
-        // Acquire fence ensures subsequent structural modifications
-        // cannot be reordered before the dirty bit becomes visible.
-        fence(Ordering::Acquire);
+        // The fence ensures subsequent structural modifications (relaxed
+        // stores included) cannot become visible before the dirty bit.
+        fence(Ordering::AcqRel);
 
         self.locked_value = new_value;
     }
@@ -638,6 +638,10 @@ impl NodeVersion {
                     .compare_exchange_weak(value, locked, Ordering::Acquire, Ordering::Relaxed)
                     .is_ok()
                 {
+                    // A reader that sees any store made under the lock, relaxed
+                    // ones included, must see the lock when it validates.
+                    fence(Ordering::Release);
+
                     #[expect(clippy::cast_possible_truncation)]
                     #[cfg(feature = "tracing")]
                     {
@@ -703,12 +707,17 @@ impl NodeVersion {
             .value
             .compare_exchange(value, locked, Ordering::Acquire, Ordering::Relaxed)
         {
-            Ok(_) => Some(LockGuard {
-                version: std::ptr::from_ref(self),
-                locked_value: locked,
-                _lifetime: PhantomData,
-                _marker: PhantomData,
-            }),
+            Ok(_) => {
+                // As in `lock()`.
+                fence(Ordering::Release);
+
+                Some(LockGuard {
+                    version: std::ptr::from_ref(self),
+                    locked_value: locked,
+                    _lifetime: PhantomData,
+                    _marker: PhantomData,
+                })
+            }
 
             Err(_) => None,
         }
-- 
2.43.0


From 445b703c092e2c6812d03f4f3cd46a5add83b04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:30 +0000
Subject: [PATCH 14/15] verif: report the fence of link_sibling under
 cfg(masstree_verif)

---
 src/leaf24.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/leaf24.rs b/src/leaf24.rs
index 261c66e..3ee4190 100644
--- a/src/leaf24.rs
+++ b/src/leaf24.rs
@@ -1467,6 +1467,9 @@ impl<S: ValueSlot + Send + Sync + 'static> crate::leaf_trait::TreeLeafNode<S> fo
         }
 
         // Step 4: Release fence ensures new_sibling is fully visible before publishing
+        #[cfg(masstree_verif)]
+        crate::verif::atomic::fence(std::sync::atomic::Ordering::Release);
+        #[cfg(not(masstree_verif))]
         std::sync::atomic::fence(std::sync::atomic::Ordering::Release);
 
         // Step 5: Store new_sibling (unmarked) - atomically publishes the link
-- 
2.43.0


From 90ef3490faff69f981d5357bf0b2e81806aae57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:43 +0000
Subject: [PATCH 15/15] fix: do not count retries of one level against the
 propagation limit

A parent that splits again and again while a child's split waits for its
lock made an insert panic after 64 retries, although the tree was sound.
---
 src/tree/split/propagation.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tree/split/propagation.rs b/src/tree/split/propagation.rs
index eb24ea2..ed35270 100644
--- a/src/tree/split/propagation.rs
+++ b/src/tree/split/propagation.rs
@@ -312,6 +312,9 @@ impl Propagation {
                     new = ?current_left_parent,
                     "PROPAGATE_LOOP: parent pointer changed after lock, retrying"
                 );
+                // Not another level: the parent can split any number of times while
+                // this thread waits for its lock.
+                iterations -= 1;
                 drop(parent_lock); // RAII: auto-unlock
                 stale_parent_retries = 0; // Reset: parent changed, not stale
                 std::hint::spin_loop();
-- 
2.43.0

