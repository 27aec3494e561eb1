From aa8cf614bf7e311294d5852287e00a209b071229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:13 +0000
Subject: [PATCH 1/3] fix: forward_by must not overflow for large offsets

index.index + offset wrapped around in release builds, so a large offset
could move the index backwards (and panicked in debug builds).
---
 src/container.rs | 2 +-
 src/indexing.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/container.rs b/src/container.rs
index 2c54fb6..bf8efee 100644
--- a/src/container.rs
+++ b/src/container.rs
@@ -217,7 +217,7 @@ impl<'id, Array, T, Mode> Container<'id, Array, Mode>
     /// Return `true` if the index was incremented.
     #[inline]
     pub fn forward_by(&self, index: &mut Index<'id>, offset: usize) -> bool {
-        let i = index.index + offset;
+        let i = index.index.saturating_add(offset);
         if i < self.len() {
             index.index = i;
             true
diff --git a/src/indexing.rs b/src/indexing.rs
index c701ab0..46b9283 100644
--- a/src/indexing.rs
+++ b/src/indexing.rs
@@ -265,7 +265,7 @@ impl<'id, P> Range<'id, P> {
     /// Return `true` if the index was incremented.
     #[inline]
     pub fn forward_by(&self, index: &mut Index<'id>, offset: usize) -> bool {
-        let i = index.index + offset;
+        let i = index.index.saturating_add(offset);
         if i < self.end {
             index.index = i;
             true
-- 
2.43.0


From e25e13aa26ee8a9237335ec0d408bf266c27ff99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:13 +0000
Subject: [PATCH 2/3] fix: split_container_at_pointer needs a ContiguousMut
 container

It hands out Container<&mut [T]> for both halves, which is only sound when
the container itself has mutable access to the elements.
---
 src/pointer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointer.rs b/src/pointer.rs
index 9a7168e..e4bf190 100644
--- a/src/pointer.rs
+++ b/src/pointer.rs
@@ -377,7 +377,7 @@ impl<'id, T, Array> Container<'id, Array> where Array: Contiguous<Item=T> {
         }
     }
 }
-impl<'id, T, Array> Container<'id, Array> where Array: Contiguous<Item=T> {
+impl<'id, T, Array> Container<'id, Array> where Array: ContiguousMut<Item=T> {
     #[inline]
     pub fn split_container_at_pointer<P, F, Out>(&mut self, index: PIndex<'id, T, P>, f: F) -> Out
         //-> (PRange<'id, T>, PRange<'id, T, P>)
-- 
2.43.0


From 0ee3a9f705ae9b76f883fbd4398e33ca5508d954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:19 +0000
Subject: [PATCH 3/3] fix: scan_tail_ must not accept a past-the-end pointer
 index

The result always includes the element at index, so index has to point at an
element; an edge PIndex produced a range one past the end of the container.
---
 src/pointer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointer.rs b/src/pointer.rs
index e4bf190..0636126 100644
--- a/src/pointer.rs
+++ b/src/pointer.rs
@@ -306,7 +306,7 @@ impl<'id, T, Array> Container<'id, Array> where Array: Contiguous<Item=T> {
     ///
     /// Result always includes `index` in the range
     #[inline]
-    pub fn scan_tail_<P, F>(&self, index: PIndex<'id, T, P>, mut f: F) -> PRange<'id, T, P>
+    pub fn scan_tail_<F>(&self, index: PIndex<'id, T>, mut f: F) -> PRange<'id, T, NonEmpty>
         where F: FnMut(&T) -> bool
     {
         unsafe {
-- 
2.43.0

