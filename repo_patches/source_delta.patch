From 278fac42a398058a6394c218e32a3e477284c7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:35 +0000
Subject: [PATCH 1/9] fix: return None for out-of-bounds Flatten views

---
 src/collection/flatten.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/collection/flatten.rs b/src/collection/flatten.rs
index 12903d5..949e3cc 100644
--- a/src/collection/flatten.rs
+++ b/src/collection/flatten.rs
@@ -154,11 +154,13 @@ impl<C: Collection, const N: usize> Collection for Flatten<C, N> {
     type Owned = [C::Owned; N];
 
     fn view(&self, index: usize) -> Option<Self::View<'_>> {
-        Some(FlattenView(array::from_fn(|idx| {
-            self.0
-                .view(index.strict_mul(N).strict_add(idx))
-                .expect("out of bounds")
-        })))
+        (index < self.len()).then(|| {
+            FlattenView(array::from_fn(|idx| {
+                self.0
+                    .view(index.strict_mul(N).strict_add(idx))
+                    .expect("out of bounds")
+            }))
+        })
     }
 
     type Iter<'collection>
-- 
2.43.0


From 64b9505b9c7b169b273bbaf1be1c37f903cabba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:35 +0000
Subject: [PATCH 2/9] fix: return None for views at indices that overflow
 offsets

---
 src/offset.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/offset.rs b/src/offset.rs
index a549595..48c1a8a 100644
--- a/src/offset.rs
+++ b/src/offset.rs
@@ -443,7 +443,7 @@ impl<T: Collection, OffsetItem: Offset, Storage: Buffer, U: FromIterator<T::Owne
 
     fn view(&self, index: usize) -> Option<Self::View<'_>> {
         let start = self.offsets.owned(index);
-        let end = self.offsets.owned(index.strict_add(1));
+        let end = self.offsets.owned(index.checked_add(1)?);
         start.zip(end).map(|(s, e)| OffsetView {
             collection: self,
             start: s.as_usize(),
@@ -700,7 +700,7 @@ impl<T: Collection, OffsetItem: Offset, Storage: Buffer, U> Collection
     type Owned = T::Owned;
 
     fn view(&self, index: usize) -> Option<Self::View<'_>> {
-        let idx = self.start.strict_add(index);
+        let idx = self.start.checked_add(index)?;
         if idx < self.end {
             self.collection.data.view(idx)
         } else {
-- 
2.43.0


From 67e6a02cd6c8129fbca16fadf89e94c96393f532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:35 +0000
Subject: [PATCH 3/9] fix: stop at the first None when constructing a bitmap

---
 src/bitmap/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bitmap/mod.rs b/src/bitmap/mod.rs
index 0e51160..4549668 100644
--- a/src/bitmap/mod.rs
+++ b/src/bitmap/mod.rs
@@ -398,6 +398,7 @@ impl<T: Borrow<bool>, Storage: Buffer<For<u8>: CollectionAlloc>> FromIterator<T>
         let mut bits: usize = 0;
         let buffer = iter
             .into_iter()
+            .fuse()
             .inspect(|_| {
                 bits = bits.strict_add(1);
             })
@@ -457,6 +458,7 @@ impl<Storage: Buffer<For<u8>: CollectionAllocIn>> CollectionAllocIn for Bitmap<S
         let mut bits: usize = 0;
         let buffer = Storage::For::<u8>::from_iter_in(
             iter.into_iter()
+                .fuse()
                 .inspect(|_| bits = bits.strict_add(1))
                 .bit_packed(),
             alloc,
@@ -485,6 +487,7 @@ impl<Storage: Buffer<For<u8>: CollectionAllocIn>> CollectionAllocIn for Bitmap<S
         let mut bits: usize = 0;
         let buffer = Storage::For::<u8>::try_from_iter_in(
             iter.into_iter()
+                .fuse()
                 .inspect(|_| bits = bits.strict_add(1))
                 .bit_packed(),
             alloc,
-- 
2.43.0


From 3f7823c378946de31e32fdfa0ff4bcf23aa40e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:05 +0000
Subject: [PATCH 4/9] fix: keep Flatten chunks aligned after a panicking
 extension

---
 src/collection/flatten.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/collection/flatten.rs b/src/collection/flatten.rs
index 949e3cc..25bd99a 100644
--- a/src/collection/flatten.rs
+++ b/src/collection/flatten.rs
@@ -133,9 +133,25 @@ impl<C: Collection, const N: usize> Length for Flatten<C, N> {
     }
 }
 
+/// Guard that drops an incomplete trailing chunk from a child collection, so a
+/// panicking extension can not misalign the chunks of later extensions.
+struct CompleteChunks<'child, C: CollectionRealloc, const N: usize>(&'child mut C);
+
+impl<C: CollectionRealloc, const N: usize> Drop for CompleteChunks<'_, C, N> {
+    fn drop(&mut self) {
+        let len = self.0.len();
+        if let Some(incomplete) = len.checked_rem(N)
+            && incomplete != 0
+        {
+            self.0.truncate(len.strict_sub(incomplete));
+        }
+    }
+}
+
 impl<C: CollectionRealloc, const N: usize> Extend<[C::Owned; N]> for Flatten<C, N> {
     fn extend<I: IntoIterator<Item = [C::Owned; N]>>(&mut self, iter: I) {
-        self.0.extend(iter.into_iter().flatten());
+        let guard = CompleteChunks::<C, N>(&mut self.0);
+        guard.0.extend(iter.into_iter().flatten());
     }
 }
 
@@ -222,7 +238,8 @@ impl<C: CollectionRealloc, const N: usize> CollectionRealloc for Flatten<C, N> {
         &mut self,
         iter: I,
     ) -> Result<(), AllocError> {
-        self.0.try_extend(iter.into_iter().flatten())
+        let guard = CompleteChunks::<C, N>(&mut self.0);
+        guard.0.try_extend(iter.into_iter().flatten())
     }
 
     fn reserve(&mut self, additional: usize) {
-- 
2.43.0


From a0e28785af0840700613a447d89d582499eb3ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:09 +0000
Subject: [PATCH 5/9] fix: size constructions by the lower bound of the
 iterator

---
 src/offset.rs   |  8 ++++----
 src/validity.rs | 13 ++++++-------
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/offset.rs b/src/offset.rs
index 48c1a8a..3da3c16 100644
--- a/src/offset.rs
+++ b/src/offset.rs
@@ -345,8 +345,8 @@ where
 
     fn from_iter_in<I: IntoIterator<Item = Self::Owned>>(iter: I, alloc: Self::Alloc) -> Self {
         let items = iter.into_iter();
-        let (lower_bound, upper_bound) = items.size_hint();
-        let mut offsets = Self::with_capacity_in(upper_bound.unwrap_or(lower_bound), alloc);
+        let (lower_bound, _) = items.size_hint();
+        let mut offsets = Self::with_capacity_in(lower_bound, alloc);
         offsets.extend(items);
         offsets
     }
@@ -368,8 +368,8 @@ where
         alloc: Self::Alloc,
     ) -> Result<Self, AllocError> {
         let items = iter.into_iter();
-        let (lower_bound, upper_bound) = items.size_hint();
-        let mut offsets = Self::try_with_capacity_in(upper_bound.unwrap_or(lower_bound), alloc)?;
+        let (lower_bound, _) = items.size_hint();
+        let mut offsets = Self::try_with_capacity_in(lower_bound, alloc)?;
         offsets.try_extend(items)?;
         Ok(offsets)
     }
diff --git a/src/validity.rs b/src/validity.rs
index 57d00f1..6e6d98f 100644
--- a/src/validity.rs
+++ b/src/validity.rs
@@ -374,8 +374,8 @@ impl<
 {
     fn from_iter<I: IntoIterator<Item = Option<U>>>(iter: I) -> Self {
         let items = iter.into_iter();
-        let (lower_bound, upper_bound) = items.size_hint();
-        let mut bitmap = Bitmap::with_capacity(upper_bound.unwrap_or(lower_bound));
+        let (lower_bound, _) = items.size_hint();
+        let mut bitmap = Bitmap::with_capacity(lower_bound);
         let collection = items
             .inspect(|opt| bitmap.extend(iter::once(opt.is_some())))
             .map(Option::unwrap_or_default)
@@ -454,9 +454,8 @@ impl<
 
     fn from_iter_in<I: IntoIterator<Item = Self::Owned>>(iter: I, alloc: Self::Alloc) -> Self {
         let items = iter.into_iter();
-        let (lower_bound, upper_bound) = items.size_hint();
-        let mut bitmap =
-            Bitmap::<Storage>::with_capacity_in(upper_bound.unwrap_or(lower_bound), alloc.clone());
+        let (lower_bound, _) = items.size_hint();
+        let mut bitmap = Bitmap::<Storage>::with_capacity_in(lower_bound, alloc.clone());
         let collection = T::from_iter_in(
             items
                 .inspect(|item| bitmap.extend(iter::once(item.is_some())))
@@ -483,8 +482,8 @@ impl<
         alloc: Self::Alloc,
     ) -> Result<Self, AllocError> {
         let items = iter.into_iter();
-        let (lower_bound, upper_bound) = items.size_hint();
-        let mut validity = Self::try_with_capacity_in(upper_bound.unwrap_or(lower_bound), alloc)?;
+        let (lower_bound, _) = items.size_hint();
+        let mut validity = Self::try_with_capacity_in(lower_bound, alloc)?;
         validity.try_extend(items)?;
         Ok(validity)
     }
-- 
2.43.0


From f8c0a73523d1416c90c8df57feec1b28bec9d621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 6/9] fix: derive exported pointers from the raw private data
 pointer

---
 narrow-ffi/src/export/fixed_size_list.rs    | 10 +++--
 narrow-ffi/src/export/mod.rs                | 42 ++++++++++-----------
 narrow-ffi/src/export/variable_size_list.rs | 10 +++--
 3 files changed, 33 insertions(+), 29 deletions(-)

diff --git a/narrow-ffi/src/export/fixed_size_list.rs b/narrow-ffi/src/export/fixed_size_list.rs
index 843244a..dcfb043 100644
--- a/narrow-ffi/src/export/fixed_size_list.rs
+++ b/narrow-ffi/src/export/fixed_size_list.rs
@@ -80,16 +80,18 @@ impl ArrowSchema {
     /// Builds a fixed-size-list schema and retains its child schema.
     fn fixed_size_list<const N: usize, Nulls: Nullability>(child: Self) -> Self {
         let format_string = CString::new(format!("+w:{N}")).expect("valid fixed-size list format");
-        let mut private = Box::new(FixedSizeListSchemaData {
+        let private_data = Box::into_raw(Box::new(FixedSizeListSchemaData {
             format: format_string,
             children: [child],
             child_pointers: [ptr::null_mut()],
-        });
+        }));
+        // SAFETY: `private_data` was just created by `Box::into_raw` and no
+        // other references to the private data exist.
+        let private = unsafe { &mut *private_data };
         private.child_pointers[0] = ptr::from_mut(&mut private.children[0]);
 
         let format_pointer = private.format.as_ptr();
         let children = private.child_pointers.as_mut_ptr();
-        let private_data = Box::into_raw(private).cast();
         Self {
             format: format_pointer,
             name: c"".as_ptr(),
@@ -103,7 +105,7 @@ impl ArrowSchema {
             children,
             dictionary: ptr::null_mut(),
             release: Some(release_schema::<FixedSizeListSchemaData>),
-            private_data,
+            private_data: private_data.cast(),
         }
     }
 }
diff --git a/narrow-ffi/src/export/mod.rs b/narrow-ffi/src/export/mod.rs
index 22e14f2..b762734 100644
--- a/narrow-ffi/src/export/mod.rs
+++ b/narrow-ffi/src/export/mod.rs
@@ -172,12 +172,11 @@ trait ArrowArrayLayout: Length + Sized {
         let length = i64::try_from(self.len()).expect("array length exceeds i64");
         let null_count = self.null_count();
         let dictionary = self.dictionary();
-        let mut private = Box::new(ArrayData::<(), Self>::new(
+        let private = Box::new(ArrayData::<(), Self>::new(
             (),
             self.buffers(),
             self.children()?,
         ));
-        private.set_child_pointers();
 
         Ok(private.into_array(length, null_count, dictionary))
     }
@@ -201,7 +200,6 @@ trait ArrowArrayLayout: Length + Sized {
         });
         private.buffers = private.owner.buffers();
         private.children = private.owner.children()?;
-        private.set_child_pointers();
 
         // Convert platform-sized layout metadata into the Arrow C ABI fields.
         let length = i64::try_from(private.owner.len()).expect("array length exceeds i64");
@@ -236,39 +234,41 @@ impl<Owner: 'static, Layout: ArrowArrayLayout + 'static> ArrayData<Owner, Layout
         }
     }
 
-    /// Updates child pointers after the child arrays are pinned.
-    fn set_child_pointers(&mut self) {
-        self.child_pointers = self
-            .children
-            .as_mut()
-            .iter_mut()
-            .map(ptr::from_mut)
-            .collect();
-    }
-
     /// Builds an [`ArrowArray`] backed by this private data.
     fn into_array(
-        mut self: Box<Self>,
+        self: Box<Self>,
         length: i64,
         null_count: i64,
         dictionary: *mut ArrowArray,
     ) -> ArrowArray {
         let n_buffers =
             i64::try_from(self.buffers.as_ref().len()).expect("buffer count exceeds i64");
-        let n_children = i64::try_from(self.child_pointers.len()).expect("child count exceeds i64");
-
-        let buffers = self.buffers.as_mut();
+        let n_children =
+            i64::try_from(self.children.as_ref().len()).expect("child count exceeds i64");
+
+        // Derive every exposed pointer from the raw private data pointer: moving
+        // the box would invalidate pointers taken through it beforehand.
+        let private_data = Box::into_raw(self);
+        // SAFETY: `private_data` was just created by `Box::into_raw` and no
+        // other references to the private data exist.
+        let private = unsafe { &mut *private_data };
+        private.child_pointers = private
+            .children
+            .as_mut()
+            .iter_mut()
+            .map(ptr::from_mut)
+            .collect();
+        let buffers = private.buffers.as_mut();
         let buffer_pointers = if buffers.is_empty() {
             ptr::null_mut()
         } else {
             buffers.as_mut_ptr()
         };
-        let children = if self.child_pointers.is_empty() {
+        let children = if private.child_pointers.is_empty() {
             ptr::null_mut()
         } else {
-            self.child_pointers.as_mut_ptr()
+            private.child_pointers.as_mut_ptr()
         };
-        let private_data = Box::into_raw(self).cast();
 
         ArrowArray {
             length,
@@ -280,7 +280,7 @@ impl<Owner: 'static, Layout: ArrowArrayLayout + 'static> ArrayData<Owner, Layout
             children,
             dictionary,
             release: Some(release_array::<Self>),
-            private_data,
+            private_data: private_data.cast(),
         }
     }
 }
diff --git a/narrow-ffi/src/export/variable_size_list.rs b/narrow-ffi/src/export/variable_size_list.rs
index 5689dab..22dc2be 100644
--- a/narrow-ffi/src/export/variable_size_list.rs
+++ b/narrow-ffi/src/export/variable_size_list.rs
@@ -88,14 +88,16 @@ where
 impl ArrowSchema {
     /// Builds a variable-size-list schema and retains its child schema.
     fn variable_size_list<OffsetItem: ArrowListOffset, Nulls: Nullability>(child: Self) -> Self {
-        let mut private = Box::new(VariableSizeListSchemaData {
+        let private_data = Box::into_raw(Box::new(VariableSizeListSchemaData {
             children: [child],
             child_pointers: [ptr::null_mut()],
-        });
+        }));
+        // SAFETY: `private_data` was just created by `Box::into_raw` and no
+        // other references to the private data exist.
+        let private = unsafe { &mut *private_data };
         private.child_pointers[0] = ptr::from_mut(&mut private.children[0]);
 
         let children = private.child_pointers.as_mut_ptr();
-        let private_data = Box::into_raw(private).cast();
         Self {
             format: OffsetItem::FORMAT.as_ptr(),
             name: c"".as_ptr(),
@@ -109,7 +111,7 @@ impl ArrowSchema {
             children,
             dictionary: ptr::null_mut(),
             release: Some(release_schema::<VariableSizeListSchemaData>),
-            private_data,
+            private_data: private_data.cast(),
         }
     }
 }
-- 
2.43.0


From af12ab26e8fa07dee2baca8ad7bf5f1e2a17f89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 7/9] fix: keep exported storage alive for children moved out
 of their parent

---
 narrow-ffi/src/export/fixed_size_list.rs    | 12 ++--
 narrow-ffi/src/export/mod.rs                | 65 +++++++--------------
 narrow-ffi/src/export/variable_size_list.rs | 12 ++--
 3 files changed, 34 insertions(+), 55 deletions(-)

diff --git a/narrow-ffi/src/export/fixed_size_list.rs b/narrow-ffi/src/export/fixed_size_list.rs
index dcfb043..a395ca7 100644
--- a/narrow-ffi/src/export/fixed_size_list.rs
+++ b/narrow-ffi/src/export/fixed_size_list.rs
@@ -2,8 +2,8 @@
 
 extern crate alloc;
 
-use alloc::{boxed::Box, ffi::CString, format};
-use core::{borrow::Borrow, ffi::c_void, ptr};
+use alloc::{boxed::Box, ffi::CString, format, sync::Arc};
+use core::{any::Any, borrow::Borrow, ffi::c_void, ptr};
 
 use narrow::{
     bitmap::ValidityBitmap,
@@ -34,8 +34,8 @@ where
         [ptr::null()]
     }
 
-    fn children(&self) -> Result<Self::Children, ExportError> {
-        Ok([self.buffer_ref().child_ref().child_array()?])
+    fn children(&self, owner: &Arc<dyn Any>) -> Result<Self::Children, ExportError> {
+        Ok([self.buffer_ref().child_ref().array(owner)?])
     }
 }
 
@@ -71,8 +71,8 @@ where
         [validity.unwrap_or(ptr::null())]
     }
 
-    fn children(&self) -> Result<Self::Children, ExportError> {
-        Ok([self.buffer_ref().child_ref().child_ref().child_array()?])
+    fn children(&self, owner: &Arc<dyn Any>) -> Result<Self::Children, ExportError> {
+        Ok([self.buffer_ref().child_ref().child_ref().array(owner)?])
     }
 }
 
diff --git a/narrow-ffi/src/export/mod.rs b/narrow-ffi/src/export/mod.rs
index b762734..633c6bf 100644
--- a/narrow-ffi/src/export/mod.rs
+++ b/narrow-ffi/src/export/mod.rs
@@ -2,8 +2,9 @@
 
 extern crate alloc;
 
-use alloc::{boxed::Box, vec::Vec};
+use alloc::{boxed::Box, sync::Arc, vec::Vec};
 use core::{
+    any::Any,
     ffi::{CStr, c_void},
     fmt, ptr,
 };
@@ -149,8 +150,8 @@ trait ArrowArrayLayout: Length + Sized {
     /// Returns the array's buffer pointers.
     fn buffers(&self) -> Self::Buffers;
 
-    /// Returns the array's child pointers.
-    fn children(&self) -> Result<Self::Children, ExportError> {
+    /// Returns the array's child arrays, which retain `owner`.
+    fn children(&self, _owner: &Arc<dyn Any>) -> Result<Self::Children, ExportError> {
         Ok(Self::Children::default())
     }
 
@@ -159,8 +160,11 @@ trait ArrowArrayLayout: Length + Sized {
         ptr::null_mut()
     }
 
-    /// Builds a child [`ArrowArray`] borrowing storage retained by its parent.
-    fn child_array(&self) -> Result<ArrowArray, ExportError>
+    /// Builds an [`ArrowArray`] from this layout, which is part of `owner`.
+    ///
+    /// Every array of an export retains the complete exported layout: a consumer
+    /// may move a child array out of its parent and release the parent first.
+    fn array(&self, owner: &Arc<dyn Any>) -> Result<ArrowArray, ExportError>
     where
         Self: 'static,
     {
@@ -172,11 +176,12 @@ trait ArrowArrayLayout: Length + Sized {
         let length = i64::try_from(self.len()).expect("array length exceeds i64");
         let null_count = self.null_count();
         let dictionary = self.dictionary();
-        let private = Box::new(ArrayData::<(), Self>::new(
-            (),
-            self.buffers(),
-            self.children()?,
-        ));
+        let private = Box::new(ArrayData::<Self> {
+            buffers: self.buffers(),
+            children: self.children(owner)?,
+            child_pointers: Vec::new(),
+            _owner: Arc::clone(owner),
+        });
 
         Ok(private.into_array(length, null_count, dictionary))
     }
@@ -186,54 +191,28 @@ trait ArrowArrayLayout: Length + Sized {
     where
         Self: 'static,
     {
-        let offset = self.offset();
-        if offset != 0 {
-            return Err(ExportError::NonZeroOffset { offset });
-        }
-
         // Pin the layout before asking it for pointers into its storage.
-        let mut private = Box::new(ArrayData::<Self, Self> {
-            buffers: Self::Buffers::default(),
-            children: Self::Children::default(),
-            child_pointers: Vec::new(),
-            owner: self,
-        });
-        private.buffers = private.owner.buffers();
-        private.children = private.owner.children()?;
-
-        // Convert platform-sized layout metadata into the Arrow C ABI fields.
-        let length = i64::try_from(private.owner.len()).expect("array length exceeds i64");
-        let null_count = private.owner.null_count();
-        let dictionary = private.owner.dictionary();
-        let array = private.into_array(length, null_count, dictionary);
+        let layout = Arc::new(self);
+        let owner: Arc<dyn Any> = Arc::<Self>::clone(&layout);
+        let array = layout.array(&owner)?;
 
         Ok((array, Self::schema()))
     }
 }
 
 /// Data retained by `ArrowArray::private_data` for an array export.
-struct ArrayData<Owner, Layout: ArrowArrayLayout> {
+struct ArrayData<Layout: ArrowArrayLayout> {
     /// Arrow C Data buffer pointers.
     buffers: Layout::Buffers,
     /// Child arrays owned by the export.
     children: Layout::Children,
     /// Arrow C Data child pointers.
     child_pointers: Vec<*mut ArrowArray>,
-    /// Owner retained until the array is released.
-    owner: Owner,
+    /// Exported layout retained until the array is released.
+    _owner: Arc<dyn Any>,
 }
 
-impl<Owner: 'static, Layout: ArrowArrayLayout + 'static> ArrayData<Owner, Layout> {
-    /// Creates private data for an exported array.
-    fn new(owner: Owner, buffers: Layout::Buffers, children: Layout::Children) -> Self {
-        Self {
-            buffers,
-            children,
-            child_pointers: Vec::new(),
-            owner,
-        }
-    }
-
+impl<Layout: ArrowArrayLayout + 'static> ArrayData<Layout> {
     /// Builds an [`ArrowArray`] backed by this private data.
     fn into_array(
         self: Box<Self>,
diff --git a/narrow-ffi/src/export/variable_size_list.rs b/narrow-ffi/src/export/variable_size_list.rs
index 22dc2be..4391a04 100644
--- a/narrow-ffi/src/export/variable_size_list.rs
+++ b/narrow-ffi/src/export/variable_size_list.rs
@@ -2,8 +2,8 @@
 
 extern crate alloc;
 
-use alloc::boxed::Box;
-use core::{borrow::Borrow, ffi::c_void, ptr};
+use alloc::{boxed::Box, sync::Arc};
+use core::{any::Any, borrow::Borrow, ffi::c_void, ptr};
 
 use narrow::{
     bitmap::ValidityBitmap,
@@ -37,8 +37,8 @@ where
         [ptr::null(), offsets.as_ptr().cast()]
     }
 
-    fn children(&self) -> Result<Self::Children, ExportError> {
-        Ok([self.buffer_ref().child_ref().child_array()?])
+    fn children(&self, owner: &Arc<dyn Any>) -> Result<Self::Children, ExportError> {
+        Ok([self.buffer_ref().child_ref().array(owner)?])
     }
 }
 
@@ -80,8 +80,8 @@ where
         ]
     }
 
-    fn children(&self) -> Result<Self::Children, ExportError> {
-        Ok([self.buffer_ref().child_ref().child_ref().child_array()?])
+    fn children(&self, owner: &Arc<dyn Any>) -> Result<Self::Children, ExportError> {
+        Ok([self.buffer_ref().child_ref().child_ref().array(owner)?])
     }
 }
 
-- 
2.43.0


From 37f18d559f011f199b67f99d998038108aac377f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:39 +0000
Subject: [PATCH 8/9] fix: discard items without validity after a panicking
 extension

---
 src/validity.rs | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/validity.rs b/src/validity.rs
index 6e6d98f..4ed63fe 100644
--- a/src/validity.rs
+++ b/src/validity.rs
@@ -391,6 +391,22 @@ impl<
 /// [`Extend::extend`] for [`Validity`].
 const VALIDITY_CHUNK: usize = 1024;
 
+/// Guard that drops the items of a collection that have no validity, so a
+/// panicking extension can not leave a collection that is longer than its
+/// bitmap.
+struct CommittedItems<'validity, T: CollectionRealloc, Storage: Buffer>(
+    &'validity mut Validity<T, Storage>,
+);
+
+impl<T: CollectionRealloc, Storage: Buffer> Drop for CommittedItems<'_, T, Storage> {
+    fn drop(&mut self) {
+        if let Some(bitmap) = self.0.bitmap.as_ref() {
+            let len = bitmap.len();
+            self.0.collection.truncate(len);
+        }
+    }
+}
+
 impl<
     U: Default,
     T: CollectionRealloc<Owned = U>,
@@ -411,11 +427,12 @@ impl<
         // packing fast path. The bitmap is extended after the items of a
         // chunk are committed to the collection, so a panicking iterator can
         // not add validity for items that never arrive.
+        let guard = CommittedItems(self);
         let mut items = iter.into_iter();
         loop {
             let mut validity = [false; VALIDITY_CHUNK];
             let mut count: usize = 0;
-            self.collection.extend(
+            guard.0.collection.extend(
                 items
                     .by_ref()
                     .take(VALIDITY_CHUNK)
@@ -425,7 +442,9 @@ impl<
                     })
                     .map(Option::unwrap_or_default),
             );
-            self.bitmap
+            guard
+                .0
+                .bitmap
                 .as_mut()
                 .expect("validity bitmap is materialized")
                 .extend(validity.iter().take(count));
@@ -515,6 +534,7 @@ impl<
         self.try_materialize_bitmap()?;
         self.collection.truncate(len);
 
+        let guard = CommittedItems(self);
         let mut items = iter.into_iter();
         loop {
             let mut validity = [false; VALIDITY_CHUNK];
@@ -527,17 +547,18 @@ impl<
                     count = count.strict_add(1);
                 })
                 .map(Option::unwrap_or_default);
-            if let Err(error) = self.collection.try_extend(values) {
-                self.truncate(len);
+            if let Err(error) = guard.0.collection.try_extend(values) {
+                guard.0.truncate(len);
                 return Err(error);
             }
-            if let Err(error) = self
+            if let Err(error) = guard
+                .0
                 .bitmap
                 .as_mut()
                 .expect("validity bitmap is materialized")
                 .try_extend(validity.into_iter().take(count))
             {
-                self.truncate(len);
+                guard.0.truncate(len);
                 return Err(error);
             }
             if count < VALIDITY_CHUNK {
-- 
2.43.0


From fc9601672c05723ce70dfed534433df199d79ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:18 +0000
Subject: [PATCH 9/9] fix: shrink boxed slices fallibly in fallible
 construction

Vec::into_boxed_slice aborts when the allocator refuses to shrink the
allocation. Move the items to an exactly sized allocation instead.
---
 src/collection/box.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/collection/box.rs b/src/collection/box.rs
index 1965fea..727117c 100644
--- a/src/collection/box.rs
+++ b/src/collection/box.rs
@@ -52,6 +52,14 @@ impl<T: for<'any> AsView<'any>> CollectionAllocIn for Box<[T]> {
         iter: I,
         (): Self::Alloc,
     ) -> Result<Self, AllocError> {
-        <Vec<T> as CollectionAllocIn>::try_from_iter_in(iter, ()).map(Vec::into_boxed_slice)
+        let mut items = <Vec<T> as CollectionAllocIn>::try_from_iter_in(iter, ())?;
+        if items.len() != items.capacity() {
+            // `Vec::into_boxed_slice` shrinks infallibly, so move the items to
+            // an allocation of exactly their size first.
+            let mut exact = <Vec<T> as CollectionAllocIn>::try_with_capacity_in(items.len(), ())?;
+            exact.append(&mut items);
+            items = exact;
+        }
+        Ok(items.into_boxed_slice())
     }
 }
-- 
2.43.0

