From 45ae9f7a8c40fec3dac2fbfc12bf818493d7bed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 01/55] fix: keep the remainder of the slice allocator's free
 list when a header is reused

Taking the first free header dropped the rest of the list and left its stale
next pointer in place, which leaked headers and corrupted the list of regions.
---
 crates/musli/src/alloc/slice.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index 574b667..ddd4895 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -635,9 +635,14 @@ impl Internal {
     /// The caller msut ensure that there is enough space for the region and
     /// that the end pointer has been aligned to the requirements of `Header`.
     unsafe fn alloc_header(&mut self, end: *mut MaybeUninit<u8>) -> Option<Region> {
-        if let Some(region) = self.free_head.take() {
+        if let Some(region) = self.free_head {
             let mut region = self.region(region);
 
+            // Keep the remainder of the free list, and unlink the header from
+            // it so that it can be inserted into the list of regions.
+            self.free_head = region.next.take();
+            region.prev = None;
+
             region.range.start = self.free.start;
             region.range.end = end;
 
-- 
2.43.0


From 36e1be5d8b480840f59a78c4fd7b6b8190944ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 02/55] fix: do not merge with an empty region adjacent to the
 merged buffer

An empty region sits at the same address as the region following it, in which
case the wrong region would be freed and the merged buffer be forgotten.
---
 crates/musli/src/alloc/slice.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index ddd4895..f03c1d6 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -416,12 +416,19 @@ impl<T> Alloc<T> for SliceAlloc<'_, T> {
                 return Err(buf);
             };
 
+            let next = i.region(next);
+
+            // An empty region does not occupy any memory, so it shares its
+            // address with the region which follows it and there is no telling
+            // which one of them `buf` refers to.
+            if next.capacity() == 0 {
+                return Err(buf);
+            }
+
             // Prevent the other buffer from being dropped, since we're
             // taking care of the allocation in here directly instead.
             forget(buf);
 
-            let next = i.region(next);
-
             let to = this.range.start.wrapping_add(this_len);
 
             // Data needs to be shuffle back to the end of the initialized
-- 
2.43.0


From 87bed1ad57343ba8bb1ba566f70dc3fa11ba2e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 03/55] fix: report the capacity of a slice allocation in units
 of its elements

---
 crates/musli/src/alloc/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index f03c1d6..b166b75 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -307,7 +307,7 @@ impl<T> Alloc<T> for SliceAlloc<'_, T> {
         // cannot be used incorrectly.
         unsafe {
             let i = &mut *internal.get();
-            i.region(region_id).capacity()
+            i.region(region_id).capacity() / size_of::<T>()
         }
     }
 
-- 
2.43.0


From 02dccc8d23ac59999d7f18c4b329a4f18a678531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 04/55] fix: refuse slice allocations whose requested size
 overflows

The unchecked addition either panics or wraps around and reports that enough
capacity has been reserved.
---
 crates/musli/src/alloc/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index b166b75..df88649 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -317,7 +317,7 @@ impl<T> Alloc<T> for SliceAlloc<'_, T> {
         //
         // This capacity is in units of `T`, and is only ever at risk of being
         // too small if the allocation has been grown.
-        if len + additional <= self.cap {
+        if matches!(len.checked_add(additional), Some(len) if len <= self.cap) {
             return Ok(());
         }
 
-- 
2.43.0


From e5df1f7665ee341231230b1e711b675689d41efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 05/55] fix: mark the initial alignment gap of a slice
 allocator as occupied

The gap had no owner, so its memory and that of every region freed next to it
was never reclaimed.
---
 crates/musli/src/alloc/slice.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index df88649..6a64ff7 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -739,6 +739,10 @@ impl Internal {
             let mut region = self.alloc_header(aligned_start)?;
 
             self.push_back(&mut region);
+
+            // Nobody owns the gap, so it has to be marked as occupied in order
+            // for its memory, and any memory merged into it, to be reclaimed.
+            self.occupied = Some(region.id);
         }
 
         self.free.start = aligned_start;
-- 
2.43.0


From 6725b67ca52a826dd89cf79df005a7f39a0bb089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 06/55] fix: do not panic when a slice allocator is too small
 to be aligned

---
 crates/musli/src/alloc/slice.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index 6a64ff7..18a57d8 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -656,18 +656,20 @@ impl Internal {
             return Some(region);
         }
 
-        debug_assert_eq!(
-            self.free.end.align_offset(align_of::<Header>()),
-            0,
-            "End pointer should be aligned to header"
-        );
-
         let ptr = self.free.end.cast::<Header>().wrapping_sub(1);
 
         if ptr < self.free.start.cast() || ptr >= self.free.end.cast() {
             return None;
         }
 
+        // NB: If the buffer is too small to be aligned it can't fit a header
+        // either, which has been checked for above.
+        debug_assert_eq!(
+            self.free.end.align_offset(align_of::<Header>()),
+            0,
+            "End pointer should be aligned to header"
+        );
+
         let id = HeaderId::new(self.full.end.cast::<Header>().offset_from(ptr))?;
 
         ptr.write(Header {
-- 
2.43.0


From 24bdb31c5381c2aa1e4a3b980351a7cfde22ee88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 07/55] fix: do not place a slice allocation header on top of
 the region it describes

When the remaining memory fit the requested bytes but not the header as well,
the two would overlap.
---
 crates/musli/src/alloc/slice.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index 18a57d8..ee809f6 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -658,7 +658,8 @@ impl Internal {
 
         let ptr = self.free.end.cast::<Header>().wrapping_sub(1);
 
-        if ptr < self.free.start.cast() || ptr >= self.free.end.cast() {
+        // The header must fit after the end of the region it describes.
+        if ptr < end.cast() || ptr >= self.free.end.cast() {
             return None;
         }
 
-- 
2.43.0


From f3e3e18129042f07772e85ce2093328e99a565af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 08/55] fix: do not merge an empty buffer as the region
 following it

---
 crates/musli/src/alloc/slice.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index ee809f6..281b0bc 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -397,6 +397,7 @@ impl<T> Alloc<T> for SliceAlloc<'_, T> {
         // NB: Placing this here to make miri happy, since accessing the
         // slice will mean mutably accessing the internal state.
         let other_ptr = buf.as_ptr().cast();
+        let other_cap = buf.capacity();
 
         unsafe {
             let i = &mut *internal.get();
@@ -421,7 +422,7 @@ impl<T> Alloc<T> for SliceAlloc<'_, T> {
             // An empty region does not occupy any memory, so it shares its
             // address with the region which follows it and there is no telling
             // which one of them `buf` refers to.
-            if next.capacity() == 0 {
+            if next.capacity() == 0 || other_cap == 0 {
                 return Err(buf);
             }
 
-- 
2.43.0


From 9eeebeb2ba220015ec4133274ec80db55b7616b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 09/55] fix: do not drop elements twice if a destructor panics
 in Vec::clear

---
 crates/musli-core/src/alloc/vec.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/musli-core/src/alloc/vec.rs b/crates/musli-core/src/alloc/vec.rs
index 7cfad91..e10acd5 100644
--- a/crates/musli-core/src/alloc/vec.rs
+++ b/crates/musli-core/src/alloc/vec.rs
@@ -1,7 +1,7 @@
 use core::borrow::Borrow;
 use core::cmp::Ordering;
 use core::fmt;
-use core::mem::ManuallyDrop;
+use core::mem::{replace, ManuallyDrop};
 use core::ops::{Deref, DerefMut};
 use core::ptr;
 use core::slice;
@@ -311,9 +311,12 @@ where
     /// ```
     #[inline]
     pub fn clear(&mut self) {
+        // NB: The length is reset before dropping the elements, so that they
+        // are not dropped again in case one of the destructors panic.
+        let len = replace(&mut self.len, 0);
+
         // SAFETY: We know that the buffer is initialized up to `len`.
-        unsafe { ptr::drop_in_place(slice::from_raw_parts_mut(self.buf.as_mut_ptr(), self.len)) }
-        self.len = 0;
+        unsafe { ptr::drop_in_place(slice::from_raw_parts_mut(self.buf.as_mut_ptr(), len)) }
     }
 
     /// Get the initialized part of the buffer as a slice.
-- 
2.43.0


From f7a8f7f87bd8a305adaeb454052f7da11995c915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:01 +0000
Subject: [PATCH 10/55] fix: do not drop zero-sized elements when they are
 moved into an allocation

---
 crates/musli-core/src/alloc/system.rs | 5 ++++-
 crates/musli-core/src/alloc/vec.rs    | 6 +++++-
 crates/musli/src/alloc/slice.rs       | 2 ++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/musli-core/src/alloc/system.rs b/crates/musli-core/src/alloc/system.rs
index 7b34bbc..e780b99 100644
--- a/crates/musli-core/src/alloc/system.rs
+++ b/crates/musli-core/src/alloc/system.rs
@@ -1,6 +1,6 @@
 use core::alloc::Layout;
 use core::cmp;
-use core::mem::{align_of, size_of};
+use core::mem::{align_of, forget, size_of};
 use core::ptr::NonNull;
 
 use rust_alloc::alloc;
@@ -77,6 +77,9 @@ unsafe impl Allocator for System {
             unsafe {
                 raw.as_mut_ptr().write(value);
             }
+        } else {
+            // The allocation owns the value from here on.
+            forget(value);
         }
 
         Ok(raw)
diff --git a/crates/musli-core/src/alloc/vec.rs b/crates/musli-core/src/alloc/vec.rs
index e10acd5..aad1780 100644
--- a/crates/musli-core/src/alloc/vec.rs
+++ b/crates/musli-core/src/alloc/vec.rs
@@ -1,7 +1,7 @@
 use core::borrow::Borrow;
 use core::cmp::Ordering;
 use core::fmt;
-use core::mem::{replace, ManuallyDrop};
+use core::mem::{forget, replace, ManuallyDrop};
 use core::ops::{Deref, DerefMut};
 use core::ptr;
 use core::slice;
@@ -249,6 +249,10 @@ where
             unsafe {
                 self.buf.as_mut_ptr().add(self.len).write(item);
             }
+        } else {
+            // The vector owns the element from here on, so it must only be
+            // dropped once it's removed from the vector.
+            forget(item);
         }
 
         self.len += 1;
diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index 281b0bc..3c8997d 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -182,6 +182,8 @@ unsafe impl<'a> Allocator for &'a Slice<'_> {
     #[inline]
     fn alloc<T>(self, value: T) -> Result<Self::Alloc<T>, AllocError> {
         if size_of::<T>() == 0 {
+            // The allocation owns the value from here on.
+            forget(value);
             return Ok(SliceAlloc::ZST);
         }
 
-- 
2.43.0


From 93c25c59b380d9c3c2f26987a460018540d0b01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:22 +0000
Subject: [PATCH 11/55] fix: decode the bytes of an OsString as the bytes they
 were encoded as

---
 crates/musli-core/src/impls/alloc.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/musli-core/src/impls/alloc.rs b/crates/musli-core/src/impls/alloc.rs
index d94e753..dd096cd 100644
--- a/crates/musli-core/src/impls/alloc.rs
+++ b/crates/musli-core/src/impls/alloc.rs
@@ -917,7 +917,9 @@ where
                 #[cfg(unix)]
                 PlatformTag::Unix => {
                     use std::os::unix::ffi::OsStringExt;
-                    Ok(OsString::from_vec(variant.decode_value()?.decode()?))
+                    Ok(OsString::from_vec(DecodeBytes::decode_bytes(
+                        variant.decode_value()?,
+                    )?))
                 }
                 #[cfg(not(windows))]
                 PlatformTag::Windows => Err(cx.message("Unsupported OsString::Windows variant")),
-- 
2.43.0


From d9c03aaa9713ab5dcac944442bc070d95e4e2336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:34 +0000
Subject: [PATCH 12/55] fix: only treat native byte order encodings as bitwise

---
 crates/musli/src/options.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli/src/options.rs b/crates/musli/src/options.rs
index c1079d4..dfeb229 100644
--- a/crates/musli/src/options.rs
+++ b/crates/musli/src/options.rs
@@ -330,7 +330,7 @@ pub(crate) const fn is_native_fixed<const OPT: Options>() -> bool {
     matches!(
         (integer::<OPT>(), float::<OPT>(), length::<OPT>(),),
         (Integer::Fixed, Float::Fixed, Width::NATIVE)
-    )
+    ) && byteorder_value(OPT) as u8 == ByteOrder::NATIVE as u8
 }
 
 /// Integer serialization mode.
-- 
2.43.0


From f11e4f86d5270740475fca9e21f8074d76c39113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:34 +0000
Subject: [PATCH 13/55] fix: count the fields of an enum variant rather than
 the variant when fields are skipped

---
 crates/musli-macros/src/en.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/musli-macros/src/en.rs b/crates/musli-macros/src/en.rs
index d939b31..092450a 100644
--- a/crates/musli-macros/src/en.rs
+++ b/crates/musli-macros/src/en.rs
@@ -220,14 +220,14 @@ fn encode_default(cx: Ctxt<'_>, b: &Build<'_>, st: &Body<'_>) -> Result<TokenStr
             let decls = st.field_tests();
             let encoders = make_encoders(cx, b, st)?;
 
+            let hint = b.cx.ident("hint");
             let len = length_test(st.unskipped_fields());
-            let (build_hint, hint) = len.build_hint(b);
 
             encode = quote! {{
-                #build_hint
+                #(#decls)*
+                let #hint: usize = #len;
 
                 #encoder_t::encode_map_fn(#encoder_var, #hint, move |#encoder_var| {
-                    #(#decls)*
                     #(#encoders)*
                     #result::Ok(())
                 })?
-- 
2.43.0


From b68010b95ee9ee001e38964bf2623316bd98213e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:47 +0000
Subject: [PATCH 14/55] fix: advance past an untagged value that was decoded
 from a clone

---
 crates/musli-macros/src/de.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/musli-macros/src/de.rs b/crates/musli-macros/src/de.rs
index accf5df..cb2b33e 100644
--- a/crates/musli-macros/src/de.rs
+++ b/crates/musli-macros/src/de.rs
@@ -292,6 +292,7 @@ fn decode_untagged_enum(cx: &Ctxt<'_>, b: &Build<'_>, en: &Enum<'_>) -> Result<T
     let output_var = b.cx.ident("output");
     let result_var = b.cx.ident("result");
     let mark_var = b.cx.ident("mark");
+    let clone_var = b.cx.ident("clone");
 
     let type_name = en.name.value;
 
@@ -330,12 +331,17 @@ fn decode_untagged_enum(cx: &Ctxt<'_>, b: &Build<'_>, en: &Enum<'_>) -> Result<T
         let decode = decode_struct(cx, b, &v.st)?;
 
         decode_head.push(quote! {
-            if let #option::Some(#decoder_var) = #decoder_t::try_clone(&#decoder_var) {
+            if let #option::Some(#clone_var) = #decoder_t::try_clone(&#decoder_var) {
                 #context_t::restore(#ctx_var, &#mark_var);
 
-                let #result_var: #result<_, <#d_param as #decoder_t<#lt>>::Error> = (|| #decode)();
+                let #result_var: #result<_, <#d_param as #decoder_t<#lt>>::Error> = {
+                    let #decoder_var = #clone_var;
+                    (|| #decode)()
+                };
 
                 if let #result::Ok(output) = #result_var {
+                    // The value was decoded from a clone, so advance past it.
+                    #decoder_t::try_skip(#decoder_var)?;
                     break 'output output;
                 }
             }
-- 
2.43.0


From b49e5769a4f80ba04cc1d05ba71f00ee823e48ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:03 +0000
Subject: [PATCH 15/55] fix: refuse integers which overflow on their last digit

---
 crates/musli/src/json/parser/integer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/json/parser/integer.rs b/crates/musli/src/json/parser/integer.rs
index 8d5ea04..0243999 100644
--- a/crates/musli/src/json/parser/integer.rs
+++ b/crates/musli/src/json/parser/integer.rs
@@ -198,7 +198,7 @@ where
         } else if !m.value.is_zero() {
             Err(IntegerError::Decimal)
         } else {
-            Ok(check!(base.checked_neg_pow10(-e as u32), Decimal))
+            Ok(check!(base.checked_neg_pow10(e.unsigned_abs()), Decimal))
         }
     }
 
@@ -525,7 +525,11 @@ where
         return Err(cx.message_at(start, IntegerError::IntegerOverflow));
     };
 
-    Ok(out + T::from_byte(p.read_byte(cx)? - b'0'))
+    let Some(out) = out.checked_add(T::from_byte(p.read_byte(cx)? - b'0')) else {
+        return Err(cx.message_at(start, IntegerError::IntegerOverflow));
+    };
+
+    Ok(out)
 }
 
 /// Decode sequence of zeros.
-- 
2.43.0


From 7a15f9e4f9094442a84951ee93669e4c77777bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:43 +0000
Subject: [PATCH 16/55] fix: keep the exact value of decimals and negative zero
 in dynamic JSON numbers

---
 crates/musli/src/json/parser/integer.rs       |  6 ++++
 .../musli/src/json/parser/mut_slice_parser.rs |  5 ++++
 crates/musli/src/json/parser/parser.rs        | 28 +++++++++++++++++--
 crates/musli/src/json/parser/slice_parser.rs  |  5 ++++
 4 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/json/parser/integer.rs b/crates/musli/src/json/parser/integer.rs
index 0243999..67e594a 100644
--- a/crates/musli/src/json/parser/integer.rs
+++ b/crates/musli/src/json/parser/integer.rs
@@ -202,6 +202,12 @@ where
         }
     }
 
+    /// Test if the number was written with a decimal point or an exponent.
+    #[inline]
+    pub(crate) fn is_decimal(&self) -> bool {
+        self.m.exp != 0 || self.e != 0
+    }
+
     #[inline]
     pub(crate) fn compute_float<F>(self) -> F
     where
diff --git a/crates/musli/src/json/parser/mut_slice_parser.rs b/crates/musli/src/json/parser/mut_slice_parser.rs
index 5732b96..322fa8b 100644
--- a/crates/musli/src/json/parser/mut_slice_parser.rs
+++ b/crates/musli/src/json/parser/mut_slice_parser.rs
@@ -46,6 +46,11 @@ impl<'a, 'de> Parser<'de> for MutSliceParser<'a, 'de> {
         None
     }
 
+    #[inline]
+    fn remaining(&self) -> &'de [u8] {
+        self.slice
+    }
+
     #[inline]
     fn parse_string_inner<'scratch, C>(
         &mut self,
diff --git a/crates/musli/src/json/parser/parser.rs b/crates/musli/src/json/parser/parser.rs
index 76e3104..bd37188 100644
--- a/crates/musli/src/json/parser/parser.rs
+++ b/crates/musli/src/json/parser/parser.rs
@@ -35,6 +35,10 @@ pub trait Parser<'de>: private::Sealed {
     /// Try to clone the parser.
     fn try_clone(&self) -> Option<Self::TryClone>;
 
+    /// The input which has not been parsed yet.
+    #[doc(hidden)]
+    fn remaining(&self) -> &'de [u8];
+
     #[doc(hidden)]
     fn parse_string<'scratch, C>(
         &mut self,
@@ -176,13 +180,24 @@ pub trait Parser<'de>: private::Sealed {
         C: Context,
         V: Visitor<'de, C, Error = C::Error, Allocator = C::Allocator>,
     {
+        self.skip_whitespace(cx);
+
+        let text = self.remaining();
         let signed = decode_signed_full::<i128, _, _>(cx, self)?;
 
         if signed.is_negative {
             let value = match signed.compute() {
+                // Negative zero can only be represented as a float.
+                Ok(0) if signed.unsigned.is_decimal() => {
+                    return visitor.visit_f64(cx, -0.0);
+                }
                 Ok(value) => value,
                 Err(..) => {
-                    let value = signed.compute_float();
+                    let value = match crate::dec2flt::dec2flt(text) {
+                        Some((value, _)) => value,
+                        None => signed.compute_float(),
+                    };
+
                     return visitor.visit_f64(cx, value);
                 }
             };
@@ -212,7 +227,11 @@ pub trait Parser<'de>: private::Sealed {
             let value = match signed.unsigned.compute() {
                 Ok(value) => value,
                 Err(..) => {
-                    let value = signed.unsigned.compute_float();
+                    let value = match crate::dec2flt::dec2flt(text) {
+                        Some((value, _)) => value,
+                        None => signed.unsigned.compute_float(),
+                    };
+
                     return visitor.visit_f64(cx, value);
                 }
             };
@@ -263,6 +282,11 @@ where
         (**self).try_clone()
     }
 
+    #[inline]
+    fn remaining(&self) -> &'de [u8] {
+        (**self).remaining()
+    }
+
     #[inline]
     fn parse_string_inner<'scratch, C>(
         &mut self,
diff --git a/crates/musli/src/json/parser/slice_parser.rs b/crates/musli/src/json/parser/slice_parser.rs
index 36d7afd..21aee34 100644
--- a/crates/musli/src/json/parser/slice_parser.rs
+++ b/crates/musli/src/json/parser/slice_parser.rs
@@ -41,6 +41,11 @@ impl<'de> Parser<'de> for SliceParser<'de> {
         })
     }
 
+    #[inline]
+    fn remaining(&self) -> &'de [u8] {
+        &self.slice[self.index..]
+    }
+
     #[inline]
     fn parse_string_inner<'scratch, C>(
         &mut self,
-- 
2.43.0


From 9adb631cdd42459762621ad58ff2586efee39124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:11 +0000
Subject: [PATCH 17/55] fix: decode the text forms of bytes, options,
 characters, floats and variants from dynamic values

---
 crates/musli/src/value/de.rs    | 93 +++++++++++++++++++++++++++------
 crates/musli/src/value/error.rs |  4 --
 2 files changed, 77 insertions(+), 20 deletions(-)

diff --git a/crates/musli/src/value/de.rs b/crates/musli/src/value/de.rs
index 346fe35..2620d72 100644
--- a/crates/musli/src/value/de.rs
+++ b/crates/musli/src/value/de.rs
@@ -4,7 +4,7 @@ use core::fmt;
 use core::marker::PhantomData;
 use core::slice;
 
-use crate::alloc::Allocator;
+use crate::alloc::{Allocator, Vec};
 use crate::de::UnsizedVisitor;
 use crate::de::{
     AsDecoder, Decoder, EntriesDecoder, EntryDecoder, MapDecoder, SequenceDecoder, SizeHint, Skip,
@@ -156,7 +156,23 @@ where
 
     #[inline]
     fn decode_char(self) -> Result<char, Self::Error> {
-        ensure!(self, hint, ExpectedChar(hint), Value::Char(c) => Ok(*c))
+        match self.value {
+            Value::Char(c) => Ok(*c),
+            // Text formats represent a character as a string.
+            Value::String(string) => {
+                let mut chars = string.chars();
+
+                match (chars.next(), chars.next()) {
+                    (Some(c), None) => Ok(c),
+                    _ => Err(self
+                        .cx
+                        .message(ErrorMessage::ExpectedChar(self.value.type_hint()))),
+                }
+            }
+            value => Err(self
+                .cx
+                .message(ErrorMessage::ExpectedChar(value.type_hint()))),
+        }
     }
 
     #[inline]
@@ -211,12 +227,12 @@ where
 
     #[inline]
     fn decode_f32(self) -> Result<f32, Self::Error> {
-        ensure!(self, hint, ExpectedNumber(NumberHint::F32, hint), Value::Number(Number::F32(n)) => Ok(*n))
+        ensure_number!(self, OPT, F32, Value::Number(n) => f32)
     }
 
     #[inline]
     fn decode_f64(self) -> Result<f64, Self::Error> {
-        ensure!(self, hint, ExpectedNumber(NumberHint::F64, hint), Value::Number(Number::F64(n)) => Ok(*n))
+        ensure_number!(self, OPT, F64, Value::Number(n) => f64)
     }
 
     #[inline]
@@ -231,9 +247,27 @@ where
 
     #[inline]
     fn decode_array<const N: usize>(self) -> Result<[u8; N], Self::Error> {
-        ensure!(self, hint, ExpectedBytes(hint), Value::Bytes(bytes) => {
-            <[u8; N]>::try_from(bytes.as_slice()).map_err(|_| self.cx.message(ErrorMessage::ArrayOutOfBounds))
-        })
+        match self.value {
+            Value::Bytes(bytes) => <[u8; N]>::try_from(bytes.as_slice())
+                .map_err(|_| self.cx.message(ErrorMessage::ArrayOutOfBounds)),
+            // Text formats represent bytes as a sequence of numbers.
+            Value::Sequence(values) => {
+                if values.len() != N {
+                    return Err(self.cx.message(ErrorMessage::ArrayOutOfBounds));
+                }
+
+                let mut array = [0; N];
+
+                for (out, value) in array.iter_mut().zip(values.as_slice()) {
+                    *out = Self::new(self.cx, value).decode_u8()?;
+                }
+
+                Ok(array)
+            }
+            value => Err(self
+                .cx
+                .message(ErrorMessage::ExpectedBytes(value.type_hint()))),
+        }
     }
 
     #[inline]
@@ -241,9 +275,23 @@ where
     where
         V: UnsizedVisitor<'de, C, [u8], Error = Self::Error, Allocator = Self::Allocator>,
     {
-        ensure!(self, hint, ExpectedBytes(hint), Value::Bytes(bytes) => {
-            visitor.visit_borrowed(self.cx, bytes)
-        })
+        match self.value {
+            Value::Bytes(bytes) => visitor.visit_borrowed(self.cx, bytes),
+            // Text formats represent bytes as a sequence of numbers.
+            Value::Sequence(values) => {
+                let mut bytes = Vec::new_in(self.cx.alloc());
+
+                for value in values.as_slice() {
+                    let byte = Self::new(self.cx, value).decode_u8()?;
+                    bytes.push(byte).map_err(self.cx.map())?;
+                }
+
+                visitor.visit_owned(self.cx, bytes)
+            }
+            value => Err(self
+                .cx
+                .message(ErrorMessage::ExpectedBytes(value.type_hint()))),
+        }
     }
 
     #[inline]
@@ -258,9 +306,15 @@ where
 
     #[inline]
     fn decode_option(self) -> Result<Option<Self::DecodeSome>, Self::Error> {
-        ensure!(self, hint, ExpectedOption(hint), Value::Option(option) => {
-            Ok(option.as_ref().map(|some| ValueDecoder::new(self.cx, some)))
-        })
+        match self.value {
+            Value::Option(option) => {
+                Ok(option.as_ref().map(|some| ValueDecoder::new(self.cx, some)))
+            }
+            // Text formats represent a missing value as null and a present
+            // value as itself.
+            Value::Unit => Ok(None),
+            _ => Ok(Some(self)),
+        }
     }
 
     #[inline]
@@ -316,9 +370,16 @@ where
     where
         F: FnOnce(&mut Self::DecodeVariant) -> Result<O, Self::Error>,
     {
-        ensure!(self, hint, ExpectedVariant(hint), Value::Variant(st) => {
-            f(&mut IterValueVariantDecoder::new(self.cx, st))
-        })
+        match self.value {
+            Value::Variant(st) => f(&mut IterValueVariantDecoder::new(self.cx, st)),
+            // Text formats represent a variant as a map with a single entry.
+            Value::Map(st) if st.len() == 1 => {
+                f(&mut IterValueVariantDecoder::new(self.cx, &st[0]))
+            }
+            value => Err(self
+                .cx
+                .message(ErrorMessage::ExpectedVariant(value.type_hint()))),
+        }
     }
 
     #[inline]
diff --git a/crates/musli/src/value/error.rs b/crates/musli/src/value/error.rs
index 1b58042..d3ea7cc 100644
--- a/crates/musli/src/value/error.rs
+++ b/crates/musli/src/value/error.rs
@@ -22,7 +22,6 @@ pub(crate) enum ErrorMessage {
     ExpectedBytes(TypeHint),
     ExpectedString(TypeHint),
     ExpectedStringAsNumber,
-    ExpectedOption(TypeHint),
     ExpectedSequence(TypeHint),
     ExpectedPack(TypeHint),
     ExpectedMap(TypeHint),
@@ -61,9 +60,6 @@ impl fmt::Display for ErrorMessage {
             ErrorMessage::ExpectedStringAsNumber => {
                 write!(f, "Value buffer expected string containing number")
             }
-            ErrorMessage::ExpectedOption(hint) => {
-                write!(f, "Value buffer expected option, but found {hint}")
-            }
             ErrorMessage::ExpectedSequence(hint) => {
                 write!(f, "Value buffer expected sequence, but found {hint}")
             }
-- 
2.43.0


From dd7549712498643c168b2af3e7007384f304bc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:00 +0000
Subject: [PATCH 18/55] fix: musli: Skip JSON values without recursing and
 bound fixed-size byte arrays

---
 crates/musli/src/json/de/mod.rs | 179 ++++++++++++++++++++++++++++++--
 1 file changed, 168 insertions(+), 11 deletions(-)

diff --git a/crates/musli/src/json/de/mod.rs b/crates/musli/src/json/de/mod.rs
index ee8f6a6..1b90dc8 100644
--- a/crates/musli/src/json/de/mod.rs
+++ b/crates/musli/src/json/de/mod.rs
@@ -67,16 +67,101 @@ where
     }
 
     /// Skip over any values.
+    ///
+    /// This keeps track of the containers being skipped without recursing, so
+    /// that the nesting of untrusted input is not limited by the stack.
     pub(crate) fn skip_any(mut self) -> Result<(), C::Error> {
-        let start = self.cx.mark();
-        let actual = self.parser.lex(self.cx);
-
-        match actual {
-            Token::OpenBrace => self.decode_map(|_| Ok(())),
-            Token::OpenBracket => self.decode_sequence(|_| Ok(())),
-            Token::Null => self.parse_null(),
-            Token::True => self.parse_true(),
-            Token::False => self.parse_false(),
+        let mut open = OpenContainers::new(self.cx);
+
+        loop {
+            let start = self.cx.mark();
+
+            match self.parser.lex(self.cx) {
+                Token::OpenBrace => {
+                    self.parser.skip(self.cx, 1)?;
+                    open.push(self.cx, true)?;
+                    self.skip_to_next(&mut open, true)?;
+                }
+                Token::OpenBracket => {
+                    self.parser.skip(self.cx, 1)?;
+                    open.push(self.cx, false)?;
+                    self.skip_to_next(&mut open, true)?;
+                }
+                actual => {
+                    self.skip_scalar(actual, &start)?;
+                    self.skip_to_next(&mut open, false)?;
+                }
+            }
+
+            if open.is_empty() {
+                return Ok(());
+            }
+        }
+    }
+
+    /// Skip past everything up to the next value in the containers which are
+    /// currently open, closing the ones which end.
+    fn skip_to_next(
+        &mut self,
+        open: &mut OpenContainers<C>,
+        mut first: bool,
+    ) -> Result<(), C::Error> {
+        while let Some(object) = open.last() {
+            let token = self.parser.lex(self.cx);
+
+            match token {
+                Token::Comma if !first => {
+                    self.parser.skip(self.cx, 1)?;
+                }
+                Token::CloseBrace if object => {
+                    self.parser.skip(self.cx, 1)?;
+                    open.pop();
+                    first = false;
+                }
+                Token::CloseBracket if !object => {
+                    self.parser.skip(self.cx, 1)?;
+                    open.pop();
+                    first = false;
+                }
+                Token::String if object => {
+                    JsonKeyDecoder::<_, _, M>::new(self.cx, self.parser.borrow_mut()).skip()?;
+
+                    let actual = self.parser.lex(self.cx);
+
+                    if !matches!(actual, Token::Colon) {
+                        return Err(self
+                            .cx
+                            .message(format_args!("Expected colon `:`, was {actual}")));
+                    }
+
+                    self.parser.skip(self.cx, 1)?;
+                    return Ok(());
+                }
+                token if !object && token.is_value() => {
+                    return Ok(());
+                }
+                token if object => {
+                    return Err(self.cx.message(format_args!(
+                        "Expected value, or closing brace `}}` but found {token:?}"
+                    )));
+                }
+                token => {
+                    return Err(self.cx.message(format_args!(
+                        "Expected value or closing bracket `]`, but found {token}"
+                    )));
+                }
+            }
+        }
+
+        Ok(())
+    }
+
+    /// Skip over a single value which isn't a container.
+    fn skip_scalar(&mut self, token: Token, start: &C::Mark) -> Result<(), C::Error> {
+        match token {
+            Token::Null => self.parser.parse_exact(self.cx, "null"),
+            Token::True => self.parser.parse_exact(self.cx, "true"),
+            Token::False => self.parser.parse_exact(self.cx, "false"),
             Token::Number => integer::skip_number(self.cx, self.parser.borrow_mut()),
             Token::String => {
                 // Skip over opening quote.
@@ -85,7 +170,7 @@ where
             }
             actual => Err(self
                 .cx
-                .message_at(&start, format_args!("Expected value, found {actual}"))),
+                .message_at(start, format_args!("Expected value, found {actual}"))),
         }
     }
 
@@ -105,6 +190,76 @@ where
     }
 }
 
+/// The kinds of the containers which have been opened while skipping.
+///
+/// The innermost containers are kept inline, so that an allocation is only made
+/// for input which is nested deeper than that.
+struct OpenContainers<C>
+where
+    C: Context,
+{
+    /// One bit for each of the innermost containers, set if it is an object.
+    bits: u64,
+    /// The number of bits in use.
+    len: u32,
+    /// Filled words for the outer containers.
+    outer: Vec<u64, C::Allocator>,
+}
+
+impl<C> OpenContainers<C>
+where
+    C: Context,
+{
+    #[inline]
+    fn new(cx: C) -> Self {
+        Self {
+            bits: 0,
+            len: 0,
+            outer: Vec::new_in(cx.alloc()),
+        }
+    }
+
+    #[inline]
+    fn is_empty(&self) -> bool {
+        self.len == 0
+    }
+
+    /// Test if the last container is an object.
+    #[inline]
+    fn last(&self) -> Option<bool> {
+        if self.is_empty() {
+            return None;
+        }
+
+        Some(self.bits & 1 != 0)
+    }
+
+    #[inline]
+    fn push(&mut self, cx: C, object: bool) -> Result<(), C::Error> {
+        if self.len == u64::BITS {
+            self.outer.push(self.bits).map_err(cx.map())?;
+            self.len = 0;
+        }
+
+        self.bits = (self.bits << 1) | u64::from(object);
+        self.len += 1;
+        Ok(())
+    }
+
+    #[inline]
+    fn pop(&mut self) {
+        self.bits >>= 1;
+        self.len -= 1;
+
+        if self.len == 0 {
+            if let Some(bits) = self.outer.pop() {
+                self.bits = bits;
+                self.len = u64::BITS;
+            }
+        }
+    }
+}
+
 #[crate::decoder(crate)]
 impl<'de, P, C, M> Decoder<'de> for JsonDecoder<P, C, M>
 where
@@ -281,8 +436,10 @@ where
             let mut index = 0;
 
             while let Some(item) = seq.try_decode_next()? {
-                if index <= N {
+                if index < N {
                     bytes[index] = item.decode_u8()?;
+                } else {
+                    item.skip()?;
                 }
 
                 index += 1;
-- 
2.43.0


From d57df006f0042923b0ae0dd03c4ae0a776997017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:30 +0000
Subject: [PATCH 19/55] fix: musli: Do not overflow the number of values left
 to skip

---
 crates/musli/src/descriptive/de.rs | 40 ++++++++++++++++--------------
 crates/musli/src/wire/de.rs        |  8 ++++--
 2 files changed, 27 insertions(+), 21 deletions(-)

diff --git a/crates/musli/src/descriptive/de.rs b/crates/musli/src/descriptive/de.rs
index ff17a9f..dddf7f7 100644
--- a/crates/musli/src/descriptive/de.rs
+++ b/crates/musli/src/descriptive/de.rs
@@ -63,26 +63,27 @@ where
 {
     /// Skip over any sequences of values.
     pub(crate) fn skip_any(mut self) -> Result<(), C::Error> {
-        let mut remaining = 1;
+        let mut remaining = 1usize;
 
         while remaining > 0 {
+            remaining -= 1;
+
+            let start = self.cx.mark();
             let tag = Tag::from_byte(self.reader.read_byte(self.cx)?);
 
-            match tag.kind() {
+            let more = match tag.kind() {
                 Kind::Number => {
                     _ = c::decode::<_, _, u128>(self.cx, self.reader.borrow_mut())?;
+                    0
                 }
                 Kind::Mark => match tag.mark() {
-                    Mark::Variant => {
-                        remaining += 2;
-                    }
-                    Mark::Some => {
-                        remaining += 1;
-                    }
+                    Mark::Variant => 2,
+                    Mark::Some => 1,
                     Mark::Char => {
                         _ = c::decode::<_, _, u32>(self.cx, self.reader.borrow_mut())?;
+                        0
                     }
-                    _ => {}
+                    _ => 0,
                 },
                 Kind::Bytes | Kind::String => {
                     let len = if let Some(len) = tag.data() {
@@ -92,23 +93,24 @@ where
                     };
 
                     self.reader.skip(self.cx, len)?;
+                    0
                 }
-                Kind::Sequence => {
-                    let len = self.decode_len(tag)?;
-                    remaining += len;
-                }
-                Kind::Map => {
-                    let len = self.decode_len(tag)?;
-                    remaining += len * 2;
-                }
+                Kind::Sequence => self.decode_len(tag)?,
+                Kind::Map => self.decode_len(tag)?.saturating_mul(2),
                 kind => {
                     return Err(self
                         .cx
                         .message(format_args!("Cannot skip over kind {kind:?}")));
                 }
-            }
+            };
 
-            remaining -= 1;
+            let Some(sum) = remaining.checked_add(more) else {
+                return Err(self
+                    .cx
+                    .message_at(&start, "Length of value is too large to skip"));
+            };
+
+            remaining = sum;
         }
 
         Ok(())
diff --git a/crates/musli/src/wire/de.rs b/crates/musli/src/wire/de.rs
index ccf837f..b3c4636 100644
--- a/crates/musli/src/wire/de.rs
+++ b/crates/musli/src/wire/de.rs
@@ -63,7 +63,7 @@ where
 {
     /// Skip over any sequences of values.
     pub(crate) fn skip_any(mut self) -> Result<(), C::Error> {
-        let mut remaining = 1;
+        let mut remaining = 1usize;
 
         while remaining > 0 {
             remaining -= 1;
@@ -87,7 +87,11 @@ where
                         crate::int::decode_usize::<_, _, OPT>(self.cx, self.reader.borrow_mut())?
                     };
 
-                    remaining += len;
+                    let Some(sum) = remaining.checked_add(len) else {
+                        return Err(self.cx.message("Length of sequence is too large to skip"));
+                    };
+
+                    remaining = sum;
                 }
                 Kind::Continuation => {
                     if tag.data().is_none() {
-- 
2.43.0


From af19aedfcc366df5a809321e12879d2bc2da52e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:14 +0000
Subject: [PATCH 20/55] fix: musli: Do not trust size hints when building
 dynamic values

---
 crates/musli/src/value/value.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/crates/musli/src/value/value.rs b/crates/musli/src/value/value.rs
index f13a642..9692939 100644
--- a/crates/musli/src/value/value.rs
+++ b/crates/musli/src/value/value.rs
@@ -1,6 +1,7 @@
 use core::cmp::Ordering;
 use core::fmt;
 use core::marker::PhantomData;
+use core::mem::size_of;
 
 #[cfg(feature = "alloc")]
 use crate::alloc::{AllocError, System};
@@ -274,6 +275,16 @@ impl Number {
     }
 }
 
+/// Calculate how many elements to reserve space for up front.
+///
+/// Size hints come from the data being decoded and can't be trusted, and since
+/// dynamic values nest freely each container gets to reserve little.
+#[inline]
+fn cautious<T>(hint: SizeHint) -> usize {
+    const MAX_PREALLOC_BYTES: usize = 16 * 1024;
+    hint.or_default().min(MAX_PREALLOC_BYTES / size_of::<T>())
+}
+
 struct AnyVisitor;
 
 #[crate::de::visitor(crate)]
@@ -398,8 +409,8 @@ where
     {
         let cx = seq.cx();
 
-        let mut out =
-            Vec::with_capacity_in(seq.size_hint().or_default(), cx.alloc()).map_err(cx.map())?;
+        let capacity = cautious::<Value<C::Allocator>>(seq.size_hint());
+        let mut out = Vec::with_capacity_in(capacity, cx.alloc()).map_err(cx.map())?;
 
         while let Some(item) = seq.try_next()? {
             out.push(item).map_err(cx.map())?;
@@ -415,8 +426,8 @@ where
     {
         let cx = map.cx();
 
-        let mut out =
-            Vec::with_capacity_in(map.size_hint().or_default(), cx.alloc()).map_err(cx.map())?;
+        let capacity = cautious::<(Value<C::Allocator>, Value<C::Allocator>)>(map.size_hint());
+        let mut out = Vec::with_capacity_in(capacity, cx.alloc()).map_err(cx.map())?;
 
         while let Some(mut entry) = map.decode_entry()? {
             let first = entry.decode_key()?.decode()?;
-- 
2.43.0


From 97fc0b5fbdd8dd7899d1b427d9032120462f10ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:24 +0000
Subject: [PATCH 21/55] fix: musli: Count bytes of arrays read from a
 SliceReader once

---
 crates/musli/src/reader.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/musli/src/reader.rs b/crates/musli/src/reader.rs
index ac40301..56f0b05 100644
--- a/crates/musli/src/reader.rs
+++ b/crates/musli/src/reader.rs
@@ -150,9 +150,8 @@ pub trait Reader<'de>: self::sealed::Sealed {
             }
 
             #[inline]
-            fn visit_ref(mut self, cx: C, bytes: &[u8]) -> Result<Self::Ok, C::Error> {
+            fn visit_ref(mut self, _: C, bytes: &[u8]) -> Result<Self::Ok, C::Error> {
                 self.0.copy_from_slice(bytes);
-                cx.advance(bytes.len());
                 Ok(self.0)
             }
         }
-- 
2.43.0


From bf5e6e5cb58b82ac8de3e57599c3a1034291dc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:24 +0000
Subject: [PATCH 22/55] fix: musli: Keep traced paths balanced when memory runs
 out

---
 crates/musli/src/context/trace.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/musli/src/context/trace.rs b/crates/musli/src/context/trace.rs
index 6a66391..3e1990a 100644
--- a/crates/musli/src/context/trace.rs
+++ b/crates/musli/src/context/trace.rs
@@ -211,8 +211,10 @@ where
         // SAFETY: We've checked that we have exclusive access just above.
         let path = unsafe { &mut (*self.path.get()) };
 
-        if path.push(step).is_err() {
-            self.cap.set(&self.cap.get() + 1);
+        // Once a step has been capped everything nested in it has to be capped
+        // as well, since steps are left in the reverse order.
+        if self.cap.get() > 0 || path.push(step).is_err() {
+            self.cap.set(self.cap.get() + 1);
         }
     }
 
@@ -267,6 +269,7 @@ where
     #[inline]
     fn clear(&self) {
         self.mark.set(0);
+        self.cap.set(0);
         let _access = self.access.exclusive();
 
         // SAFETY: We have acquired exclusive access just above.
@@ -405,8 +408,9 @@ where
     where
         T: fmt::Display,
     {
-        if let Some(string) = self.format_string(alloc, field) {
-            self.push_path(Step::Key(string));
+        match self.format_string(alloc, field) {
+            Some(string) => self.push_path(Step::Key(string)),
+            None => self.cap.set(self.cap.get() + 1),
         }
     }
 
-- 
2.43.0


From d792b44e97ea1cfafe213bc4b2f008cb19c2dfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:42 +0000
Subject: [PATCH 23/55] fix: musli: Count bytes of numeric JSON keys once

---
 crates/musli/src/json/de/key_decoder.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/crates/musli/src/json/de/key_decoder.rs b/crates/musli/src/json/de/key_decoder.rs
index 6b9c51b..3b38ba8 100644
--- a/crates/musli/src/json/de/key_decoder.rs
+++ b/crates/musli/src/json/de/key_decoder.rs
@@ -38,10 +38,23 @@ where
     {
         let mut scratch = Vec::new_in(self.cx.alloc());
 
-        match self.parser.parse_string(self.cx, true, &mut scratch)? {
-            StringReference::Borrowed(string) => visitor.visit_borrowed(self.cx, string.as_bytes()),
-            StringReference::Scratch(string) => visitor.visit_ref(self.cx, string.as_bytes()),
-        }
+        let start = self.cx.mark();
+        let string = self.parser.parse_string(self.cx, true, &mut scratch)?;
+        let end = self.cx.mark();
+
+        // The visitor parses the string which has already been accounted for,
+        // so have it report positions from the start of the key.
+        self.cx.restore(&start);
+
+        let output = match string {
+            StringReference::Borrowed(string) => {
+                visitor.visit_borrowed(self.cx, string.as_bytes())?
+            }
+            StringReference::Scratch(string) => visitor.visit_ref(self.cx, string.as_bytes())?,
+        };
+
+        self.cx.restore(&end);
+        Ok(output)
     }
 }
 
-- 
2.43.0


From 13b4c9536caa29591184b0d0a917d77f7a856969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:42 +0000
Subject: [PATCH 24/55] fix: musli-macros: Restore the position between
 untagged variants

---
 crates/musli-macros/src/de.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/musli-macros/src/de.rs b/crates/musli-macros/src/de.rs
index cb2b33e..5d7a1be 100644
--- a/crates/musli-macros/src/de.rs
+++ b/crates/musli-macros/src/de.rs
@@ -315,6 +315,8 @@ fn decode_untagged_enum(cx: &Ctxt<'_>, b: &Build<'_>, en: &Enum<'_>) -> Result<T
             let decode = decode_struct(cx, b, &last.st)?;
 
             Some(quote! {
+                #context_t::restore(#ctx_var, &#mark_var);
+
                 let #result_var: #result<_, <#d_param as #decoder_t<#lt>>::Error> = (|| #decode)();
 
                 if let #result::Ok(output) = #result_var {
@@ -341,6 +343,7 @@ fn decode_untagged_enum(cx: &Ctxt<'_>, b: &Build<'_>, en: &Enum<'_>) -> Result<T
 
                 if let #result::Ok(output) = #result_var {
                     // The value was decoded from a clone, so advance past it.
+                    #context_t::restore(#ctx_var, &#mark_var);
                     #decoder_t::try_skip(#decoder_var)?;
                     break 'output output;
                 }
-- 
2.43.0


From ee80477698424f0cdc1ec9f7d5e8a360a33e3e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:34 +0000
Subject: [PATCH 25/55] fix: musli: Leave the steps of failed untagged variants

---
 crates/musli/src/context/trace.rs | 34 ++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/crates/musli/src/context/trace.rs b/crates/musli/src/context/trace.rs
index 3e1990a..083a53f 100644
--- a/crates/musli/src/context/trace.rs
+++ b/crates/musli/src/context/trace.rs
@@ -143,6 +143,12 @@ impl TraceMode for Trace {
     }
 }
 
+/// A location which can be restored.
+pub struct TraceMark {
+    position: usize,
+    depth: usize,
+}
+
 /// Trace configuration indicating that tracing is enabled through the allocator
 /// `A`.
 pub struct WithTraceImpl<A>
@@ -218,6 +224,16 @@ where
         }
     }
 
+    /// The number of steps which are currently entered.
+    #[inline]
+    fn depth(&self) -> usize {
+        let _access = self.access.shared();
+
+        // SAFETY: We've checked that we have shared access just above.
+        let len = unsafe { (*self.path.get()).len() };
+        len + self.cap.get()
+    }
+
     /// Pop the last path.
     #[inline]
     fn pop_path(&self) {
@@ -264,7 +280,7 @@ impl<A> TraceImpl<A> for WithTraceImpl<A>
 where
     A: Allocator,
 {
-    type Mark = usize;
+    type Mark = TraceMark;
 
     #[inline]
     fn clear(&self) {
@@ -286,12 +302,20 @@ where
 
     #[inline]
     fn mark(&self) -> Self::Mark {
-        self.mark.get()
+        TraceMark {
+            position: self.mark.get(),
+            depth: self.depth(),
+        }
     }
 
     #[inline]
     fn restore(&self, mark: &Self::Mark) {
-        self.mark.set(*mark);
+        self.mark.set(mark.position);
+
+        // Leave any steps which have been entered since.
+        while self.depth() > mark.depth {
+            self.pop_path();
+        }
     }
 
     #[inline]
@@ -320,7 +344,7 @@ where
         T: fmt::Display,
     {
         if let Some(string) = self.format_string(alloc, message) {
-            self.push_error(*mark..self.mark.get(), string);
+            self.push_error(mark.position..self.mark.get(), string);
         }
     }
 
@@ -330,7 +354,7 @@ where
         T: 'static + Send + Sync + fmt::Display + fmt::Debug,
     {
         if let Some(string) = self.format_string(alloc, message) {
-            self.push_error(*mark..self.mark.get(), string);
+            self.push_error(mark.position..self.mark.get(), string);
         }
     }
 
-- 
2.43.0


From 8c6c943a35df7bc19dae2fc971a469e4eeb33c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:15 +0000
Subject: [PATCH 26/55] fix: descriptive: skip every element which is left in a
 sequence

---
 crates/musli/src/descriptive/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli/src/descriptive/de.rs b/crates/musli/src/descriptive/de.rs
index dddf7f7..4c15882 100644
--- a/crates/musli/src/descriptive/de.rs
+++ b/crates/musli/src/descriptive/de.rs
@@ -200,7 +200,7 @@ where
 
     #[inline]
     fn skip_sequence_remaining(mut self) -> Result<(), C::Error> {
-        if let Some(item) = self.try_decode_next()? {
+        while let Some(item) = self.try_decode_next()? {
             item.skip()?;
         }
 
-- 
2.43.0


From f1f4eb9864ead59852bc262c2503c132c188d24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:15 +0000
Subject: [PATCH 27/55] fix: descriptive: do not consume the tag of a number
 twice in decode_number

---
 crates/musli/src/descriptive/de.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/musli/src/descriptive/de.rs b/crates/musli/src/descriptive/de.rs
index 4c15882..d96f009 100644
--- a/crates/musli/src/descriptive/de.rs
+++ b/crates/musli/src/descriptive/de.rs
@@ -374,7 +374,11 @@ where
         V: Visitor<'de, C, Error = Self::Error, Allocator = Self::Allocator>,
     {
         let cx = self.cx;
-        let tag = Tag::from_byte(self.reader.read_byte(cx)?);
+        
+        // The tag is part of the number, so it's only peeked.
+        let Some(tag) = self.reader.peek().map(Tag::from_byte) else {
+            return Err(cx.message("Expected tag in input"));
+        };
 
         match tag.kind() {
             Kind::Number => match tag.data() {
-- 
2.43.0


From 144986afb3dedcb9e96e49ecb62b241acb89c3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:24 +0000
Subject: [PATCH 28/55] fix: storage: entries handed to
 decode_remaining_entries are no longer remaining

---
 crates/musli/src/storage/de.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/storage/de.rs b/crates/musli/src/storage/de.rs
index b31d326..5780910 100644
--- a/crates/musli/src/storage/de.rs
+++ b/crates/musli/src/storage/de.rs
@@ -1,6 +1,6 @@
 use core::fmt;
 use core::marker::PhantomData;
-use core::mem::MaybeUninit;
+use core::mem::{take, MaybeUninit};
 
 use crate::alloc::Vec;
 use crate::de::{
@@ -579,7 +579,7 @@ where
         Ok(LimitedStorageDecoder::with_remaining(
             self.cx,
             self.reader.borrow_mut(),
-            self.remaining,
+            take(&mut self.remaining),
         ))
     }
 }
-- 
2.43.0


From 0d3b14dcb8f3283e9596159f910afec6abe8bd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:24 +0000
Subject: [PATCH 29/55] fix: value: entries handed to decode_remaining_entries
 are no longer remaining

---
 crates/musli/src/value/de.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/musli/src/value/de.rs b/crates/musli/src/value/de.rs
index 2620d72..0ebd981 100644
--- a/crates/musli/src/value/de.rs
+++ b/crates/musli/src/value/de.rs
@@ -595,7 +595,9 @@ where
     fn decode_remaining_entries(
         &mut self,
     ) -> Result<Self::DecodeRemainingEntries<'_>, Self::Error> {
-        Ok(IterValuePairsDecoder::new(self.cx, self.iter.as_slice()))
+        let values = self.iter.as_slice();
+        self.iter = [].iter();
+        Ok(IterValuePairsDecoder::new(self.cx, values))
     }
 }
 
-- 
2.43.0


From 635aed72c4e60ea273439522cce18b8a9a1604ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:24 +0000
Subject: [PATCH 30/55] fix: value: numerical variant tags and cloned keys of
 captured JSON can be decoded

---
 crates/musli/src/value/de.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/value/de.rs b/crates/musli/src/value/de.rs
index 0ebd981..da7ba0c 100644
--- a/crates/musli/src/value/de.rs
+++ b/crates/musli/src/value/de.rs
@@ -126,7 +126,12 @@ where
 
     #[inline]
     fn try_clone(&self) -> Option<Self::TryClone> {
-        Some(ValueDecoder::new(self.cx, self.value))
+        Some(Self {
+            cx: self.cx,
+            value: self.value,
+            map_key: self.map_key,
+            _marker: PhantomData,
+        })
     }
 
     #[inline]
@@ -765,7 +770,7 @@ where
 
     #[inline]
     fn decode_tag(&mut self) -> Result<Self::DecodeTag<'_>, Self::Error> {
-        Ok(ValueDecoder::new(self.cx, &self.pair.0))
+        Ok(ValueDecoder::with_map_key(self.cx, &self.pair.0))
     }
 
     #[inline]
-- 
2.43.0


From e80020ae14aa139bb2dfc787dfe1eee8e7d56542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:15 +0000
Subject: [PATCH 31/55] fix: wire: tag lengths of a fixed width with the number
 of bytes they take

---
 crates/musli/src/wire/int.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/wire/int.rs b/crates/musli/src/wire/int.rs
index ec0579b..6cff502 100644
--- a/crates/musli/src/wire/int.rs
+++ b/crates/musli/src/wire/int.rs
@@ -27,7 +27,7 @@ where
         }
         width => {
             let bo = crate::options::byteorder::<OPT>();
-            let bytes = 1u8 << width as u8;
+            let bytes = 1u8 << (width as u8 - 1);
             writer.write_byte(cx, Tag::new(Kind::Prefix, bytes).byte())?;
 
             macro_rules! fixed {
@@ -72,7 +72,7 @@ where
         width => {
             let bo = crate::options::byteorder::<OPT>();
 
-            let bytes = 1u8 << width as u8;
+            let bytes = 1u8 << (width as u8 - 1);
             let tag = Tag::from_byte(reader.read_byte(cx)?);
 
             if tag != Tag::new(Kind::Prefix, bytes) {
-- 
2.43.0


From 12d5fcefc5b7e05e38152bdbbbe0dba7d1010c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:19 +0000
Subject: [PATCH 32/55] fix: descriptive: read packs of captured values with
 the options they were written with

---
 crates/musli/src/descriptive/de.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/crates/musli/src/descriptive/de.rs b/crates/musli/src/descriptive/de.rs
index d96f009..b8275fc 100644
--- a/crates/musli/src/descriptive/de.rs
+++ b/crates/musli/src/descriptive/de.rs
@@ -8,7 +8,6 @@ use crate::de::{
     UnsizedVisitor, VariantDecoder, Visitor,
 };
 use crate::int::continuation as c;
-use crate::options;
 use crate::reader::Limit;
 use crate::storage::de::StorageDecoder;
 use crate::value::{IntoValueDecoder, Value};
@@ -18,8 +17,6 @@ use crate::{Options, Reader};
 use super::integer_encoding::{decode_typed_signed, decode_typed_unsigned};
 use super::tag::{Kind, Mark, Tag, F32, F64, I128, I16, I32, I64, I8, U128, U16, U32, U64, U8};
 
-const BUFFER_OPTIONS: Options = options::new().build();
-
 /// A very simple decoder.
 pub struct SelfDecoder<const OPT: Options, R, C, M> {
     cx: C,
@@ -234,7 +231,7 @@ where
     type Allocator = C::Allocator;
     type Mode = M;
     type TryClone = SelfDecoder<OPT, R::TryClone, C, M>;
-    type DecodeBuffer = IntoValueDecoder<BUFFER_OPTIONS, C, C::Allocator, M>;
+    type DecodeBuffer = IntoValueDecoder<OPT, C, C::Allocator, M>;
     type DecodePack = SelfDecoder<OPT, Limit<R>, C, M>;
     type DecodeSome = Self;
     type DecodeSequence = RemainingSelfDecoder<OPT, R, C, M>;
-- 
2.43.0


From 656c0ebbc5a8313ab16d5a90d208c78ce36e6833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:57 +0000
Subject: [PATCH 33/55] fix: retain unit values when encoding dynamic values

---
 crates/musli/src/value/en.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/musli/src/value/en.rs b/crates/musli/src/value/en.rs
index 028431a..8a46ae1 100644
--- a/crates/musli/src/value/en.rs
+++ b/crates/musli/src/value/en.rs
@@ -128,6 +128,7 @@ where
 
     #[inline]
     fn encode_empty(self) -> Result<(), Self::Error> {
+        self.output.write(self.cx, Value::Unit)?;
         Ok(())
     }
 
-- 
2.43.0


From 10e773c428fe20826ac2ed9b3e3b3b4d61250f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:03 +0000
Subject: [PATCH 34/55] fix: descriptive floats convert from other kinds of
 numbers

---
 crates/musli/src/descriptive/de.rs            | 12 +---
 .../musli/src/descriptive/integer_encoding.rs | 55 ++++++++++++++++++-
 2 files changed, 57 insertions(+), 10 deletions(-)

diff --git a/crates/musli/src/descriptive/de.rs b/crates/musli/src/descriptive/de.rs
index b8275fc..ecef24b 100644
--- a/crates/musli/src/descriptive/de.rs
+++ b/crates/musli/src/descriptive/de.rs
@@ -14,7 +14,7 @@ use crate::value::{IntoValueDecoder, Value};
 use crate::Context;
 use crate::{Options, Reader};
 
-use super::integer_encoding::{decode_typed_signed, decode_typed_unsigned};
+use super::integer_encoding::{decode_typed_float, decode_typed_signed, decode_typed_unsigned};
 use super::tag::{Kind, Mark, Tag, F32, F64, I128, I16, I32, I64, I8, U128, U16, U32, U64, U8};
 
 /// A very simple decoder.
@@ -524,20 +524,14 @@ where
         decode_typed_signed(self.cx, self.reader)
     }
 
-    /// Decode a 32-bit floating point value by reading the 32-bit in-memory
-    /// IEEE 754 encoding byte-by-byte.
     #[inline]
     fn decode_f32(self) -> Result<f32, Self::Error> {
-        let bits = self.decode_u32()?;
-        Ok(f32::from_bits(bits))
+        Ok(decode_typed_float(self.cx, self.reader)?.into_f32())
     }
 
-    /// Decode a 64-bit floating point value by reading the 64-bit in-memory
-    /// IEEE 754 encoding byte-by-byte.
     #[inline]
     fn decode_f64(self) -> Result<f64, Self::Error> {
-        let bits = self.decode_u64()?;
-        Ok(f64::from_bits(bits))
+        Ok(decode_typed_float(self.cx, self.reader)?.into_f64())
     }
 
     #[inline]
diff --git a/crates/musli/src/descriptive/integer_encoding.rs b/crates/musli/src/descriptive/integer_encoding.rs
index 39aa221..9b78c60 100644
--- a/crates/musli/src/descriptive/integer_encoding.rs
+++ b/crates/musli/src/descriptive/integer_encoding.rs
@@ -3,7 +3,7 @@ use crate::int::zigzag as zig;
 use crate::int::{Signed, Unsigned};
 use crate::{Context, Reader, Writer};
 
-use super::tag::{Kind, NumberKind, Tag};
+use super::tag::{Kind, NumberKind, Tag, F32, F64};
 
 #[inline]
 pub(crate) fn encode_typed_unsigned<C, W, T>(
@@ -47,6 +47,59 @@ where
     }
 }
 
+/// Decode a floating point number, converting it from the kind of number it was
+/// encoded as.
+#[inline]
+pub(crate) fn decode_typed_float<'de, C, R>(cx: C, mut reader: R) -> Result<Float, C::Error>
+where
+    C: Context,
+    R: Reader<'de>,
+{
+    let tag = Tag::from_byte(reader.read_byte(cx)?);
+
+    if tag.kind() != Kind::Number {
+        return Err(cx.message(format_args!("Expected {:?}, got {tag:?}", Kind::Number)));
+    }
+
+    match (tag.data(), tag.number_kind()) {
+        (Some(F32), _) => Ok(Float::F32(f32::from_bits(c::decode(cx, reader)?))),
+        (Some(F64), _) => Ok(Float::F64(f64::from_bits(c::decode(cx, reader)?))),
+        (_, NumberKind::Signed) => Ok(Float::Signed(zig::decode(c::decode::<_, _, u128>(cx, reader)?))),
+        (_, NumberKind::Unsigned) => Ok(Float::Unsigned(c::decode(cx, reader)?)),
+        _ => Err(cx.message(format_args!("Expected number, got {tag:?}"))),
+    }
+}
+
+/// A number which can be converted into a floating point number.
+pub(crate) enum Float {
+    F32(f32),
+    F64(f64),
+    Signed(i128),
+    Unsigned(u128),
+}
+
+impl Float {
+    #[inline]
+    pub(crate) fn into_f32(self) -> f32 {
+        match self {
+            Float::F32(value) => value,
+            Float::F64(value) => value as f32,
+            Float::Signed(value) => value as f32,
+            Float::Unsigned(value) => value as f32,
+        }
+    }
+
+    #[inline]
+    pub(crate) fn into_f64(self) -> f64 {
+        match self {
+            Float::F32(value) => f64::from(value),
+            Float::F64(value) => value,
+            Float::Signed(value) => value as f64,
+            Float::Unsigned(value) => value as f64,
+        }
+    }
+}
+
 #[inline]
 fn encode_typed<C, W, T>(cx: C, mut writer: W, bits: u8, value: T) -> Result<(), C::Error>
 where
-- 
2.43.0


From a2719983e452257e3284c631a03f39ce45e02c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:36 +0000
Subject: [PATCH 35/55] fix: a usize offset of a foreign byte order was read in
 the native one

---
 crates/musli-zerocopy/src/pointer/size.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/musli-zerocopy/src/pointer/size.rs b/crates/musli-zerocopy/src/pointer/size.rs
index 4e78928..da328dc 100644
--- a/crates/musli-zerocopy/src/pointer/size.rs
+++ b/crates/musli-zerocopy/src/pointer/size.rs
@@ -132,10 +132,12 @@ macro_rules! impl_size {
             where
                 E: ByteOrder,
             {
-                if self > usize::MAX as $ty {
+                let value = $swap(self);
+
+                if value > usize::MAX as $ty {
                     usize::MAX
                 } else {
-                    $swap(self) as usize
+                    value as usize
                 }
             }
 
@@ -152,4 +154,4 @@ impl_size!(u16, E::swap_u16);
 impl_size!(u32, E::swap_u32);
 #[cfg(target_pointer_width = "64")]
 impl_size!(u64, E::swap_u64);
-impl_size!(usize, core::convert::identity);
+impl_size!(usize, E::swap_usize);
-- 
2.43.0


From ad6f9e461f4c9bab9eef9751c4efcd0978625c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:58 +0000
Subject: [PATCH 36/55] fix: validation of a misaligned value looked for its
 fields at aligned addresses instead of at its offsets

---
 crates/musli-zerocopy-macros/src/zero_copy/mod.rs |  2 +-
 crates/musli-zerocopy/src/buf/validator.rs        | 15 +++++++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/crates/musli-zerocopy-macros/src/zero_copy/mod.rs b/crates/musli-zerocopy-macros/src/zero_copy/mod.rs
index 5f5febb..dd1ede8 100644
--- a/crates/musli-zerocopy-macros/src/zero_copy/mod.rs
+++ b/crates/musli-zerocopy-macros/src/zero_copy/mod.rs
@@ -556,7 +556,7 @@ fn expand(cx: &Ctxt, input: syn::DeriveInput) -> Result<TokenStream, ()> {
 
                 // SAFETY: We've systematically ensured that we're only
                 // validating over fields within the size of this type.
-                match *#validator::field::<#ty>(validator)? {
+                match #validator::load_unaligned::<#ty>(validator)? {
                     #(#validate_variants,)*
                     value => return #result::Err(#error::__illegal_enum_discriminant::<Self>(value)),
                 }
diff --git a/crates/musli-zerocopy/src/buf/validator.rs b/crates/musli-zerocopy/src/buf/validator.rs
index 13f82e1..77dc496 100644
--- a/crates/musli-zerocopy/src/buf/validator.rs
+++ b/crates/musli-zerocopy/src/buf/validator.rs
@@ -3,6 +3,7 @@ use core::mem::{align_of, size_of, transmute};
 use core::ops::Range;
 use core::ptr::{self, NonNull};
 
+use crate::buf;
 use crate::error::Error;
 use crate::traits::ZeroCopy;
 
@@ -11,9 +12,12 @@ use crate::traits::ZeroCopy;
 /// [`Buf`]: crate::buf::Buf
 /// [`Buf::validate_struct`]: crate::buf::Buf::validate_struct
 #[must_use = "Must call `Validator::end` when validation is completed"]
-#[repr(transparent)]
+#[repr(C)]
 pub struct Validator<'a, T: ?Sized> {
     data: NonNull<u8>,
+    // Offset of `data` from the start of the value being validated, which is
+    // what fields are aligned by. The value itself might not be aligned.
+    offset: usize,
     _marker: PhantomData<&'a T>,
 }
 
@@ -36,6 +40,7 @@ impl<'a, T: ?Sized> Validator<'a, T> {
     pub(crate) unsafe fn new(data: NonNull<u8>) -> Self {
         Self {
             data,
+            offset: 0,
             _marker: PhantomData,
         }
     }
@@ -114,7 +119,7 @@ impl<'a, T: ?Sized> Validator<'a, T> {
     #[inline]
     pub unsafe fn byte(&mut self) -> u8 {
         let b = ptr::read(self.data.as_ptr());
-        self.data = NonNull::new_unchecked(self.data.as_ptr().add(1));
+        self.advance::<u8>();
         b
     }
 
@@ -262,14 +267,16 @@ impl<'a, T: ?Sized> Validator<'a, T> {
     /// Align the current pointer by `F`.
     #[inline]
     pub(crate) unsafe fn align_with(&mut self, align: usize) {
-        let offset = self.data.as_ptr().align_offset(align);
-        self.data = NonNull::new_unchecked(self.data.as_ptr().add(offset));
+        let count = buf::padding_to(self.offset, align);
+        self.data = NonNull::new_unchecked(self.data.as_ptr().add(count));
+        self.offset += count;
     }
 
     /// Advance the current pointer by `F`.
     #[inline]
     pub(crate) unsafe fn advance<F>(&mut self) {
         self.data = NonNull::new_unchecked(self.data.as_ptr().add(size_of::<F>()));
+        self.offset += size_of::<F>();
     }
 
     /// Return the address range associated with a just read `F` for diagnostics.
-- 
2.43.0


From 90b405c899cad30a51b11e941bf2e5d6f0036f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:26 +0000
Subject: [PATCH 37/55] fix: fields of a struct packed to more than one byte
 were taken to be aligned beyond their own alignment

---
 crates/musli-zerocopy/src/buf/padder.rs    | 3 ++-
 crates/musli-zerocopy/src/buf/validator.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/musli-zerocopy/src/buf/padder.rs b/crates/musli-zerocopy/src/buf/padder.rs
index 06d78f9..7d411b5 100644
--- a/crates/musli-zerocopy/src/buf/padder.rs
+++ b/crates/musli-zerocopy/src/buf/padder.rs
@@ -80,7 +80,8 @@ impl<'a, T: ?Sized> Padder<'a, T> {
     where
         F: ZeroCopy,
     {
-        let count = buf::padding_to(self.offset, align);
+        // NB: A field is never placed at more than its own alignment.
+        let count = buf::padding_to(self.offset, align.min(align_of::<F>()));
         // zero out padding.
         self.data.as_ptr().add(self.offset).write_bytes(0, count);
         self.offset += count;
diff --git a/crates/musli-zerocopy/src/buf/validator.rs b/crates/musli-zerocopy/src/buf/validator.rs
index 77dc496..3a849d6 100644
--- a/crates/musli-zerocopy/src/buf/validator.rs
+++ b/crates/musli-zerocopy/src/buf/validator.rs
@@ -238,7 +238,8 @@ impl<'a, T: ?Sized> Validator<'a, T> {
     where
         F: ZeroCopy,
     {
-        self.align_with(align);
+        // NB: A field is never placed at more than its own alignment.
+        self.align_with(align.min(align_of::<F>()));
         F::validate(&mut Validator::new(self.data))?;
         self.advance::<F>();
         Ok(())
-- 
2.43.0


From 9814ad5c18f33d18c92e2cc4a7726c204ac57297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:29 +0000
Subject: [PATCH 38/55] fix: ignored zero-sized fields that are aligned were
 left out of the layout

---
 .../src/zero_copy/mod.rs                      | 101 ++++++++++++------
 crates/musli-zerocopy/src/buf/padder.rs       |  19 ++++
 crates/musli-zerocopy/src/buf/validator.rs    |  14 +++
 3 files changed, 103 insertions(+), 31 deletions(-)

diff --git a/crates/musli-zerocopy-macros/src/zero_copy/mod.rs b/crates/musli-zerocopy-macros/src/zero_copy/mod.rs
index dd1ede8..db95cd0 100644
--- a/crates/musli-zerocopy-macros/src/zero_copy/mod.rs
+++ b/crates/musli-zerocopy-macros/src/zero_copy/mod.rs
@@ -186,32 +186,17 @@ fn expand(cx: &Ctxt, input: syn::DeriveInput) -> Result<TokenStream, ()> {
                 _ => {
                     let types = &output.types;
 
-                    match r.repr_packed {
-                        Some((_, align)) => {
-                            pad = quote! {
-                                #(#padder::pad_with::<#types>(padder, #align);)*
-                            };
-
-                            validate = quote! {
-                                // SAFETY: We've systematically ensured that we're
-                                // only validating over fields within the size of
-                                // this type.
-                                #(#validator::validate_with::<#types>(validator, #align)?;)*
-                            };
-                        }
-                        _ => {
-                            pad = quote! {
-                                #(#padder::pad::<#types>(padder);)*
-                            };
-
-                            validate = quote! {
-                                // SAFETY: We've systematically ensured that we're
-                                // only validating over fields within the size of
-                                // this type.
-                                #(#validator::validate::<#types>(validator)?;)*
-                            };
-                        }
-                    }
+                    let packed = r.repr_packed.map(|(_, align)| align);
+                    let pad_fields = output.pad_fields(&padder, &mem, packed);
+                    let validate_fields = output.validate_fields(&validator, &mem, packed);
+
+                    pad = quote!(#(#pad_fields)*);
+
+                    validate = quote! {
+                        // SAFETY: We've systematically ensured that we're only
+                        // validating over fields within the size of this type.
+                        #(#validate_fields)*
+                    };
 
                     let Fields {
                         members,
@@ -374,8 +359,6 @@ fn expand(cx: &Ctxt, input: syn::DeriveInput) -> Result<TokenStream, ()> {
                     }
                 }
 
-                let types = &output.types;
-
                 let discriminant_const =
                     syn::Ident::new(&format!("DISCRIMINANT{}", index), variant.ident.span());
 
@@ -385,19 +368,21 @@ fn expand(cx: &Ctxt, input: syn::DeriveInput) -> Result<TokenStream, ()> {
                     const #discriminant_const: #ty = #discriminant;
                 });
 
+                let validate_fields = output.validate_fields(&validator, &mem, None);
+
                 validate_variants.push(quote! {
                     #discriminant_const => {
-                        #(#validator::validate::<#types>(validator)?;)*
+                        #(#validate_fields)*
                     }
                 });
 
                 let ident = &variant.ident;
 
-                let Fields { types, .. } = &output;
+                let pad_fields = output.pad_fields(&padder, &mem, None);
 
                 pad_variants.push(quote! {
                     #discriminant_const => {
-                        #(#padder::pad::<#types>(padder);)*
+                        #(#pad_fields)*
                     }
                 });
 
@@ -726,6 +711,8 @@ fn build_field_exhaustive_pattern<const N: usize>(
 #[derive(Default)]
 struct Fields<'a> {
     types: Vec<&'a syn::Type>,
+    // Every field in order, and whether it is ignored.
+    layout: Vec<(&'a syn::Type, bool)>,
     exhaustive: Vec<syn::Member>,
     assigns: Vec<syn::FieldValue>,
     members: Vec<syn::Member>,
@@ -736,6 +723,56 @@ struct Fields<'a> {
     check_zero_sized: Vec<&'a syn::Type>,
 }
 
+impl Fields<'_> {
+    /// Construct calls padding every field in order.
+    fn pad_fields(
+        &self,
+        padder: &syn::Path,
+        mem: &syn::Path,
+        packed: Option<usize>,
+    ) -> Vec<TokenStream> {
+        let mut out = Vec::new();
+
+        for &(ty, ignored) in &self.layout {
+            out.push(match (ignored, packed) {
+                (false, None) => quote!(#padder::pad::<#ty>(padder);),
+                (false, Some(align)) => quote!(#padder::pad_with::<#ty>(padder, #align);),
+                (true, None) => {
+                    quote!(#padder::pad_ignored::<#ty>(padder, #mem::align_of::<#ty>());)
+                }
+                (true, Some(align)) => quote!(#padder::pad_ignored::<#ty>(padder, #align);),
+            });
+        }
+
+        out
+    }
+
+    /// Construct calls validating every field in order.
+    fn validate_fields(
+        &self,
+        validator: &syn::Path,
+        mem: &syn::Path,
+        packed: Option<usize>,
+    ) -> Vec<TokenStream> {
+        let mut out = Vec::new();
+
+        for &(ty, ignored) in &self.layout {
+            out.push(match (ignored, packed) {
+                (false, None) => quote!(#validator::validate::<#ty>(validator)?;),
+                (false, Some(align)) => {
+                    quote!(#validator::validate_with::<#ty>(validator, #align)?;)
+                }
+                (true, None) => {
+                    quote!(#validator::validate_ignored::<#ty>(validator, #mem::align_of::<#ty>());)
+                }
+                (true, Some(align)) => quote!(#validator::validate_ignored::<#ty>(validator, #align);),
+            });
+        }
+
+        out
+    }
+}
+
 fn process_fields<'a>(cx: &Ctxt, fields: &'a syn::Fields) -> Fields<'a> {
     let mut output = Fields::default();
 
@@ -786,6 +823,8 @@ fn process_fields<'a>(cx: &Ctxt, fields: &'a syn::Fields) -> Fields<'a> {
             syn::Member::Unnamed(index) => syn::parse_quote!(#index: #variable),
         });
 
+        output.layout.push((ty, ignore.is_some()));
+
         if ignore.is_some() {
             output.check_zero_sized.push(ty);
             output.ignored_members.push(member);
diff --git a/crates/musli-zerocopy/src/buf/padder.rs b/crates/musli-zerocopy/src/buf/padder.rs
index 7d411b5..4107195 100644
--- a/crates/musli-zerocopy/src/buf/padder.rs
+++ b/crates/musli-zerocopy/src/buf/padder.rs
@@ -96,6 +96,25 @@ impl<'a, T: ?Sized> Padder<'a, T> {
         self.offset += size_of::<F>();
     }
 
+    /// Pad up to the position of a zero-sized field `F` which is ignored.
+    ///
+    /// Such a field has no bytes of its own, but it still causes padding if it
+    /// is aligned.
+    ///
+    /// # Safety
+    ///
+    /// The caller must ensure that the field type `F` is an actual zero-sized
+    /// field in order in the struct being padded and that `align` is at least
+    /// its alignment or matches the argument provided to `#[repr(packed)]`.
+    #[doc(hidden)]
+    #[inline]
+    pub unsafe fn pad_ignored<F>(&mut self, align: usize) {
+        let count = buf::padding_to(self.offset, align.min(align_of::<F>()));
+        // zero out padding.
+        self.data.as_ptr().add(self.offset).write_bytes(0, count);
+        self.offset += count;
+    }
+
     /// Specific method to both pad for a discriminant and load it
     /// simultaneously for inspection.
     ///
diff --git a/crates/musli-zerocopy/src/buf/validator.rs b/crates/musli-zerocopy/src/buf/validator.rs
index 3a849d6..ee91a45 100644
--- a/crates/musli-zerocopy/src/buf/validator.rs
+++ b/crates/musli-zerocopy/src/buf/validator.rs
@@ -245,6 +245,20 @@ impl<'a, T: ?Sized> Validator<'a, T> {
         Ok(())
     }
 
+    /// Skip past a zero-sized field `F` which is ignored.
+    ///
+    /// # Safety
+    ///
+    /// The caller must ensure that the field type `F` is an actual zero-sized
+    /// field in order in the struct being validated and that `align` is at
+    /// least its alignment or matches the argument provided to
+    /// `#[repr(packed)]`.
+    #[doc(hidden)]
+    #[inline]
+    pub unsafe fn validate_ignored<F>(&mut self, align: usize) {
+        self.align_with(align.min(align_of::<F>()));
+    }
+
     /// Only validate the given field without aligning it.
     ///
     /// # Safety
-- 
2.43.0


From 1857f7e8a85f1667fd6214ae7421bae7c26de3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:46 +0000
Subject: [PATCH 39/55] fix: references to the elements of a slice overflowed,
 and iterating over zero-sized elements gave none

---
 crates/musli-zerocopy/src/pointer/ref.rs | 35 ++++++++++++++----------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/crates/musli-zerocopy/src/pointer/ref.rs b/crates/musli-zerocopy/src/pointer/ref.rs
index 5d2deff..0667b41 100644
--- a/crates/musli-zerocopy/src/pointer/ref.rs
+++ b/crates/musli-zerocopy/src/pointer/ref.rs
@@ -341,8 +341,8 @@ where
             return None;
         }
 
-        let offset = self.offset.as_usize::<E>() + size_of::<T>() * index;
-        Some(Ref::new(offset))
+        let offset = O::try_from_usize(offset_of::<T>(self.offset(), index))?;
+        Some(Ref::new(offset.as_usize::<Native>()))
     }
 
     /// Get an unchecked reference directly out of the slice without validation.
@@ -372,8 +372,7 @@ where
     /// # Ok::<_, musli_zerocopy::Error>(())
     /// ```
     pub fn get_unchecked(self, index: usize) -> Ref<T, E, O> {
-        let offset = self.offset.as_usize::<E>() + size_of::<T>() * index;
-        Ref::new(offset)
+        Ref::new(offset_of::<T>(self.offset(), index))
     }
 
     /// Split the slice reference at the given position `at`.
@@ -407,7 +406,7 @@ where
         let len = self.len();
         assert!(at <= len, "Split point {at} is out of bounds 0..={len}");
         let a = Self::with_metadata(offset, at);
-        let b = Self::with_metadata(offset + at * size_of::<T>(), len - at);
+        let b = Self::with_metadata(offset_of::<T>(offset, at), len - at);
         (a, b)
     }
 
@@ -452,12 +451,10 @@ where
     /// ```
     #[inline]
     pub fn iter(self) -> Iter<T, E, O> {
-        let start = self.offset.as_usize::<E>();
-        let end = start + self.metadata.as_usize::<E>() * size_of::<T>();
-
         Iter {
-            start,
-            end,
+            offset: self.offset(),
+            start: 0,
+            end: self.len(),
             _marker: PhantomData,
         }
     }
@@ -502,10 +499,20 @@ where
     }
 }
 
+/// The offset of an element in a slice starting at `offset`.
+///
+/// The slice might have been loaded from a buffer which is not trusted, so what
+/// it claims to cover does not have to be addressable.
+#[inline]
+fn offset_of<T>(offset: usize, index: usize) -> usize {
+    offset.saturating_add(index.saturating_mul(size_of::<T>()))
+}
+
 /// An iterator over a `Ref<[T]>` which produces `Ref<T>` values.
 ///
 /// See [`Ref::iter`].
 pub struct Iter<T, E, O> {
+    offset: usize,
     start: usize,
     end: usize,
     _marker: PhantomData<(T, E, O)>,
@@ -526,8 +533,8 @@ where
         }
 
         let start = self.start;
-        self.start += size_of::<T>();
-        Some(Ref::new(start))
+        self.start += 1;
+        Some(Ref::new(offset_of::<T>(self.offset, start)))
     }
 }
 
@@ -543,8 +550,8 @@ where
             return None;
         }
 
-        self.end -= size_of::<T>();
-        Some(Ref::new(self.end))
+        self.end -= 1;
+        Some(Ref::new(offset_of::<T>(self.offset, self.end)))
     }
 }
 
-- 
2.43.0


From d6e0d58c7a36c473b2151a98221bc6dc19c89cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:19 +0000
Subject: [PATCH 40/55] fix: aligning an empty buffer in place allocated
 nothing and freed memory it never had

---
 crates/musli-zerocopy/src/buf/owned_buf.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/musli-zerocopy/src/buf/owned_buf.rs b/crates/musli-zerocopy/src/buf/owned_buf.rs
index 45caee5..c31a926 100644
--- a/crates/musli-zerocopy/src/buf/owned_buf.rs
+++ b/crates/musli-zerocopy/src/buf/owned_buf.rs
@@ -920,6 +920,14 @@ where
     pub fn align_in_place(&mut self) {
         // SAFETY: self.requested is guaranteed to be a power of two.
         if !buf::is_aligned_with(self.as_ptr(), self.requested) {
+            if self.capacity == 0 {
+                // SAFETY: self.requested is a power of two, so it's not zero.
+                // There is no allocation to move.
+                self.data = unsafe { dangling(self.requested) };
+                self.align = self.requested;
+                return;
+            }
+
             let (old_layout, new_layout) = self.layouts(self.capacity);
             self.alloc_new(old_layout, new_layout);
         }
-- 
2.43.0


From ea0f1fb05b74dcbe1eb41c55b9d6c65ce55f36f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:21 +0000
Subject: [PATCH 41/55] fix: perfect hash indexes of more than two entries lost
 them: displacements and entries were put in the wrong places

---
 crates/musli-zerocopy/src/phf/factory.rs   | 18 +++++++++++-------
 crates/musli-zerocopy/src/phf/generator.rs | 15 ++++++++++-----
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/crates/musli-zerocopy/src/phf/factory.rs b/crates/musli-zerocopy/src/phf/factory.rs
index b8c4977..98ccfcd 100644
--- a/crates/musli-zerocopy/src/phf/factory.rs
+++ b/crates/musli-zerocopy/src/phf/factory.rs
@@ -1,6 +1,7 @@
 #![allow(clippy::type_complexity)]
 
 use core::hash::Hash;
+use core::mem;
 
 use crate::buf::{StoreBuf, Visit};
 use crate::error::Error;
@@ -177,17 +178,20 @@ where
         )?
     };
 
-    for (from, a) in map.iter().enumerate() {
+    // The map holds the index of the entry which belongs in each slot, so move
+    // entries into place one cycle at a time.
+    for start in 0..map.len() {
+        let mut to = start;
+
         loop {
-            let to = *buf.as_mut_buf().load(a)?;
+            let from = mem::replace(buf.as_mut_buf().load_mut(map.at(to))?, to);
 
-            if from != to {
-                buf.swap(entries.at(from), entries.at(to))?;
-                buf.swap(map.at(from), map.at(to))?;
-                continue;
+            if from == start {
+                break;
             }
 
-            break;
+            buf.swap(entries.at(to), entries.at(from))?;
+            to = from;
         }
     }
 
diff --git a/crates/musli-zerocopy/src/phf/generator.rs b/crates/musli-zerocopy/src/phf/generator.rs
index 26eee0c..707f9ed 100644
--- a/crates/musli-zerocopy/src/phf/generator.rs
+++ b/crates/musli-zerocopy/src/phf/generator.rs
@@ -1,3 +1,4 @@
+use core::cmp::Reverse;
 use core::hash::Hash;
 
 use alloc::vec;
@@ -84,14 +85,18 @@ where
         hashes.push(h);
     }
 
-    let mut buckets = vec![Vec::<usize>::new(); displacements.len()];
+    // Buckets with the index of the displacement they use.
+    let mut buckets = (0..displacements.len())
+        .map(|index| (index, Vec::<usize>::new()))
+        .collect::<Vec<_>>();
 
     for (index, hash) in hashes.iter().enumerate() {
         let to = hash.g % buckets.len();
-        buckets[to].push(index);
+        buckets[to].1.push(index);
     }
 
-    buckets.sort_by_key(|a| a.len());
+    // Place the largest buckets first, since they are the hardest to place.
+    buckets.sort_by_key(|(_, a)| Reverse(a.len()));
 
     let table_len = hashes.len();
     // let mut map = vec![usize::MAX; table_len];
@@ -111,7 +116,7 @@ where
     // chosen the right displacements.
     let mut values_to_add = vec![];
 
-    'outer: for (bucket, d_ref) in buckets.iter().zip(displacements.iter()) {
+    'outer: for (d_index, bucket) in &buckets {
         for d1 in 0..(table_len as u32) {
             'inner: for d2 in 0..(table_len as u32) {
                 values_to_add.clear();
@@ -131,7 +136,7 @@ where
                 }
 
                 // We've picked a good set of displacements
-                *buf.load_mut(d_ref)? = Entry::new(d1, d2);
+                *buf.load_mut(displacements.at(*d_index))? = Entry::new(d1, d2);
 
                 for &(i, key) in &values_to_add {
                     let m = buf.load_mut(map.at(i))?;
-- 
2.43.0


From c5cfffe2086ed4c9f26e3c7a4f1291e056351499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:21 +0000
Subject: [PATCH 42/55] fix: the length of a swiss map counted reserved buckets

---
 crates/musli-zerocopy/src/swiss/constructor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli-zerocopy/src/swiss/constructor.rs b/crates/musli-zerocopy/src/swiss/constructor.rs
index 5a204c0..03ef9f4 100644
--- a/crates/musli-zerocopy/src/swiss/constructor.rs
+++ b/crates/musli-zerocopy/src/swiss/constructor.rs
@@ -84,7 +84,7 @@ where
 
     /// Get the length of the table.
     pub(crate) fn len(&self) -> usize {
-        self.bucket_mask - self.growth_left
+        bucket_mask_to_capacity(self.bucket_mask) - self.growth_left
     }
 
     /// Returns the number of buckets in the table.
-- 
2.43.0


From 8f0377f3b94f09801527d5782c6d81c720770568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:16 +0000
Subject: [PATCH 43/55] fix: a swiss map or set could not be bound if zeroed
 memory is not a valid entry

---
 crates/musli-zerocopy/src/swiss/map.rs | 27 ++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/crates/musli-zerocopy/src/swiss/map.rs b/crates/musli-zerocopy/src/swiss/map.rs
index cdc0b29..a8de810 100644
--- a/crates/musli-zerocopy/src/swiss/map.rs
+++ b/crates/musli-zerocopy/src/swiss/map.rs
@@ -15,6 +15,7 @@
 use core::borrow::Borrow;
 use core::convert::identity as likely;
 use core::hash::{Hash, Hasher};
+use core::marker::PhantomData;
 use core::mem::size_of;
 
 use crate::buf::{Bindable, Buf, Visit};
@@ -408,12 +409,20 @@ where
 
 pub(crate) struct RawTable<'a, T> {
     ctrl: &'a [u8],
-    entries: &'a [T],
+    // Location of entries. They are loaded once they are found to be occupied,
+    // since unoccupied entries might not be valid values.
+    entries_offset: usize,
+    entries_len: usize,
     bucket_mask: usize,
     len: usize,
+    buf: &'a Buf,
+    _marker: PhantomData<&'a [T]>,
 }
 
-impl<'a, T> RawTable<'a, T> {
+impl<'a, T> RawTable<'a, T>
+where
+    T: ZeroCopy,
+{
     /// Searches for an element in the table.
     #[inline]
     pub(crate) fn find(
@@ -433,14 +442,17 @@ impl<'a, T> RawTable<'a, T> {
     }
 
     fn entry(&self, index: usize) -> Result<&'a T, Error> {
-        let Some(entry) = self.entries.get(index) else {
+        let entries =
+            Ref::<[T], Native, usize>::with_metadata(self.entries_offset, self.entries_len);
+
+        let Some(entry) = entries.get(index) else {
             return Err(Error::new(ErrorKind::IndexOutOfBounds {
                 index,
-                len: self.entries.len(),
+                len: self.entries_len,
             }));
         };
 
-        Ok(entry)
+        self.buf.load(entry)
     }
 
     /// Searches for an element in a table, returning the `index` of the found
@@ -528,9 +540,12 @@ where
     pub(crate) fn bind<'buf>(&self, buf: &'buf Buf) -> Result<RawTable<'buf, T>, Error> {
         Ok(RawTable {
             ctrl: buf.load(self.ctrl)?,
-            entries: buf.load(self.entries)?,
+            entries_offset: self.entries.offset(),
+            entries_len: self.entries.len(),
             bucket_mask: self.bucket_mask.to_ne(),
             len: self.len.to_ne(),
+            buf,
+            _marker: PhantomData,
         })
     }
 
-- 
2.43.0


From 69f1dce380f0d3356700614feee27972857d8823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:25 +0000
Subject: [PATCH 44/55] fix: stored maps and sets lost entries beyond what
 their offset type can address

---
 crates/musli-zerocopy/src/phf/map.rs     | 4 ++--
 crates/musli-zerocopy/src/phf/set.rs     | 4 ++--
 crates/musli-zerocopy/src/pointer/ref.rs | 7 +++++++
 crates/musli-zerocopy/src/swiss/map.rs   | 2 +-
 4 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/crates/musli-zerocopy/src/phf/map.rs b/crates/musli-zerocopy/src/phf/map.rs
index caa0cfe..35d8b4e 100644
--- a/crates/musli-zerocopy/src/phf/map.rs
+++ b/crates/musli-zerocopy/src/phf/map.rs
@@ -346,7 +346,7 @@ where
 
         let hashes = crate::phf::hashing::hash(buf, key, &self.key.to_ne())?;
 
-        let displacements = |index| match self.displacements.get(index) {
+        let displacements = |index| match self.displacements.to_native().get(index) {
             Some(entry) => Ok(Some(buf.load(entry)?)),
             None => Ok(None),
         };
@@ -358,7 +358,7 @@ where
             self.entries.len(),
         )?;
 
-        let Some(e) = self.entries.get(index) else {
+        let Some(e) = self.entries.to_native().get(index) else {
             return Ok(None);
         };
 
diff --git a/crates/musli-zerocopy/src/phf/set.rs b/crates/musli-zerocopy/src/phf/set.rs
index b011c58..c4679f7 100644
--- a/crates/musli-zerocopy/src/phf/set.rs
+++ b/crates/musli-zerocopy/src/phf/set.rs
@@ -215,7 +215,7 @@ where
 
         let hashes = crate::phf::hashing::hash(buf, key, &self.key.to_ne())?;
 
-        let displacements = |index| match self.displacements.get(index) {
+        let displacements = |index| match self.displacements.to_native().get(index) {
             Some(entry) => Ok(Some(buf.load(entry)?)),
             None => Ok(None),
         };
@@ -227,7 +227,7 @@ where
             self.entries.len(),
         )?;
 
-        let Some(e) = self.entries.get(index) else {
+        let Some(e) = self.entries.to_native().get(index) else {
             return Ok(false);
         };
 
diff --git a/crates/musli-zerocopy/src/pointer/ref.rs b/crates/musli-zerocopy/src/pointer/ref.rs
index 0667b41..70b7d7d 100644
--- a/crates/musli-zerocopy/src/pointer/ref.rs
+++ b/crates/musli-zerocopy/src/pointer/ref.rs
@@ -345,6 +345,13 @@ where
         Some(Ref::new(offset.as_usize::<Native>()))
     }
 
+    /// Convert into a reference using the native size, so that every element
+    /// in the slice can be addressed.
+    #[inline]
+    pub(crate) fn to_native(self) -> Ref<[T], Native, usize> {
+        Ref::with_metadata(self.offset(), self.len())
+    }
+
     /// Get an unchecked reference directly out of the slice without validation.
     ///
     /// This avoids having to validate every element in a slice in order to
diff --git a/crates/musli-zerocopy/src/swiss/map.rs b/crates/musli-zerocopy/src/swiss/map.rs
index a8de810..95d1784 100644
--- a/crates/musli-zerocopy/src/swiss/map.rs
+++ b/crates/musli-zerocopy/src/swiss/map.rs
@@ -566,7 +566,7 @@ where
     }
 
     fn entry<'buf>(&self, index: usize, buf: &'buf Buf) -> Result<&'buf T, Error> {
-        let Some(entry) = self.entries.get(index) else {
+        let Some(entry) = self.entries.to_native().get(index) else {
             return Err(Error::new(ErrorKind::IndexOutOfBounds {
                 index,
                 len: self.entries.len(),
-- 
2.43.0


From acd15d6546ca8b980bbf1485decdf16bbd5b94e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:22 +0000
Subject: [PATCH 45/55] fix: building a perfect hash out of duplicate keys
 never returned

---
 crates/musli-zerocopy/src/phf/generator.rs | 8 ++++++++
 crates/musli-zerocopy/src/phf/hashing.rs   | 1 +
 2 files changed, 9 insertions(+)

diff --git a/crates/musli-zerocopy/src/phf/generator.rs b/crates/musli-zerocopy/src/phf/generator.rs
index 707f9ed..4a87ff3 100644
--- a/crates/musli-zerocopy/src/phf/generator.rs
+++ b/crates/musli-zerocopy/src/phf/generator.rs
@@ -117,6 +117,14 @@ where
     let mut values_to_add = vec![];
 
     'outer: for (d_index, bucket) in &buckets {
+        // Entries with identical hashes, such as duplicates, can never be
+        // placed regardless of the key in use.
+        for (n, &a) in bucket.iter().enumerate() {
+            if bucket[..n].iter().any(|&b| hashes[a] == hashes[b]) {
+                return Err(Error::new(ErrorKind::FailedPhf));
+            }
+        }
+
         for d1 in 0..(table_len as u32) {
             'inner: for d2 in 0..(table_len as u32) {
                 values_to_add.clear();
diff --git a/crates/musli-zerocopy/src/phf/hashing.rs b/crates/musli-zerocopy/src/phf/hashing.rs
index 9327cfe..eeef8ad 100644
--- a/crates/musli-zerocopy/src/phf/hashing.rs
+++ b/crates/musli-zerocopy/src/phf/hashing.rs
@@ -5,6 +5,7 @@ use crate::error::{Error, ErrorKind};
 use crate::phf::Entry;
 use crate::sip::{Hash128, Hasher128, SipHasher13};
 
+#[derive(PartialEq, Eq)]
 #[non_exhaustive]
 pub(crate) struct Hashes {
     pub(crate) g: usize,
-- 
2.43.0


From 5c065dec7e1b80b343c617d31c9e858d54170849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:12 +0000
Subject: [PATCH 46/55] fix: coercing references of a foreign byte order and
 turning array references into slices mixed up byte orders

---
 crates/musli-zerocopy/src/pointer/ref.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/musli-zerocopy/src/pointer/ref.rs b/crates/musli-zerocopy/src/pointer/ref.rs
index 70b7d7d..cc2cb25 100644
--- a/crates/musli-zerocopy/src/pointer/ref.rs
+++ b/crates/musli-zerocopy/src/pointer/ref.rs
@@ -707,7 +707,9 @@ where
     {
         Ref {
             offset: self.offset,
-            metadata: T::coerce_metadata(self.metadata),
+            metadata: U::Stored::<O>::swap_bytes::<E>(T::coerce_metadata(
+                T::Stored::<O>::swap_bytes::<E>(self.metadata),
+            )),
             _marker: PhantomData,
         }
     }
@@ -779,7 +781,9 @@ where
     {
         Some(Ref {
             offset: self.offset,
-            metadata: T::try_coerce_metadata(self.metadata)?,
+            metadata: U::Stored::<O>::swap_bytes::<E>(T::try_coerce_metadata(
+                T::Stored::<O>::swap_bytes::<E>(self.metadata),
+            )?),
             _marker: PhantomData,
         })
     }
@@ -820,7 +824,7 @@ where
     /// ```
     #[inline]
     pub fn array_into_slice(self) -> Ref<[T], E, O> {
-        Ref::with_metadata(self.offset, N)
+        Ref::with_metadata(self.offset(), N)
     }
 }
 
-- 
2.43.0


From 723b7cdff9faca395d0bac1b99001fb1f765a1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:12 +0000
Subject: [PATCH 47/55] fix: tries lost keys with common prefixes and found
 keys they do not have

---
 .../musli-zerocopy/src/slice/binary_search.rs |  13 ++
 crates/musli-zerocopy/src/slice/mod.rs        |   1 +
 crates/musli-zerocopy/src/trie/factory.rs     | 114 ++++++++++--------
 crates/musli-zerocopy/src/trie/mod.rs         |  19 +--
 crates/musli-zerocopy/src/trie/walk.rs        |  36 +++---
 5 files changed, 109 insertions(+), 74 deletions(-)

diff --git a/crates/musli-zerocopy/src/slice/binary_search.rs b/crates/musli-zerocopy/src/slice/binary_search.rs
index 555cd09..4622c53 100644
--- a/crates/musli-zerocopy/src/slice/binary_search.rs
+++ b/crates/musli-zerocopy/src/slice/binary_search.rs
@@ -1,7 +1,9 @@
 use core::cmp::Ordering;
 
 use crate::buf::{Buf, Visit};
+use crate::endian::Native;
 use crate::error::Error;
+use crate::pointer::Ref;
 use crate::slice::Slice;
 use crate::traits::ZeroCopy;
 
@@ -103,6 +105,7 @@ where
     // - 0 <= left <= left + size = right <= slice.len()
     // - f returns Less for everything in slice[..left]
     // - f returns Greater for everything in slice[right..]
+    let slice = elements(slice);
     let mut size = slice.len();
     let mut left = 0;
     let mut right = size;
@@ -133,3 +136,13 @@ where
 
     Ok(BinarySearch::Missing(left))
 }
+
+/// Reference the elements of a slice using the native size, since elements can
+/// be stored beyond what the size used by the slice is able to address.
+#[inline]
+pub(crate) fn elements<S>(slice: S) -> Ref<[S::Item], Native, usize>
+where
+    S: Slice<Item: ZeroCopy>,
+{
+    Ref::with_metadata(slice.offset(), slice.len())
+}
diff --git a/crates/musli-zerocopy/src/slice/mod.rs b/crates/musli-zerocopy/src/slice/mod.rs
index ebd5abe..422c955 100644
--- a/crates/musli-zerocopy/src/slice/mod.rs
+++ b/crates/musli-zerocopy/src/slice/mod.rs
@@ -2,6 +2,7 @@
 
 #[doc(inline)]
 pub use self::binary_search::{binary_search, binary_search_by, BinarySearch};
+pub(crate) use self::binary_search::elements;
 mod binary_search;
 
 #[doc(inline)]
diff --git a/crates/musli-zerocopy/src/trie/factory.rs b/crates/musli-zerocopy/src/trie/factory.rs
index d27a265..44fd494 100644
--- a/crates/musli-zerocopy/src/trie/factory.rs
+++ b/crates/musli-zerocopy/src/trie/factory.rs
@@ -160,65 +160,73 @@ where
             let search =
                 try_binary_search_by(&this.children, |c| Ok(buf.load(c.string)?.cmp(current)))?;
 
-            match search {
+            let n = match search {
                 BinarySearch::Found(n) => {
                     this.children[n].links.values.push(value);
                     return Ok(());
                 }
-                BinarySearch::Missing(0) => {
-                    this.children.insert(
-                        0,
-                        Node {
-                            string: Ref::try_with_metadata(string.offset(), string.len())?,
-                            links: Links::new(value),
-                        },
-                    );
-                    return Ok(());
-                }
-                BinarySearch::Missing(n) => {
-                    let pre = n - 1;
-
-                    // Find common prefix and split nodes if necessary.
-                    let prefix = prefix(buf.load(this.children[pre].string)?, current);
-
-                    // No common prefix in prior node, so a new node is needed.
-                    if prefix == 0 {
-                        this.children.insert(
-                            n,
-                            Node {
-                                string: Ref::try_with_metadata(string.offset(), string.len())?,
-                                links: Links::new(value),
-                            },
-                        );
-                        return Ok(());
-                    }
-
-                    let child = &mut this.children[pre];
-
-                    // This happens if `current` contains a shorter subset match
-                    // than the string represented by `child`, like `work` and
-                    // the child string is `working` (common prefix is `work`).
-                    //
-                    // In that scenario, the child node has to be split up, so we transpose it from:
-                    //
-                    // ```
-                    // "working" => { values = [1, 2, 3] }
-                    // =>
-                    // "work" => { "ing" => { values = [1, 2, 3] } }
-                    // ```
-                    if prefix != child.string.len() {
-                        let (prefix, suffix) = child.string.split_at(prefix);
-                        let new_node = Node::new(prefix);
-                        let mut replaced = replace(child, new_node);
-                        replaced.string = suffix;
-                        child.links.children.push(replaced);
-                    }
-
-                    current = &current[prefix..];
-                    string = string.split_at(prefix).1;
-                    this = &mut child.links;
+                BinarySearch::Missing(n) => n,
+            };
+
+            // Since the children of a node have no common prefixes, only one of
+            // the neighbors of `n` might have one in common with the string.
+            let mut found = None;
+
+            for n in n
+                .checked_sub(1)
+                .into_iter()
+                .chain((n < this.children.len()).then_some(n))
+            {
+                let prefix = prefix(buf.load(this.children[n].string)?, current);
+
+                if prefix != 0 {
+                    found = Some((n, prefix));
+                    break;
                 }
             }
+
+            // No common prefix in neighboring nodes, so a new node is needed.
+            let Some((n, prefix)) = found else {
+                this.children.insert(
+                    n,
+                    Node {
+                        string: Ref::try_with_metadata(string.offset(), string.len())?,
+                        links: Links::new(value),
+                    },
+                );
+                return Ok(());
+            };
+
+            let child = &mut this.children[n];
+
+            // This happens if `current` contains a shorter subset match
+            // than the string represented by `child`, like `work` and
+            // the child string is `working` (common prefix is `work`).
+            //
+            // In that scenario, the child node has to be split up, so we transpose it from:
+            //
+            // ```
+            // "working" => { values = [1, 2, 3] }
+            // =>
+            // "work" => { "ing" => { values = [1, 2, 3] } }
+            // ```
+            if prefix != child.string.len() {
+                let (prefix, suffix) = child.string.split_at(prefix);
+                let new_node = Node::new(prefix);
+                let mut replaced = replace(child, new_node);
+                replaced.string = suffix;
+                child.links.children.push(replaced);
+            }
+
+            // All of the string is represented by the child.
+            if prefix == current.len() {
+                child.links.values.push(value);
+                return Ok(());
+            }
+
+            current = &current[prefix..];
+            string = string.split_at(prefix).1;
+            this = &mut child.links;
         }
     }
 
diff --git a/crates/musli-zerocopy/src/trie/mod.rs b/crates/musli-zerocopy/src/trie/mod.rs
index 16f4953..849b267 100644
--- a/crates/musli-zerocopy/src/trie/mod.rs
+++ b/crates/musli-zerocopy/src/trie/mod.rs
@@ -19,7 +19,7 @@ use alloc::vec::Vec;
 
 use crate::endian::Native;
 use crate::lossy_str::LossyStr;
-use crate::slice::{binary_search_by, BinarySearch, Slice};
+use crate::slice::{binary_search_by, elements, BinarySearch, Slice};
 use crate::stack::ArrayStack;
 use crate::{Buf, ByteOrder, DefaultSize, Error, Ref, Size, ZeroCopy};
 
@@ -240,7 +240,7 @@ where
 
             match search {
                 BinarySearch::Found(n) => {
-                    let child = this.children.get_unchecked(n);
+                    let child = elements(this.children).get_unchecked(n);
                     let child = buf.load(child)?;
                     let values = buf.load(child.links.values)?;
                     return Ok(Some(values));
@@ -249,17 +249,22 @@ where
                     return Ok(None);
                 }
                 BinarySearch::Missing(n) => {
-                    let child = this.children.get_unchecked(n - 1);
+                    let child = elements(this.children).get_unchecked(n - 1);
                     let child = buf.load(child)?;
 
-                    // Find common prefix and split nodes if necessary.
-                    let prefix = prefix(buf.load(child.string)?, string);
+                    // The string can only be stored below a child which is
+                    // one of its prefixes.
+                    let prefix = buf.load(child.string)?;
 
-                    if prefix == 0 {
+                    let Some(suffix) = string.strip_prefix(prefix) else {
+                        return Ok(None);
+                    };
+
+                    if prefix.is_empty() {
                         return Ok(None);
                     }
 
-                    string = &string[prefix..];
+                    string = suffix;
                     this = child.links;
                 }
             };
diff --git a/crates/musli-zerocopy/src/trie/walk.rs b/crates/musli-zerocopy/src/trie/walk.rs
index 2169bba..cd95b9d 100644
--- a/crates/musli-zerocopy/src/trie/walk.rs
+++ b/crates/musli-zerocopy/src/trie/walk.rs
@@ -2,7 +2,7 @@ use core::slice;
 
 use crate::endian::Native;
 use crate::error::ErrorKind;
-use crate::slice::{binary_search_by, BinarySearch, Slice};
+use crate::slice::{binary_search_by, elements, BinarySearch, Slice};
 use crate::stack::Stack;
 use crate::{Buf, Error, Ref, ZeroCopy};
 
@@ -64,7 +64,9 @@ where
 
                         match search {
                             BinarySearch::Found(n) => {
-                                break 'node self.buf.load(this.children.get_unchecked(n))?;
+                                break 'node self
+                                    .buf
+                                    .load(elements(this.children).get_unchecked(n))?;
                             }
                             BinarySearch::Missing(n) => {
                                 // For missing nodes, we need to find any
@@ -80,23 +82,29 @@ where
                                     .chain((n < this.children.len()).then_some(n));
 
                                 for n in iter {
-                                    let child = self.buf.load(this.children.get_unchecked(n))?;
+                                    let child = self
+                                        .buf
+                                        .load(elements(this.children).get_unchecked(n))?;
 
-                                    // Find common prefix and split nodes if necessary.
-                                    let prefix = prefix(self.buf.load(child.string)?, string);
+                                    let child_string = self.buf.load(child.string)?;
+                                    let prefix = prefix(child_string, string);
 
-                                    if prefix == 0 {
-                                        continue;
+                                    // Everything below the child starts with
+                                    // the string we are looking for.
+                                    if prefix == string.len() {
+                                        break 'node child;
                                     }
 
-                                    if prefix != string.len() {
-                                        len += prefix;
-                                        string = &string[prefix..];
-                                        this = child.links;
-                                        continue 'node;
+                                    // What we are looking for can only be below
+                                    // the child if it's a prefix.
+                                    if prefix == 0 || prefix != child_string.len() {
+                                        continue;
                                     }
 
-                                    break 'node child;
+                                    len += prefix;
+                                    string = &string[prefix..];
+                                    this = child.links;
+                                    continue 'node;
                                 }
 
                                 // Falling through here indicates that we have
@@ -134,7 +142,7 @@ where
                         break 'outer;
                     };
 
-                    let Some(node) = links.children.get(index) else {
+                    let Some(node) = elements(links.children).get(index) else {
                         continue;
                     };
 
-- 
2.43.0


From dad1833c6c63650056b2818950f97466023627a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:01 +0000
Subject: [PATCH 48/55] fix: loading and swapping at offsets that are out of
 bounds could overflow

---
 crates/musli-zerocopy/src/buf/buf.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/crates/musli-zerocopy/src/buf/buf.rs b/crates/musli-zerocopy/src/buf/buf.rs
index 562ab48..f70bc45 100644
--- a/crates/musli-zerocopy/src/buf/buf.rs
+++ b/crates/musli-zerocopy/src/buf/buf.rs
@@ -751,7 +751,7 @@ impl Buf {
         T: ZeroCopy,
     {
         unsafe {
-            let end = offset + size_of::<T>();
+            let end = end_of::<T>(offset)?;
 
             // SAFETY: align_of::<T>() is always a power of two.
             let buf = self.inner_get(offset, end, align_of::<T>())?;
@@ -841,7 +841,7 @@ impl Buf {
         }
 
         let start = a.max(b);
-        let end = start + size_of::<T>();
+        let end = end_of::<T>(start)?;
 
         if end > self.data.len() {
             return Err(Error::new(ErrorKind::OutOfRangeBounds {
@@ -875,7 +875,7 @@ impl Buf {
     where
         T: ZeroCopy,
     {
-        let end = offset + size_of::<T>();
+        let end = end_of::<T>(offset)?;
 
         unsafe {
             // SAFETY: align_of::<T>() is always a power of two.
@@ -900,7 +900,7 @@ impl Buf {
     where
         T: ZeroCopy,
     {
-        let end = start + size_of::<T>();
+        let end = end_of::<T>(start)?;
 
         unsafe {
             // SAFETY: align_of::<T>() is always a power of two.
@@ -995,6 +995,22 @@ impl Buf {
     }
 }
 
+/// The end of a value which starts at the given offset.
+///
+/// The offset might have been loaded from a buffer which is not trusted, so the
+/// value it claims to refer to does not have to be addressable.
+#[inline]
+fn end_of<T>(start: usize) -> Result<usize, Error> {
+    let Some(end) = start.checked_add(size_of::<T>()) else {
+        return Err(Error::new(ErrorKind::Overflow {
+            at: start,
+            len: size_of::<T>(),
+        }));
+    };
+
+    Ok(end)
+}
+
 impl fmt::Debug for Buf {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         f.debug_tuple("Buf").field(&self.data.len()).finish()
-- 
2.43.0


From 931df9a37715b62f5644f60624fad45c8b1b85e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:40 +0000
Subject: [PATCH 49/55] fix: validating references to many zero-sized values
 took time for each of them

---
 crates/musli-zerocopy/src/traits.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/musli-zerocopy/src/traits.rs b/crates/musli-zerocopy/src/traits.rs
index bbcc758..34004b9 100644
--- a/crates/musli-zerocopy/src/traits.rs
+++ b/crates/musli-zerocopy/src/traits.rs
@@ -731,7 +731,15 @@ where
         if !T::ANY_BITS {
             let mut validator = Validator::<[T]>::new(data);
 
-            for _ in 0..metadata {
+            // Zero-sized elements are all the same, and there can be any number
+            // of them in a buffer.
+            let count = if size_of::<T>() == 0 {
+                metadata.min(1)
+            } else {
+                metadata
+            };
+
+            for _ in 0..count {
                 validator.validate_only::<T>()?;
             }
         }
-- 
2.43.0


From bc0caf7b6e3af3ad89b69fcd6ed9ae92aa56db06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:02 +0000
Subject: [PATCH 50/55] fix: references to the elements of a packed slice
 overflowed

---
 crates/musli-zerocopy/src/pointer/mod.rs  | 1 +
 crates/musli-zerocopy/src/pointer/ref.rs  | 2 +-
 crates/musli-zerocopy/src/slice/packed.rs | 8 +++-----
 3 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/musli-zerocopy/src/pointer/mod.rs b/crates/musli-zerocopy/src/pointer/mod.rs
index cd558d1..ac7ca68 100644
--- a/crates/musli-zerocopy/src/pointer/mod.rs
+++ b/crates/musli-zerocopy/src/pointer/mod.rs
@@ -23,6 +23,7 @@ pub use self::size::{DefaultSize, Size};
 mod size;
 
 #[doc(inline)]
+pub(crate) use self::r#ref::offset_of;
 pub use self::r#ref::Ref;
 mod r#ref;
 
diff --git a/crates/musli-zerocopy/src/pointer/ref.rs b/crates/musli-zerocopy/src/pointer/ref.rs
index cc2cb25..e121e46 100644
--- a/crates/musli-zerocopy/src/pointer/ref.rs
+++ b/crates/musli-zerocopy/src/pointer/ref.rs
@@ -511,7 +511,7 @@ where
 /// The slice might have been loaded from a buffer which is not trusted, so what
 /// it claims to cover does not have to be addressable.
 #[inline]
-fn offset_of<T>(offset: usize, index: usize) -> usize {
+pub(crate) fn offset_of<T>(offset: usize, index: usize) -> usize {
     offset.saturating_add(index.saturating_mul(size_of::<T>()))
 }
 
diff --git a/crates/musli-zerocopy/src/slice/packed.rs b/crates/musli-zerocopy/src/slice/packed.rs
index 3844a58..bd249d4 100644
--- a/crates/musli-zerocopy/src/slice/packed.rs
+++ b/crates/musli-zerocopy/src/slice/packed.rs
@@ -1,10 +1,9 @@
 use core::marker::PhantomData;
-use core::mem::size_of;
 
 use crate::buf::{Buf, Load};
 use crate::endian::{ByteOrder, Native};
 use crate::error::{Error, ErrorKind, IntoRepr};
-use crate::pointer::{Ref, Size};
+use crate::pointer::{offset_of, Ref, Size};
 use crate::slice::Slice;
 use crate::{DefaultSize, ZeroCopy};
 
@@ -267,7 +266,7 @@ where
         let len = self.len.as_usize::<E>();
         assert!(at <= len, "Split point {at} is out of bounds 0..={len}");
         let a = Self::from_raw_parts(offset, at);
-        let b = Self::from_raw_parts(offset + at * size_of::<T>(), len - at);
+        let b = Self::from_raw_parts(offset_of::<T>(offset, at), len - at);
         (a, b)
     }
 
@@ -301,8 +300,7 @@ where
     /// ```
     #[inline]
     pub fn get_unchecked(self, index: usize) -> Ref<T, E, usize> {
-        let offset = self.offset.as_usize::<E>() + size_of::<T>() * index;
-        Ref::new(offset)
+        Ref::new(offset_of::<T>(self.offset.as_usize::<E>(), index))
     }
 
     /// Get the offset the packed slice points to.
-- 
2.43.0


From 14f6bfe45f2517fe5cff3de9d8475a6022de8f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:28 +0000
Subject: [PATCH 51/55] fix: corrupt swiss indexes could be probed without end

---
 crates/musli-zerocopy/src/swiss/map.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/crates/musli-zerocopy/src/swiss/map.rs b/crates/musli-zerocopy/src/swiss/map.rs
index 95d1784..674318e 100644
--- a/crates/musli-zerocopy/src/swiss/map.rs
+++ b/crates/musli-zerocopy/src/swiss/map.rs
@@ -407,6 +407,22 @@ where
 {
 }
 
+/// Test that the bucket mask addresses buckets which have control bytes.
+///
+/// This ensures that the length of a probe sequence is limited by the number of
+/// control bytes, and that calculating positions in it can't overflow.
+#[inline]
+fn check_bucket_mask(bucket_mask: usize, ctrl: &[u8]) -> Result<(), Error> {
+    if bucket_mask >= ctrl.len() {
+        return Err(Error::new(ErrorKind::IndexOutOfBounds {
+            index: bucket_mask,
+            len: ctrl.len(),
+        }));
+    }
+
+    Ok(())
+}
+
 pub(crate) struct RawTable<'a, T> {
     ctrl: &'a [u8],
     // Location of entries. They are loaded once they are found to be occupied,
@@ -463,6 +479,8 @@ where
         hash: u64,
         eq: &mut dyn FnMut(usize) -> Result<bool, Error>,
     ) -> Result<Option<usize>, Error> {
+        check_bucket_mask(self.bucket_mask, self.ctrl)?;
+
         let h2_hash = h2(hash);
         let mut probe_seq = probe_seq(self.bucket_mask, hash);
 
@@ -585,11 +603,12 @@ where
         hash: u64,
         eq: &mut dyn FnMut(usize) -> Result<bool, Error>,
     ) -> Result<Option<usize>, Error> {
+        let ctrl = buf.load(self.ctrl)?;
+        check_bucket_mask(self.bucket_mask.to_ne(), ctrl)?;
+
         let h2_hash = h2(hash);
         let mut probe_seq = probe_seq(self.bucket_mask.to_ne(), hash);
 
-        let ctrl = buf.load(self.ctrl)?;
-
         loop {
             let range = probe_seq.pos..probe_seq.pos + size_of::<Group>();
 
-- 
2.43.0


From d63e451b75f4b15368078ed083911d47f20c3aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:28 +0000
Subject: [PATCH 52/55] fix: looking up in a corrupt perfect hash divided by
 zero

---
 crates/musli-zerocopy/src/phf/hashing.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/crates/musli-zerocopy/src/phf/hashing.rs b/crates/musli-zerocopy/src/phf/hashing.rs
index eeef8ad..a2d25e2 100644
--- a/crates/musli-zerocopy/src/phf/hashing.rs
+++ b/crates/musli-zerocopy/src/phf/hashing.rs
@@ -38,13 +38,24 @@ where
     })
 }
 
+/// Reduce a hash to an index in a table of the given length, which is an error
+/// if the table is empty.
+#[inline]
+fn reduce(hash: usize, len: usize) -> Result<usize, Error> {
+    let Some(index) = hash.checked_rem(len) else {
+        return Err(Error::new(ErrorKind::IndexOutOfBounds { index: hash, len }));
+    };
+
+    Ok(index)
+}
+
 #[inline]
 pub(crate) fn get_index(
     &Hashes { g, f1, f2 }: &Hashes,
     displacements: &[Entry<u32, u32>],
     len: usize,
 ) -> Result<usize, Error> {
-    let index = g % displacements.len();
+    let index = reduce(g, displacements.len())?;
 
     let Some(&Entry { key: d1, value: d2 }) = displacements.get(index) else {
         return Err(Error::new(ErrorKind::IndexOutOfBounds {
@@ -53,7 +64,7 @@ pub(crate) fn get_index(
         }));
     };
 
-    Ok(displace(f1, f2, d1, d2) as usize % len)
+    reduce(displace(f1, f2, d1, d2) as usize, len)
 }
 
 #[inline]
@@ -66,7 +77,7 @@ pub(crate) fn get_custom_index<'a, D>(
 where
     D: FnOnce(usize) -> Result<Option<&'a Entry<u32, u32>>, Error>,
 {
-    let index = g % displacements_len;
+    let index = reduce(g, displacements_len)?;
 
     let Some(&Entry { key: d1, value: d2 }) = get(index)? else {
         return Err(Error::new(ErrorKind::IndexOutOfBounds {
@@ -75,5 +86,5 @@ where
         }));
     };
 
-    Ok(displace(f1, f2, d1, d2) as usize % len)
+    reduce(displace(f1, f2, d1, d2) as usize, len)
 }
-- 
2.43.0


From e7eb161b01e9a8414d38881b5b54a4de19475fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:12 +0000
Subject: [PATCH 53/55] fix: walking a corrupt trie whose nodes form a cycle
 never ended

---
 crates/musli-zerocopy/src/error.rs     | 10 ++++++++++
 crates/musli-zerocopy/src/trie/walk.rs | 20 +++++++++++++++++---
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/crates/musli-zerocopy/src/error.rs b/crates/musli-zerocopy/src/error.rs
index add9187..a0f48e0 100644
--- a/crates/musli-zerocopy/src/error.rs
+++ b/crates/musli-zerocopy/src/error.rs
@@ -216,6 +216,10 @@ pub(crate) enum ErrorKind {
     StackOverflow {
         capacity: usize,
     },
+    UnorderedString {
+        offset: usize,
+        len: usize,
+    },
     #[cfg(feature = "alloc")]
     CapacityError,
     #[cfg(feature = "alloc")]
@@ -291,6 +295,12 @@ impl fmt::Display for ErrorKind {
             ErrorKind::StackOverflow { capacity } => {
                 write!(f, "Stack with capacity {capacity} overflowed")
             }
+            ErrorKind::UnorderedString { offset, len } => {
+                write!(
+                    f,
+                    "String at offset {offset} with length {len} is not in order"
+                )
+            }
             ErrorKind::Utf8Error { error } => error.fmt(f),
             #[cfg(feature = "alloc")]
             ErrorKind::CapacityError => {
diff --git a/crates/musli-zerocopy/src/trie/walk.rs b/crates/musli-zerocopy/src/trie/walk.rs
index cd95b9d..8c214ff 100644
--- a/crates/musli-zerocopy/src/trie/walk.rs
+++ b/crates/musli-zerocopy/src/trie/walk.rs
@@ -21,6 +21,10 @@ where
     // A stack which indicates the links who's children we should visit next,
     // and an index corresponding to the child to visit.
     stack: S,
+    // The complete string of the last node visited. Since children are sorted
+    // the strings which are visited have to be strictly increasing, which
+    // ensures that walking a corrupt trie ends even if its nodes form a cycle.
+    last: Option<&'buf [u8]>,
 }
 
 impl<'a, 'buf, T, F, S> Walk<'a, 'buf, T, F, S>
@@ -34,6 +38,7 @@ where
             buf,
             state: WalkState::Find(links, prefix),
             stack: S::new(),
+            last: None,
         }
     }
 
@@ -82,9 +87,8 @@ where
                                     .chain((n < this.children.len()).then_some(n));
 
                                 for n in iter {
-                                    let child = self
-                                        .buf
-                                        .load(elements(this.children).get_unchecked(n))?;
+                                    let child =
+                                        self.buf.load(elements(this.children).get_unchecked(n))?;
 
                                     let child_string = self.buf.load(child.string)?;
                                     let prefix = prefix(child_string, string);
@@ -119,6 +123,7 @@ where
 
                     let prefix = prefix_string(node.string, len)?;
                     let prefix = self.buf.load(prefix)?;
+                    self.last = Some(prefix);
 
                     if !self.stack.try_push((node.links, 0, prefix)) {
                         return Err(Error::new(ErrorKind::StackOverflow {
@@ -151,6 +156,15 @@ where
                     let new_prefix = prefix_string(node.string, prefix.len())?;
                     let new_prefix = self.buf.load(new_prefix)?;
 
+                    if self.last.is_some_and(|last| new_prefix <= last) {
+                        return Err(Error::new(ErrorKind::UnorderedString {
+                            offset: node.string.offset(),
+                            len: node.string.len(),
+                        }));
+                    }
+
+                    self.last = Some(new_prefix);
+
                     self.state =
                         WalkState::Values(new_prefix, self.buf.load(node.links.values)?.iter());
 
-- 
2.43.0


From 85563cb02d8083120b18a400cb5fa639555c1cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:49 +0000
Subject: [PATCH 54/55] fix: refuse variable-length integers whose last byte
 does not fit

---
 crates/musli/src/int/continuation.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/musli/src/int/continuation.rs b/crates/musli/src/int/continuation.rs
index 5dd1313..0b5d430 100644
--- a/crates/musli/src/int/continuation.rs
+++ b/crates/musli/src/int/continuation.rs
@@ -34,7 +34,16 @@ where
         }
 
         b = r.read_byte(cx)?;
-        value = value.wrapping_add(T::from_byte(b & MASK_BYTE).wrapping_shl(shift));
+
+        let part = T::from_byte(b & MASK_BYTE);
+        let shifted = part.wrapping_shl(shift);
+
+        // The last byte might hold more bits than fits.
+        if shifted >> shift != part {
+            return Err(cx.message("Bits overflow"));
+        }
+
+        value = value.wrapping_add(shifted);
     }
 
     Ok(value)
-- 
2.43.0


From da958296f1211ab40b62b79cb0bdfeb3143406c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:33 +0000
Subject: [PATCH 55/55] fix: give the tag of adjacently tagged enums its
 declared type when decoding

---
 crates/musli-macros/src/de.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/musli-macros/src/de.rs b/crates/musli-macros/src/de.rs
index 5d7a1be..76b5444 100644
--- a/crates/musli-macros/src/de.rs
+++ b/crates/musli-macros/src/de.rs
@@ -815,7 +815,8 @@ fn decode_adjacent(
                 match #outcome_var {
                     #outcome_type::Tag => {
                         let #variant_decoder_var = #entry_decoder_t::decode_value(#entry_var)?;
-                        #name_var = #option::Some(#decode_name?);
+                        let #variant_tag_var: #name_type = #decode_name?;
+                        #name_var = #option::Some(#variant_tag_var);
                     }
                     #outcome_type::Content => {
                         let #option::Some(#variant_tag_var) = #name_var else {
-- 
2.43.0

