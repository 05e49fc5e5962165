From 1259ebb9d25434ba1a1317b93f025acc0c965be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:51 +0000
Subject: [PATCH 01/10] fix: decode u256 and i256 values that are followed by
 more bytes

---
 scale-decode/src/visitor/decode.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/scale-decode/src/visitor/decode.rs b/scale-decode/src/visitor/decode.rs
index 52af01a..dcf93eb 100644
--- a/scale-decode/src/visitor/decode.rs
+++ b/scale-decode/src/visitor/decode.rs
@@ -214,13 +214,11 @@ impl<'temp, 'scale, 'resolver, V: Visitor> ResolvedTypeVisitor<'resolver>
         fn decode_32_bytes<'scale>(
             data: &mut &'scale [u8],
         ) -> Result<&'scale [u8; 32], DecodeError> {
-            // Pull an array from the data if we can, preserving the lifetime.
-            let arr: &'scale [u8; 32] = match (*data).try_into() {
-                Ok(arr) => arr,
-                Err(_) => return Err(DecodeError::NotEnoughInput),
-            };
+            // Pull an array from the front of the data if we can, preserving the lifetime.
+            let (arr, rest): (&'scale [u8; 32], _) =
+                data.split_first_chunk().ok_or(DecodeError::NotEnoughInput)?;
             // If we successfully read the bytes, then advance the pointer past them.
-            *data = &data[32..];
+            *data = rest;
             Ok(arr)
         }
 
-- 
2.43.0


From 682f24b32bb47da89547e0ea7efb65355ab6942e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:51 +0000
Subject: [PATCH 02/10] fix: return the visitor's own error when a bit sequence
 cannot be skipped either

---
 scale-decode/src/visitor/decode.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/scale-decode/src/visitor/decode.rs b/scale-decode/src/visitor/decode.rs
index dcf93eb..08940dd 100644
--- a/scale-decode/src/visitor/decode.rs
+++ b/scale-decode/src/visitor/decode.rs
@@ -349,9 +349,15 @@ impl<'temp, 'scale, 'resolver, V: Visitor> ResolvedTypeVisitor<'resolver>
         let mut bitseq = BitSequence::new(format, self.data);
         let res = self.visitor.visit_bitsequence(&mut bitseq, self.type_id);
 
-        // Move to the bytes after the bit sequence.
-        *self.data = bitseq.bytes_after()?;
-
-        res
+        // Move to the bytes after the bit sequence, prioritizing visitor errors
+        // over errors finding those bytes.
+        match (res, bitseq.bytes_after()) {
+            (Err(e), Err(_)) => Err(e),
+            (Ok(_), Err(e)) => Err(e.into()),
+            (res, Ok(bytes_after)) => {
+                *self.data = bytes_after;
+                res
+            }
+        }
     }
 }
-- 
2.43.0


From 5791caab342876faf770922dabe1da472bb2f2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:51 +0000
Subject: [PATCH 03/10] fix: count only the un-decoded items in
 Tuple::remaining

---
 scale-decode/src/visitor/types/tuple.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scale-decode/src/visitor/types/tuple.rs b/scale-decode/src/visitor/types/tuple.rs
index 3faaaec..e11228b 100644
--- a/scale-decode/src/visitor/types/tuple.rs
+++ b/scale-decode/src/visitor/types/tuple.rs
@@ -58,7 +58,7 @@ impl<'scale, 'resolver, R: TypeResolver> Tuple<'scale, 'resolver, R> {
     }
     /// The number of un-decoded items remaining in the tuple.
     pub fn remaining(&self) -> usize {
-        self.fields.len()
+        self.fields.len() - self.next_field_idx
     }
     /// Decode the next item from the tuple by providing a visitor to handle it.
     pub fn decode_item<V: Visitor<TypeResolver = R>>(
-- 
2.43.0


From 0def63defc0563d760221217657e64586b7aea58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:51 +0000
Subject: [PATCH 04/10] fix: decode compact encoded tuple fields as such in
 TupleField::decode_with_visitor

---
 scale-decode/src/visitor/types/tuple.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scale-decode/src/visitor/types/tuple.rs b/scale-decode/src/visitor/types/tuple.rs
index e11228b..25abb0d 100644
--- a/scale-decode/src/visitor/types/tuple.rs
+++ b/scale-decode/src/visitor/types/tuple.rs
@@ -143,11 +143,12 @@ impl<'scale, 'resolver, R: TypeResolver> TupleField<'scale, 'resolver, R> {
         &self,
         visitor: V,
     ) -> Result<V::Value<'scale, 'resolver>, V::Error> {
-        crate::visitor::decode_with_visitor(
+        crate::visitor::decode_with_visitor_maybe_compact(
             &mut &*self.bytes,
             self.type_id.clone(),
             self.types,
             visitor,
+            self.is_compact,
         )
     }
     /// Decode this field into a specific type via [`DecodeAsType`].
-- 
2.43.0


From 8a65dcaf8311863825eae3f86674bdf9742d7533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:51 +0000
Subject: [PATCH 05/10] fix: Composite::as_tuple contains only the remaining
 fields

---
 scale-decode/src/visitor/types/composite.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scale-decode/src/visitor/types/composite.rs b/scale-decode/src/visitor/types/composite.rs
index e195c87..a1727c3 100644
--- a/scale-decode/src/visitor/types/composite.rs
+++ b/scale-decode/src/visitor/types/composite.rs
@@ -86,7 +86,7 @@ impl<'scale, 'resolver, R: TypeResolver> Composite<'scale, 'resolver, R> {
     pub fn as_tuple(&self) -> super::Tuple<'scale, 'resolver, R> {
         super::Tuple::new(
             self.item_bytes,
-            &mut self.fields.iter().cloned(),
+            &mut self.fields[self.next_field_idx..].iter().cloned(),
             self.types,
             self.is_compact,
         )
-- 
2.43.0


From 906b26b6f4f9c4b8bcb423ef3077b445938cb6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:51 +0000
Subject: [PATCH 06/10] fix: return the visitor's own error from
 decode_as_fields when skipping fails too

---
 scale-decode-derive/src/lib.rs | 13 +++++++++----
 scale-decode/src/impls/mod.rs  | 13 +++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index 4d44700..a45a30c 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -325,11 +325,16 @@ fn generate_struct_impl(
                     use #path_to_scale_decode::{ Visitor, IntoVisitor };
                     let val = <#path_to_type #ty_generics>::into_visitor().visit_composite(&mut composite, Default::default());
 
-                    // Consume any remaining bytes and update input:
-                    composite.skip_decoding()?;
-                    *input = composite.bytes_from_undecoded();
+                    // Consume any remaining bytes and update input, prioritizing
+                    // visitor errors over errors skipping:
+                    let skip_res = composite.skip_decoding();
+                    if skip_res.is_ok() {
+                        *input = composite.bytes_from_undecoded();
+                    }
 
-                    val.map_err(From::from)
+                    let val = val?;
+                    skip_res?;
+                    Ok(val)
                 }
             }
         };
diff --git a/scale-decode/src/impls/mod.rs b/scale-decode/src/impls/mod.rs
index 16ec900..4878486 100644
--- a/scale-decode/src/impls/mod.rs
+++ b/scale-decode/src/impls/mod.rs
@@ -644,11 +644,16 @@ macro_rules! impl_decode_tuple {
                 // a bit hideous (and requires `TypeId: Default`). Can we re-work this to avoid?
                 let val = <($($t,)*)>::into_visitor().visit_composite(&mut composite, Default::default());
 
-                // Skip over bytes that we decoded:
-                composite.skip_decoding()?;
-                *input = composite.bytes_from_undecoded();
+                // Skip over bytes that we decoded, prioritizing visitor errors
+                // over errors skipping:
+                let skip_res = composite.skip_decoding();
+                if skip_res.is_ok() {
+                    *input = composite.bytes_from_undecoded();
+                }
 
-                val
+                let val = val?;
+                skip_res?;
+                Ok(val)
             }
         }
     }
-- 
2.43.0


From 0419dc7ccd4c20eabefe15ce782573777beedf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:51 +0000
Subject: [PATCH 07/10] fix: return an error rather than panic when a Duration
 is out of range

---
 scale-decode/src/impls/mod.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/scale-decode/src/impls/mod.rs b/scale-decode/src/impls/mod.rs
index 4878486..a0659aa 100644
--- a/scale-decode/src/impls/mod.rs
+++ b/scale-decode/src/impls/mod.rs
@@ -223,10 +223,32 @@ impl_into_visitor_like!(Compact<T> as T: |res| Compact(res));
 impl_into_visitor_like!(Arc<T> as T: |res| Arc::new(res));
 impl_into_visitor_like!(Rc<T> as T: |res| Rc::new(res));
 impl_into_visitor_like!(Box<T> as T: |res| Box::new(res));
-impl_into_visitor_like!(Duration as (u64, u32): |res: (u64,u32)| Duration::from_secs(res.0) + Duration::from_nanos(res.1 as u64));
 impl_into_visitor_like!(Range<T> as (T, T): |res: (T,T)| res.0..res.1);
 impl_into_visitor_like!(RangeInclusive<T> as (T, T): |res: (T,T)| res.0..=res.1);
 
+// A custom implementation for `Duration` because not every `(u64, u32)` is a valid one.
+impl<R: TypeResolver> Visitor for BasicVisitor<Duration, R> {
+    type Value<'scale, 'resolver> = Duration;
+    type Error = Error;
+    type TypeResolver = R;
+
+    fn unchecked_decode_as_type<'scale, 'resolver>(
+        self,
+        input: &mut &'scale [u8],
+        type_id: <Self::TypeResolver as TypeResolver>::TypeId,
+        types: &'resolver Self::TypeResolver,
+    ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+        let inner_res = decode_with_visitor(input, type_id, types, <(u64, u32)>::into_visitor());
+        let res = inner_res.and_then(|(secs, nanos)| {
+            Duration::from_secs(secs)
+                .checked_add(Duration::from_nanos(nanos as u64))
+                .ok_or_else(|| Error::custom_str("Duration is out of range"))
+        });
+        DecodeAsTypeResult::Decoded(res)
+    }
+}
+impl_into_visitor!(Duration);
+
 // A custom implementation for `Cow` because it's rather tricky; the visitor we want is whatever the
 // `ToOwned` value for the Cow is, and Cow's have specific constraints, too.
 impl<'a, T, R> Visitor for BasicVisitor<Cow<'a, T>, R>
-- 
2.43.0


From 877755af55a2481290f7b24c0102113b85ec6672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:51 +0000
Subject: [PATCH 08/10] fix: honour decode_as_type(skip) on fields that have
 other codec attributes too

---
 scale-decode-derive/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index a45a30c..5aad5c8 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -566,7 +566,8 @@ impl TopLevelAttrs {
 
 /// Parse the attributes attached to some field
 #[derive(Debug, FromAttributes, Default)]
-#[darling(attributes(decode_as_type, codec))]
+// Other attributes (eg `codec(compact)`) are not for us, but must not prevent `skip` from being seen.
+#[darling(attributes(decode_as_type, codec), allow_unknown_fields)]
 struct FieldAttrs {
     #[darling(default)]
     skip: bool,
-- 
2.43.0


From df0eefb7e76b5794b5eea8faea5fd8cd2192cc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:31 +0000
Subject: [PATCH 09/10] fix: keep track of compact encoding when a visitor
 hands the input on to another one

---
 scale-decode/src/impls/mod.rs             | 71 ++++++++++++++++++-----
 scale-decode/src/impls/primitive_types.rs | 10 +++-
 scale-decode/src/visitor/decode.rs        |  7 ++-
 scale-decode/src/visitor/mod.rs           | 26 ++++++++-
 4 files changed, 96 insertions(+), 18 deletions(-)

diff --git a/scale-decode/src/impls/mod.rs b/scale-decode/src/impls/mod.rs
index a0659aa..23f123b 100644
--- a/scale-decode/src/impls/mod.rs
+++ b/scale-decode/src/impls/mod.rs
@@ -13,13 +13,11 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
-#[cfg(feature = "primitive-types")]
-mod primitive_types;
-
 use crate::{
     error::{Error, ErrorKind},
     visitor::{
-        self, decode_with_visitor, types::*, DecodeAsTypeResult, DecodeItemIterator, Visitor,
+        self, decode_with_visitor_maybe_compact, types::*, DecodeAsTypeResult, DecodeItemIterator,
+        Visitor,
     },
     DecodeAsFields, FieldIter, IntoVisitor,
 };
@@ -64,6 +62,21 @@ macro_rules! impl_into_visitor {
     };
 }
 
+/// Some visitors hand the input straight on to another visitor, which needs to know whether the value is
+/// compact encoded. They implement `unchecked_decode_as_type_maybe_compact`, and this in terms of it.
+macro_rules! unchecked_decode_as_type_not_compact {
+    () => {
+        fn unchecked_decode_as_type<'scale, 'resolver>(
+            self,
+            input: &mut &'scale [u8],
+            type_id: <Self::TypeResolver as TypeResolver>::TypeId,
+            types: &'resolver Self::TypeResolver,
+        ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+            self.unchecked_decode_as_type_maybe_compact(input, type_id, types, false)
+        }
+    };
+}
+
 /// Ignore single-field tuples/composites and visit the single field inside instead.
 macro_rules! visit_single_field_composite_tuple_impls {
     ($type_resolver:ident) => {
@@ -188,6 +201,9 @@ impl<T, R: TypeResolver> Visitor for BasicVisitor<PhantomData<T>, R> {
 }
 impl_into_visitor!(PhantomData<T>);
 
+#[cfg(feature = "primitive-types")]
+mod primitive_types;
+
 // Generate impls to encode things based on some other type. We do this by implementing
 // `IntoVisitor` and using the `AndThen` combinator to map from an existing one to the desired output.
 macro_rules! impl_into_visitor_like {
@@ -202,14 +218,17 @@ macro_rules! impl_into_visitor_like {
             type Error = <<$source as IntoVisitor>::AnyVisitor<Resolver> as Visitor>::Error;
             type TypeResolver = Resolver;
 
-            fn unchecked_decode_as_type<'scale, 'resolver>(
+            unchecked_decode_as_type_not_compact!();
+
+            fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
                 self,
                 input: &mut &'scale [u8],
                 type_id: <Self::TypeResolver as TypeResolver>::TypeId,
                 types: &'resolver Self::TypeResolver,
+                is_compact: bool,
             ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
                 // Use the source visitor to decode into some type:
-                let inner_res = decode_with_visitor(input, type_id, types, <$source>::into_visitor());
+                let inner_res = decode_with_visitor_maybe_compact(input, type_id, types, <$source>::into_visitor(), is_compact);
                 // map this type into our desired output and return it:
                 let res = inner_res.map($mapper);
                 DecodeAsTypeResult::Decoded(res)
@@ -232,13 +251,22 @@ impl<R: TypeResolver> Visitor for BasicVisitor<Duration, R> {
     type Error = Error;
     type TypeResolver = R;
 
-    fn unchecked_decode_as_type<'scale, 'resolver>(
+    unchecked_decode_as_type_not_compact!();
+
+    fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
         self,
         input: &mut &'scale [u8],
         type_id: <Self::TypeResolver as TypeResolver>::TypeId,
         types: &'resolver Self::TypeResolver,
+        is_compact: bool,
     ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
-        let inner_res = decode_with_visitor(input, type_id, types, <(u64, u32)>::into_visitor());
+        let inner_res = decode_with_visitor_maybe_compact(
+            input,
+            type_id,
+            types,
+            <(u64, u32)>::into_visitor(),
+            is_compact,
+        );
         let res = inner_res.and_then(|(secs, nanos)| {
             Duration::from_secs(secs)
                 .checked_add(Duration::from_nanos(nanos as u64))
@@ -261,15 +289,23 @@ where
     type Error = <<<T as ToOwned>::Owned as IntoVisitor>::AnyVisitor<R> as Visitor>::Error;
     type TypeResolver = R;
 
-    fn unchecked_decode_as_type<'scale, 'resolver>(
+    unchecked_decode_as_type_not_compact!();
+
+    fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
         self,
         input: &mut &'scale [u8],
         type_id: <Self::TypeResolver as TypeResolver>::TypeId,
         types: &'resolver Self::TypeResolver,
+        is_compact: bool,
     ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
         // Use the ToOwned visitor to decode into some type:
-        let inner_res =
-            decode_with_visitor(input, type_id, types, <<T as ToOwned>::Owned>::into_visitor());
+        let inner_res = decode_with_visitor_maybe_compact(
+            input,
+            type_id,
+            types,
+            <<T as ToOwned>::Owned>::into_visitor(),
+            is_compact,
+        );
         // map this type into our owned Cow to return:
         let res = inner_res.map(Cow::Owned);
         DecodeAsTypeResult::Decoded(res)
@@ -571,11 +607,14 @@ macro_rules! tuple_method_impl {
 
 macro_rules! decode_inner_type_when_one_tuple_entry {
     ($t:ident) => {
-        fn unchecked_decode_as_type<'scale, 'resolver>(
+        unchecked_decode_as_type_not_compact!();
+
+        fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
             self,
             input: &mut &'scale [u8],
             type_id: <Self::TypeResolver as TypeResolver>::TypeId,
             types: &'resolver Self::TypeResolver,
+            is_compact: bool,
         ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
             use scale_type_resolver::{ResolvedTypeVisitor, UnhandledKind};
 
@@ -605,7 +644,13 @@ macro_rules! decode_inner_type_when_one_tuple_entry {
             }
 
             // Else, try to decode as the inner type.
-            let inner_res = decode_with_visitor(input, type_id, types, <$t>::into_visitor());
+            let inner_res = decode_with_visitor_maybe_compact(
+                input,
+                type_id,
+                types,
+                <$t>::into_visitor(),
+                is_compact,
+            );
             let res = inner_res.map(|val| (val,)).map_err(|e| e.into());
             DecodeAsTypeResult::Decoded(res)
         }
diff --git a/scale-decode/src/impls/primitive_types.rs b/scale-decode/src/impls/primitive_types.rs
index ff788f1..caf5529 100644
--- a/scale-decode/src/impls/primitive_types.rs
+++ b/scale-decode/src/impls/primitive_types.rs
@@ -16,7 +16,7 @@
 use super::BasicVisitor;
 use crate::{
     error::Error,
-    visitor::{decode_with_visitor, DecodeAsTypeResult, Visitor},
+    visitor::{decode_with_visitor_maybe_compact, DecodeAsTypeResult, Visitor},
     IntoVisitor,
 };
 use primitive_types::{H128, H160, H256, H384, H512, H768};
@@ -29,20 +29,24 @@ macro_rules! impl_visitor {
             type Value<'scale, 'resolver> = $ty;
             type TypeResolver = R;
 
-            fn unchecked_decode_as_type<'scale, 'resolver>(
+            unchecked_decode_as_type_not_compact!();
+
+            fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
                 self,
                 input: &mut &'scale [u8],
                 type_id: <Self::TypeResolver as TypeResolver>::TypeId,
                 types: &'resolver Self::TypeResolver,
+                is_compact: bool,
             ) -> crate::visitor::DecodeAsTypeResult<
                 Self,
                 Result<Self::Value<'scale, 'resolver>, Self::Error>,
             > {
-                let res = decode_with_visitor(
+                let res = decode_with_visitor_maybe_compact(
                     input,
                     type_id,
                     types,
                     BasicVisitor::<[u8; $len / 8], R> { _marker: core::marker::PhantomData },
+                    is_compact,
                 )
                 .map(|res| <$ty>::from(res));
                 DecodeAsTypeResult::Decoded(res)
diff --git a/scale-decode/src/visitor/decode.rs b/scale-decode/src/visitor/decode.rs
index 08940dd..11e00a7 100644
--- a/scale-decode/src/visitor/decode.rs
+++ b/scale-decode/src/visitor/decode.rs
@@ -46,7 +46,12 @@ pub fn decode_with_visitor_maybe_compact<'scale, 'resolver, V: Visitor>(
     is_compact: bool,
 ) -> Result<V::Value<'scale, 'resolver>, V::Error> {
     // Provide option to "bail out" and do something custom first.
-    let visitor = match visitor.unchecked_decode_as_type(data, ty_id.clone(), types) {
+    let visitor = match visitor.unchecked_decode_as_type_maybe_compact(
+        data,
+        ty_id.clone(),
+        types,
+        is_compact,
+    ) {
         DecodeAsTypeResult::Decoded(r) => return r,
         DecodeAsTypeResult::Skipped(v) => v,
     };
diff --git a/scale-decode/src/visitor/mod.rs b/scale-decode/src/visitor/mod.rs
index f1bfc19..d745cf3 100644
--- a/scale-decode/src/visitor/mod.rs
+++ b/scale-decode/src/visitor/mod.rs
@@ -60,6 +60,19 @@ pub trait Visitor: Sized {
         DecodeAsTypeResult::Skipped(self)
     }
 
+    // The same as `unchecked_decode_as_type`, but visitors which hand the input on to some other visitor need to
+    // know whether the value is compact encoded. Used internally, but not really expected to be used elsewhere.
+    #[doc(hidden)]
+    fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+        self,
+        input: &mut &'scale [u8],
+        type_id: TypeIdFor<Self>,
+        types: &'resolver Self::TypeResolver,
+        _is_compact: bool,
+    ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+        self.unchecked_decode_as_type(input, type_id, types)
+    }
+
     /// This is called when a visitor function that you've not provided an implementation is called.
     /// You are provided an enum value corresponding to the function call, and can decide what to return
     /// in this case. The default is to return an error to announce the unexpected value.
@@ -420,7 +433,18 @@ where
         type_id: TypeIdFor<Self>,
         types: &'resolver Self::TypeResolver,
     ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
-        let res = decode_with_visitor(input, type_id, types, self.0).map_err(Into::into);
+        self.unchecked_decode_as_type_maybe_compact(input, type_id, types, false)
+    }
+
+    fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+        self,
+        input: &mut &'scale [u8],
+        type_id: TypeIdFor<Self>,
+        types: &'resolver Self::TypeResolver,
+        is_compact: bool,
+    ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+        let res = decode_with_visitor_maybe_compact(input, type_id, types, self.0, is_compact)
+            .map_err(Into::into);
         DecodeAsTypeResult::Decoded(res)
     }
 }
-- 
2.43.0


From 49bdd8d7df52fe44381caa86f258e60043b4f77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:31 +0000
Subject: [PATCH 10/10] fix: skip all of a composite or tuple after one of its
 items failed to decode

---
 scale-decode/src/visitor/types/composite.rs | 39 ++++++++++++++++-----
 scale-decode/src/visitor/types/tuple.rs     | 34 ++++++++++++++----
 2 files changed, 57 insertions(+), 16 deletions(-)

diff --git a/scale-decode/src/visitor/types/composite.rs b/scale-decode/src/visitor/types/composite.rs
index a1727c3..191e822 100644
--- a/scale-decode/src/visitor/types/composite.rs
+++ b/scale-decode/src/visitor/types/composite.rs
@@ -26,6 +26,8 @@ pub struct Composite<'scale, 'resolver, R: TypeResolver> {
     fields: smallvec::SmallVec<[Field<'resolver, R::TypeId>; 16]>,
     path: smallvec::SmallVec<[&'resolver str; 5]>,
     next_field_idx: usize,
+    // Set once an item fails to decode; there is nothing more to iterate over then.
+    failed: bool,
     types: &'resolver R,
     is_compact: bool,
 }
@@ -42,7 +44,16 @@ impl<'scale, 'resolver, R: TypeResolver> Composite<'scale, 'resolver, R> {
     ) -> Composite<'scale, 'resolver, R> {
         let path = smallvec::SmallVec::from_iter(path);
         let fields = smallvec::SmallVec::from_iter(fields);
-        Composite { path, bytes, item_bytes: bytes, fields, types, next_field_idx: 0, is_compact }
+        Composite {
+            path,
+            bytes,
+            item_bytes: bytes,
+            fields,
+            types,
+            next_field_idx: 0,
+            failed: false,
+            is_compact,
+        }
     }
     /// Return the name of the composite type, if one was given.
     pub fn name(&self) -> Option<&'resolver str> {
@@ -55,6 +66,8 @@ impl<'scale, 'resolver, R: TypeResolver> Composite<'scale, 'resolver, R> {
     /// Skip over all bytes associated with this composite type. After calling this,
     /// [`Self::bytes_from_undecoded()`] will represent the bytes after this composite type.
     pub fn skip_decoding(&mut self) -> Result<(), DecodeError> {
+        // If an item failed to decode, we still have the bytes of it and those after it to skip over.
+        self.failed = false;
         while let Some(res) = self.decode_item(IgnoreVisitor::<R>::new()) {
             res?;
         }
@@ -71,7 +84,15 @@ impl<'scale, 'resolver, R: TypeResolver> Composite<'scale, 'resolver, R> {
     }
     /// The number of un-decoded items remaining in this composite type.
     pub fn remaining(&self) -> usize {
-        self.fields.len() - self.next_field_idx
+        self.remaining_fields().len()
+    }
+    // The fields that can still be decoded.
+    fn remaining_fields(&self) -> &[Field<'resolver, R::TypeId>] {
+        if self.failed {
+            &[]
+        } else {
+            &self.fields[self.next_field_idx..]
+        }
     }
     /// All of the fields present in this composite type.
     pub fn fields(&self) -> &[Field<'resolver, R::TypeId>] {
@@ -86,7 +107,7 @@ impl<'scale, 'resolver, R: TypeResolver> Composite<'scale, 'resolver, R> {
     pub fn as_tuple(&self) -> super::Tuple<'scale, 'resolver, R> {
         super::Tuple::new(
             self.item_bytes,
-            &mut self.fields[self.next_field_idx..].iter().cloned(),
+            &mut self.remaining_fields().iter().cloned(),
             self.types,
             self.is_compact,
         )
@@ -94,7 +115,7 @@ impl<'scale, 'resolver, R: TypeResolver> Composite<'scale, 'resolver, R> {
     /// Return the name of the next field to be decoded; `None` if either the field has no name,
     /// or there are no fields remaining.
     pub fn peek_name(&self) -> Option<&'resolver str> {
-        self.fields.get(self.next_field_idx).and_then(|f| f.name)
+        self.remaining_fields().first().and_then(|f| f.name)
     }
     /// Decode the next field in the composite type by providing a visitor to handle it. This is more
     /// efficient than iterating over the key/value pairs if you already know how you want to decode the
@@ -103,13 +124,13 @@ impl<'scale, 'resolver, R: TypeResolver> Composite<'scale, 'resolver, R> {
         &mut self,
         visitor: V,
     ) -> Option<Result<V::Value<'scale, 'resolver>, V::Error>> {
-        let field = self.fields.get(self.next_field_idx)?;
+        let field = self.remaining_fields().first()?.clone();
         let b = &mut &*self.item_bytes;
 
         // Decode the bytes:
         let res = crate::visitor::decode_with_visitor_maybe_compact(
             b,
-            field.id.clone(),
+            field.id,
             self.types,
             visitor,
             self.is_compact,
@@ -120,8 +141,8 @@ impl<'scale, 'resolver, R: TypeResolver> Composite<'scale, 'resolver, R> {
             self.item_bytes = *b;
             self.next_field_idx += 1;
         } else {
-            // Otherwise, skip to end to prevent any future iterations:
-            self.next_field_idx = self.fields.len()
+            // Otherwise, prevent any future iterations:
+            self.failed = true;
         }
 
         Some(res)
@@ -133,7 +154,7 @@ impl<'scale, 'resolver, R: TypeResolver> Iterator for Composite<'scale, 'resolve
     type Item = Result<CompositeField<'scale, 'resolver, R>, DecodeError>;
     fn next(&mut self) -> Option<Self::Item> {
         // Record details we need before we decode and skip over the thing:
-        let field = self.fields.get(self.next_field_idx)?.clone();
+        let field = self.remaining_fields().first()?.clone();
         let num_bytes_before = self.item_bytes.len();
         let item_bytes = self.item_bytes;
 
diff --git a/scale-decode/src/visitor/types/tuple.rs b/scale-decode/src/visitor/types/tuple.rs
index 25abb0d..4ae90a4 100644
--- a/scale-decode/src/visitor/types/tuple.rs
+++ b/scale-decode/src/visitor/types/tuple.rs
@@ -25,6 +25,8 @@ pub struct Tuple<'scale, 'resolver, R: TypeResolver> {
     item_bytes: &'scale [u8],
     fields: smallvec::SmallVec<[Field<'resolver, R::TypeId>; 16]>,
     next_field_idx: usize,
+    // Set once an item fails to decode; there is nothing more to iterate over then.
+    failed: bool,
     types: &'resolver R,
     is_compact: bool,
 }
@@ -37,11 +39,21 @@ impl<'scale, 'resolver, R: TypeResolver> Tuple<'scale, 'resolver, R> {
         is_compact: bool,
     ) -> Tuple<'scale, 'resolver, R> {
         let fields = smallvec::SmallVec::from_iter(fields);
-        Tuple { bytes, item_bytes: bytes, fields, types, next_field_idx: 0, is_compact }
+        Tuple {
+            bytes,
+            item_bytes: bytes,
+            fields,
+            types,
+            next_field_idx: 0,
+            failed: false,
+            is_compact,
+        }
     }
     /// Skip over all bytes associated with this tuple. After calling this,
     /// [`Self::bytes_from_undecoded()`] will represent the bytes after this tuple.
     pub fn skip_decoding(&mut self) -> Result<(), DecodeError> {
+        // If an item failed to decode, we still have the bytes of it and those after it to skip over.
+        self.failed = false;
         while let Some(res) = self.decode_item(IgnoreVisitor::<R>::new()) {
             res?;
         }
@@ -58,19 +70,27 @@ impl<'scale, 'resolver, R: TypeResolver> Tuple<'scale, 'resolver, R> {
     }
     /// The number of un-decoded items remaining in the tuple.
     pub fn remaining(&self) -> usize {
-        self.fields.len() - self.next_field_idx
+        self.remaining_fields().len()
+    }
+    // The fields that can still be decoded.
+    fn remaining_fields(&self) -> &[Field<'resolver, R::TypeId>] {
+        if self.failed {
+            &[]
+        } else {
+            &self.fields[self.next_field_idx..]
+        }
     }
     /// Decode the next item from the tuple by providing a visitor to handle it.
     pub fn decode_item<V: Visitor<TypeResolver = R>>(
         &mut self,
         visitor: V,
     ) -> Option<Result<V::Value<'scale, 'resolver>, V::Error>> {
-        let field = self.fields.get(self.next_field_idx)?;
+        let field = self.remaining_fields().first()?.clone();
         let b = &mut &*self.item_bytes;
         // Decode the bytes:
         let res = crate::visitor::decode_with_visitor_maybe_compact(
             b,
-            field.id.clone(),
+            field.id,
             self.types,
             visitor,
             self.is_compact,
@@ -81,8 +101,8 @@ impl<'scale, 'resolver, R: TypeResolver> Tuple<'scale, 'resolver, R> {
             self.item_bytes = *b;
             self.next_field_idx += 1;
         } else {
-            // Otherwise, skip to end to prevent any future iterations:
-            self.next_field_idx = self.fields.len()
+            // Otherwise, prevent any future iterations:
+            self.failed = true;
         }
 
         Some(res)
@@ -94,7 +114,7 @@ impl<'scale, 'resolver, R: TypeResolver> Iterator for Tuple<'scale, 'resolver, R
     type Item = Result<TupleField<'scale, 'resolver, R>, DecodeError>;
     fn next(&mut self) -> Option<Self::Item> {
         // Record details we need before we decode and skip over the thing:
-        let field = self.fields.get(self.next_field_idx)?.clone();
+        let field = self.remaining_fields().first()?.clone();
         let num_bytes_before = self.item_bytes.len();
         let item_bytes = self.item_bytes;
 
-- 
2.43.0

