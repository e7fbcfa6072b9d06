From af3cdd600cb4329d81d3fe9e71f7047f0026f56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 01/23] fix: do not take raw primitive data for a BinaryLibrary
 record

A typed primitive member or array element whose data starts with the byte 12
was tried as a BinaryLibrary record first: an Int64 of 12 was rejected (library
id 0), and data that happens to look like a whole library record was skipped.
---
 src/binary_parser/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index d0cb273..5aff53d 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -95,7 +95,12 @@ impl<'i> BinaryParser<'i> {
     input: &'i [u8],
     type_enum_and_additional_type_info: Option<(BinaryType, Option<&AdditionalTypeInfo<'i>>)>,
   ) -> IResult<&'i [u8], ValueOrRef<'i>, Error<'i>> {
-    let (input, ()) = self.parse_binary_library(input)?;
+    // `MemberPrimitiveUnTyped` is raw data which must not be mistaken for a `BinaryLibrary`.
+    let (input, ()) = if matches!(type_enum_and_additional_type_info, Some((BinaryType::Primitive, _))) {
+      (input, ())
+    } else {
+      self.parse_binary_library(input)?
+    };
 
     let (input, object) = if let Some((type_enum, additional_type_info)) = type_enum_and_additional_type_info {
       match (type_enum, additional_type_info) {
-- 
2.43.0


From 72772d4e64425758aa89ff76cbcf3f42e3d79a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 02/23] fix: remember class definitions for ClassWithId records

The table of class definitions was never filled, so every message with a
ClassWithId record was rejected.
---
 src/binary_parser/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 5aff53d..0aaa631 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -259,6 +259,8 @@ impl<'i> BinaryParser<'i> {
       return Err(nom::Err::Failure(error_position!(input, DuplicateObjectId)))
     }
 
+    self.classes.insert(object_id, class.clone());
+
     let (input, (class_info, library, member_references)) = match class {
       Class::ClassWithMembers(ref class) => {
         let library = if let Some(library) = self.binary_libraries.get(&class.library_id()) {
-- 
2.43.0


From 60d5b7583065dd2e72eb29f3da449a8e5173b3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 03/23] fix: accept a BinaryLibrary record in front of arrays
 and method records

The library record is parsed again by each alternative that may start with one.
The second time it was taken for a duplicate, so that a library record was only
accepted in front of a class.
---
 src/binary_parser/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 0aaa631..ba74485 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -80,9 +80,13 @@ impl<'i> BinaryParser<'i> {
 
     if let Some(binary_library) = binary_library {
       let library_id = binary_library.library_id();
+      let library_name = binary_library.library_name.as_str();
 
-      if self.binary_libraries.insert(library_id, binary_library.library_name).is_some() {
-        return Err(nom::Err::Failure(error_position!(input, DuplicateLibraryId)))
+      if let Some(previous) = self.binary_libraries.insert(library_id, binary_library.library_name) {
+        // The same record may be parsed again after backtracking.
+        if !std::ptr::eq(previous.as_str(), library_name) {
+          return Err(nom::Err::Failure(error_position!(input, DuplicateLibraryId)))
+        }
       }
     }
 
-- 
2.43.0


From d62d249df4f75af1f6640e0cbc7ffad8994052e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 04/23] fix: count null runs as elements of a BinaryArray

Each record was counted as one element, so that a BinaryArray with an
ObjectNullMultiple(256) record was read past its end, got more elements than
declared, or, if rectangular, panicked when its rows were split.
---
 src/binary_parser/mod.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index ba74485..a9920fa 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -404,13 +404,28 @@ impl<'i> BinaryParser<'i> {
       Some(member_count) => member_count,
       None => return Err(nom::Err::Failure(error_position!(err_input, InvalidLength))),
     };
-    let (input, members) = count(
-      |input| {
-        self.parse_member_reference(input, Some((binary_array.type_enum, binary_array.additional_type_info.as_ref())))
-      },
-      member_count,
-    )
-    .parse(input)?;
+
+    let mut input = input;
+    let mut members = vec![];
+
+    while members.len() < member_count {
+      let member;
+      (input, member) = self.parse_member_reference(
+        input,
+        Some((binary_array.type_enum, binary_array.additional_type_info.as_ref())),
+      )?;
+
+      match member {
+        ValueOrRef::Null(count) => {
+          for _ in 0..count {
+            members.push(ValueOrRef::Value(Value::Null));
+          }
+        },
+        _ => {
+          members.push(member);
+        },
+      }
+    }
 
     let (input, members) = self.resolve_members(input, members)?;
     let object_id = binary_array.object_id();
-- 
2.43.0


From 3e3a661764e1ecf18a56c132ccb32005be6425fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 05/23] fix: reject null runs which exceed the length of their
 array

Such a run made the array longer than declared, up to exhausting memory.
---
 src/binary_parser/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index a9920fa..8fe5152 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -332,6 +332,10 @@ impl<'i> BinaryParser<'i> {
 
       match member {
         ValueOrRef::Null(count) => {
+          if count > len - members.len() {
+            return Err(nom::Err::Failure(error_position!(input, InvalidNullCount)))
+          }
+
           for _ in 0..count {
             members.push(ValueOrRef::Value(Value::Null));
           }
@@ -378,6 +382,10 @@ impl<'i> BinaryParser<'i> {
 
       match member {
         ValueOrRef::Null(count) => {
+          if count > len - members.len() {
+            return Err(nom::Err::Failure(error_position!(input, InvalidNullCount)))
+          }
+
           for _ in 0..count {
             members.push(ValueOrRef::Value(Value::Null));
           }
@@ -417,6 +425,10 @@ impl<'i> BinaryParser<'i> {
 
       match member {
         ValueOrRef::Null(count) => {
+          if count > member_count - members.len() {
+            return Err(nom::Err::Failure(error_position!(input, InvalidNullCount)))
+          }
+
           for _ in 0..count {
             members.push(ValueOrRef::Value(Value::Null));
           }
-- 
2.43.0


From acb1de982e60599ea957476aa398c08288233fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 06/23] fix: reject null runs in place of a class member

A run stands for several nulls, but took the place of one member: the values of
the members after it were shifted and the last ones lost, and a large run
exhausted memory.
---
 src/binary_parser/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 8fe5152..b90fef3 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -304,6 +304,10 @@ impl<'i> BinaryParser<'i> {
       },
     };
 
+    if member_references.iter().any(|member| matches!(member, ValueOrRef::Null(count) if *count != 1)) {
+      return Err(nom::Err::Failure(error_position!(input, InvalidNullCount)))
+    }
+
     let (input, member_references) = self.resolve_members(input, member_references)?;
 
     let members = HashMap::from_iter(
-- 
2.43.0


From 77357bb6b7d9df5b1d9c7dedd77295e4697cf0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 07/23] fix: accept references and nulls in typed members and
 elements

Strings only accepted a string, classes only an object or null, and primitive
arrays only a reference, although each of them may be null or a reference to an
object which is written elsewhere in the message.
---
 src/binary_parser/mod.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index b90fef3..2d78c39 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -113,9 +113,6 @@ impl<'i> BinaryParser<'i> {
           |primitive| ValueOrRef::Value(primitive.into_value()),
         )
         .parse(input)?,
-        (BinaryType::String, None) => {
-          map(BinaryObjectString::parse, |s| ValueOrRef::Value(Value::String(s.as_str()))).parse(input)?
-        },
         (BinaryType::Object, None) => return self.parse_member_reference(input, None),
         (BinaryType::SystemClass, Some(AdditionalTypeInfo::SystemClass(class_name))) => {
           if let Ok((input, (_, object))) = self.parse_classes(input) {
@@ -125,7 +122,7 @@ impl<'i> BinaryParser<'i> {
 
             (input, ValueOrRef::Value(Value::Object(object)))
           } else {
-            Self::parse_null_object(input)?
+            Self::parse_reference_or_null_object(input)?
           }
         },
         (BinaryType::Class, Some(AdditionalTypeInfo::Class(class_type_info))) => {
@@ -144,11 +141,11 @@ impl<'i> BinaryParser<'i> {
 
             (input, ValueOrRef::Value(Value::Object(object)))
           } else {
-            Self::parse_null_object(input)?
+            Self::parse_reference_or_null_object(input)?
           }
         },
         (BinaryType::ObjectArray, None) => return self.parse_member_reference(input, None),
-        (BinaryType::StringArray, None) => alt((
+        (BinaryType::String | BinaryType::StringArray, None) => alt((
           map(BinaryObjectString::parse, |s| ValueOrRef::Value(Value::String(s.as_str()))),
           map(
             |input| MemberReference::parse(input),
@@ -158,8 +155,7 @@ impl<'i> BinaryParser<'i> {
         ))
         .parse(input)?,
         (BinaryType::PrimitiveArray, Some(AdditionalTypeInfo::Primitive(_primitive_type))) => {
-          map(|input| MemberReference::parse(input), |member_reference| ValueOrRef::Ref(RefId(member_reference.id_ref)))
-            .parse(input)?
+          Self::parse_reference_or_null_object(input)?
         },
         _ => unreachable!(),
       }
@@ -503,6 +499,15 @@ impl<'i> BinaryParser<'i> {
     .parse(input)
   }
 
+  /// 2.7 Binary Record Grammar - `(MemberReference/nullObject)`
+  fn parse_reference_or_null_object(input: &'i [u8]) -> IResult<&'i [u8], ValueOrRef<'i>, Error<'i>> {
+    alt((
+      map(|input| MemberReference::parse(input), |member_reference| ValueOrRef::Ref(RefId(member_reference.id_ref))),
+      Self::parse_null_object,
+    ))
+    .parse(input)
+  }
+
   fn parse_call_array(
     &mut self,
     input: &'i [u8],
-- 
2.43.0


From 42e3c42762f84495985904728696a344e4bcc281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 08/23] fix: resolve references to strings which are written in
 place or used before

A string which is a member or array element was not registered under its id, and
a referenced string was consumed by the first reference (also if it was the root
object), so that the second occurrence of a string in a message was rejected.
---
 src/binary_parser/mod.rs | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 2d78c39..6fd17aa 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -146,7 +146,7 @@ impl<'i> BinaryParser<'i> {
         },
         (BinaryType::ObjectArray, None) => return self.parse_member_reference(input, None),
         (BinaryType::String | BinaryType::StringArray, None) => alt((
-          map(BinaryObjectString::parse, |s| ValueOrRef::Value(Value::String(s.as_str()))),
+          map(|input| self.parse_string(input), |(_, s)| ValueOrRef::Value(s)),
           map(
             |input| MemberReference::parse(input),
             |member_reference| ValueOrRef::Ref(RefId(member_reference.id_ref)),
@@ -160,14 +160,13 @@ impl<'i> BinaryParser<'i> {
         _ => unreachable!(),
       }
     } else {
-      alt((
+      alt_mut!(input =>
         map(|input| MemberPrimitiveTyped::parse(input), |primitive| ValueOrRef::Value(primitive.into_value())),
         map(|input| MemberReference::parse(input), |member_reference| ValueOrRef::Ref(RefId(member_reference.id_ref))),
-        map(BinaryObjectString::parse, |s| ValueOrRef::Value(Value::String(s.as_str()))),
+        map(|input| self.parse_string(input), |(_, s)| ValueOrRef::Value(s)),
         Self::parse_null_object,
         map(|input| self.parse_classes(input), |(_, object)| ValueOrRef::Value(Value::Object(object))),
-      ))
-      .parse(input)?
+      )?
     };
 
     Ok((input, object))
@@ -191,6 +190,14 @@ impl<'i> BinaryParser<'i> {
     Ok((input, member_references))
   }
 
+  /// Takes an already parsed object, except for strings, which may be referenced repeatedly.
+  fn take_object(&mut self, id: RefId) -> Option<Value<'i>> {
+    match self.objects.get(&id.0) {
+      Some(Value::String(s)) => Some(Value::String(s)),
+      _ => self.objects.remove(&id.0),
+    }
+  }
+
   /// Resolves members from already parsed objects or by parsing missing members.
   fn resolve_members(
     &mut self,
@@ -210,13 +217,13 @@ impl<'i> BinaryParser<'i> {
           }
         },
         ValueOrRef::Ref(id) => {
-          if let Some(value) = self.objects.remove(&id.0) {
+          if let Some(value) = self.take_object(id) {
             members2.push(value);
           } else {
             let member2;
             (input, member2) = verify(|input| self.parse_referenceable(input), |id2| id2.0 == id.0).parse(input)?;
 
-            if let Some(value) = self.objects.remove(&member2.0) {
+            if let Some(value) = self.take_object(member2) {
               members2.push(value);
             } else {
               return Err(nom::Err::Failure(error_position!(input, UnresolvableMemberReference)))
@@ -468,6 +475,17 @@ impl<'i> BinaryParser<'i> {
     )
   }
 
+  /// 2.7 Binary Record Grammar - `BinaryObjectString`
+  fn parse_string(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Value<'i>), Error<'i>> {
+    let (input, string) = BinaryObjectString::parse(input)?;
+
+    let object_id = string.object_id();
+    let value = Value::String(string.as_str());
+
+    self.objects.insert(object_id, value.clone());
+    Ok((input, (RefId(object_id), value)))
+  }
+
   /// 2.7 Binary Record Grammar - `referenceable`
   fn parse_referenceable(&mut self, input: &'i [u8]) -> IResult<&'i [u8], RefId, Error<'i>> {
     let (input, (object_id, object)) = alt_mut!(input =>
@@ -479,10 +497,7 @@ impl<'i> BinaryParser<'i> {
         |input| self.parse_arrays(input),
         |(object_id, array)| (object_id, Value::Array(array)),
       ),
-      map(
-        BinaryObjectString::parse,
-        |s| (RefId(s.object_id()), Value::String(s.as_str())),
-      ),
+      |input| self.parse_string(input),
     )?;
 
     self.objects.insert(object_id.0, object);
-- 
2.43.0


From fc09ab1580db6d33244990ab220d3c56bf457a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 09/23] fix: reject duplicate object IDs of all kinds of
 objects

Only the IDs of class records were meant to be checked: a second string or array
with the same ID silently replaced the first.
---
 src/binary_parser/mod.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 6fd17aa..e6762d4 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -1,5 +1,5 @@
 use std::{
-  collections::{BTreeMap, HashMap},
+  collections::{BTreeMap, BTreeSet, HashMap},
   num::NonZeroU32,
 };
 
@@ -56,6 +56,7 @@ pub struct BinaryParser<'i> {
   binary_libraries: BTreeMap<NonZeroU32, LengthPrefixedString<'i>>,
   classes: BTreeMap<NonZeroU32, Class<'i>>,
   objects: BTreeMap<NonZeroU32, Value<'i>>,
+  object_ids: BTreeSet<NonZeroU32>,
 }
 
 macro_rules! alt_mut {
@@ -190,6 +191,15 @@ impl<'i> BinaryParser<'i> {
     Ok((input, member_references))
   }
 
+  /// Ensures that every object ID is only defined once.
+  fn register_object_id(&mut self, input: &'i [u8], id: RefId) -> Result<(), nom::Err<Error<'i>>> {
+    if self.object_ids.insert(id.0) {
+      Ok(())
+    } else {
+      Err(nom::Err::Failure(error_position!(input, DuplicateObjectId)))
+    }
+  }
+
   /// Takes an already parsed object, except for strings, which may be referenced repeatedly.
   fn take_object(&mut self, id: RefId) -> Option<Value<'i>> {
     match self.objects.get(&id.0) {
@@ -262,9 +272,7 @@ impl<'i> BinaryParser<'i> {
       Err(err) => return Err(err),
     };
 
-    if self.classes.contains_key(&object_id) {
-      return Err(nom::Err::Failure(error_position!(input, DuplicateObjectId)))
-    }
+    self.register_object_id(input, RefId(object_id))?;
 
     self.classes.insert(object_id, class.clone());
 
@@ -467,12 +475,15 @@ impl<'i> BinaryParser<'i> {
   fn parse_arrays(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Vec<Value<'i>>), Error<'i>> {
     let (input, ()) = self.parse_binary_library(input)?;
 
-    alt_mut!(input =>
+    let (input, (object_id, members)) = alt_mut!(input =>
       |input| self.parse_array_single_object(input),
       |input| self.parse_array_single_primitive(input),
       |input| self.parse_array_single_string(input),
       |input| self.parse_binary_array(input),
-    )
+    )?;
+
+    self.register_object_id(input, object_id)?;
+    Ok((input, (object_id, members)))
   }
 
   /// 2.7 Binary Record Grammar - `BinaryObjectString`
@@ -482,6 +493,7 @@ impl<'i> BinaryParser<'i> {
     let object_id = string.object_id();
     let value = Value::String(string.as_str());
 
+    self.register_object_id(input, RefId(object_id))?;
     self.objects.insert(object_id, value.clone());
     Ok((input, (RefId(object_id), value)))
   }
@@ -536,6 +548,8 @@ impl<'i> BinaryParser<'i> {
       return Err(nom::Err::Failure(Error { input, inner: ErrorInner::InvalidCallArrayId }))
     }
 
+    self.register_object_id(input, call_array_id)?;
+
     Ok((input, call_array))
   }
 
-- 
2.43.0


From 366c01d3bdb146c5a15bd0ff5304230da2ebf50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 10/23] fix: check RETURN_VALUE_INLINE together with the other
 return flags

RETURN_VALUE_IN_ARRAY was listed twice instead, so that contradictory flags like
NO_RETURN_VALUE with RETURN_VALUE_INLINE were accepted.
---
 src/record/message_flags.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/record/message_flags.rs b/src/record/message_flags.rs
index d4ba481..3cb0b8c 100644
--- a/src/record/message_flags.rs
+++ b/src/record/message_flags.rs
@@ -81,7 +81,7 @@ impl MessageFlags {
     let return_flags = flags.intersection(
       Self::NO_RETURN_VALUE
         .union(Self::RETURN_VALUE_VOID)
-        .union(Self::RETURN_VALUE_IN_ARRAY)
+        .union(Self::RETURN_VALUE_INLINE)
         .union(Self::RETURN_VALUE_IN_ARRAY),
     );
     let signature_flags = flags.intersection(Self::METHOD_SIGNATURE_IN_ARRAY);
-- 
2.43.0


From 05b6e4af1bd78944b66fd88a712424252c3011d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 11/23] fix: take the kind of a DateTime from its upper two
 bits

.NET writes the ticks in the lower 62 bits and the kind in the upper two bits
of the little-endian value, see System.DateTime.ToBinary.
---
 src/value/date_time.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/value/date_time.rs b/src/value/date_time.rs
index 7a2e5e5..473bf40 100644
--- a/src/value/date_time.rs
+++ b/src/value/date_time.rs
@@ -17,12 +17,12 @@ impl DateTime {
   /// The value can represent time instants in a granularity of 100 nanoseconds
   /// until 23:59:59.9999999, December 31, 9999.
   pub fn ticks(&self) -> i64 {
-    i64::from(self.0) >> 2
+    i64::from(self.0) & 0x3FFF_FFFF_FFFF_FFFF
   }
 
   /// Provides the time-zone information.
   pub fn kind(&self) -> Option<DateTimeKind> {
-    match i64::from(self.0) & 0b11 {
+    match (i64::from(self.0) as u64) >> 62 {
       1 => Some(DateTimeKind::Utc),
       2 => Some(DateTimeKind::Local),
       _ => None,
-- 
2.43.0


From c280e4b9b6588f691b9e956fd1ed51f0f1769f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 12/23] fix: reject lists whose size exceeds their items by one

The end of the items was counted as an item.
---
 src/value/object.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/value/object.rs b/src/value/object.rs
index 7364f11..e3c879d 100644
--- a/src/value/object.rs
+++ b/src/value/object.rs
@@ -262,7 +262,9 @@ where
   {
     if self.count < self.size {
       let res = self.array_deserializer.next_element_seed(seed)?;
-      self.count += 1;
+      if res.is_some() {
+        self.count += 1;
+      }
       return Ok(res)
     }
 
-- 
2.43.0


From bef53cde8437fea20b69c26cc2879cff383a9fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 13/23] fix: decode Char as UTF-8

Every first byte was taken for a whole character, so that characters outside of
ASCII were decoded wrongly and shifted what follows them.
---
 src/data_type/char.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/data_type/char.rs b/src/data_type/char.rs
index 26f8f2e..8c80693 100644
--- a/src/data_type/char.rs
+++ b/src/data_type/char.rs
@@ -1,8 +1,10 @@
+use std::str;
+
 use nom::{
   IResult, Parser,
   branch::alt,
+  bytes::complete::take,
   combinator::{map, map_opt},
-  number::complete::{le_u16, le_u24, le_u32, u8},
 };
 
 use super::impl_primitive;
@@ -18,12 +20,14 @@ pub struct Char(pub char);
 
 impl Char {
   pub fn parse(input: &[u8]) -> IResult<&[u8], Self, Error<'_>> {
+    let utf8_char = |bytes: &[u8]| str::from_utf8(bytes).ok().and_then(|s| s.chars().next());
+
     map(
       alt((
-        map_opt(u8, |n| char::from_u32(n as u32)),
-        map_opt(le_u16, |n| char::from_u32(n as u32)),
-        map_opt(le_u24, char::from_u32),
-        map_opt(le_u32, char::from_u32),
+        map_opt(take(1usize), utf8_char),
+        map_opt(take(2usize), utf8_char),
+        map_opt(take(3usize), utf8_char),
+        map_opt(take(4usize), utf8_char),
       )),
       Self,
     )
-- 
2.43.0


From 2e668fed4144b9bcd6b2daee7323126521c34987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 14/23] fix: deserialize a root value into an Option

Deserializing a message which is not null into an Option always failed, although
it works for values inside of objects and arrays.
---
 src/remoting_message.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/remoting_message.rs b/src/remoting_message.rs
index 644fb80..b00f576 100644
--- a/src/remoting_message.rs
+++ b/src/remoting_message.rs
@@ -100,6 +100,13 @@ impl<'de> Deserializer<'de> for RemotingMessage<'de> {
     self.to_deserializer(&visitor)?.deserialize_any(visitor)
   }
 
+  fn deserialize_option<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+  where
+    V: Visitor<'de>,
+  {
+    self.to_deserializer(&visitor)?.deserialize_option(visitor)
+  }
+
   fn deserialize_struct<V>(
     self,
     name: &'static str,
@@ -114,7 +121,7 @@ impl<'de> Deserializer<'de> for RemotingMessage<'de> {
 
   forward_to_deserialize_any! {
       bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-      bytes byte_buf option unit unit_struct newtype_struct seq tuple
+      bytes byte_buf unit unit_struct newtype_struct seq tuple
       tuple_struct map enum identifier ignored_any
   }
 }
-- 
2.43.0


From 8652768635c01784a913921297fabfb654c9d484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 15/23] fix: accept negative object IDs of class instances

2.3.1.1 ClassInfo: the ObjectId of an object which is not referenced may be
negative. .NET numbers the instances of value types this way.
---
 src/combinator.rs           | 16 ++++++++++++++++
 src/common/class_info.rs    |  4 ++--
 src/record/class_with_id.rs |  6 +++---
 3 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 03fb2ac..82109b2 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -44,6 +44,22 @@ pub fn object_id(input: &[u8]) -> IResult<&[u8], NonZeroU32, Error<'_>> {
   }
 }
 
+/// The ID of a class instance, which may be negative if it is not referenced by a `MemberReference`.
+pub fn class_object_id(input: &[u8]) -> IResult<&[u8], NonZeroU32, Error<'_>> {
+  let err_input = input;
+
+  match Int32::parse(input) {
+    Ok((input, object_id)) => {
+      if let Some(object_id) = NonZeroU32::new(i32::from(object_id) as u32) {
+        Ok((input, object_id))
+      } else {
+        Err(nom::Err::Failure(error_position!(err_input, InvalidObjectId)))
+      }
+    },
+    Err(err) => Err(err),
+  }
+}
+
 pub fn length(input: &[u8]) -> IResult<&[u8], usize, Error<'_>> {
   let err_input = input;
 
diff --git a/src/common/class_info.rs b/src/common/class_info.rs
index bef193a..67c4ee3 100644
--- a/src/common/class_info.rs
+++ b/src/common/class_info.rs
@@ -3,7 +3,7 @@ use std::num::NonZeroU32;
 use nom::{IResult, Parser, multi::length_count};
 
 use crate::{
-  combinator::{length, object_id},
+  combinator::{class_object_id, length},
   data_type::LengthPrefixedString,
   error::Error,
 };
@@ -18,7 +18,7 @@ pub struct ClassInfo<'i> {
 
 impl<'i> ClassInfo<'i> {
   pub fn parse(input: &'i [u8]) -> IResult<&'i [u8], Self, Error<'i>> {
-    let (input, object_id) = object_id(input)?;
+    let (input, object_id) = class_object_id(input)?;
     let (input, name) = LengthPrefixedString::parse(input)?;
     let (input, member_names) = length_count(length, LengthPrefixedString::parse).parse(input)?;
 
diff --git a/src/record/class_with_id.rs b/src/record/class_with_id.rs
index 028496b..3153d5c 100644
--- a/src/record/class_with_id.rs
+++ b/src/record/class_with_id.rs
@@ -3,7 +3,7 @@ use std::num::NonZeroU32;
 use nom::IResult;
 
 use crate::{
-  combinator::{self, object_id},
+  combinator::class_object_id,
   error::{Error, error_position},
   record::RecordType,
 };
@@ -19,9 +19,9 @@ impl ClassWithId {
   pub fn parse(input: &[u8]) -> IResult<&[u8], Self, Error<'_>> {
     let (input, _) = RecordType::ClassWithId.parse(input)?;
 
-    let (input, object_id) = object_id(input)?;
+    let (input, object_id) = class_object_id(input)?;
     let err_input = input;
-    let (input, metadata_id) = combinator::object_id(input)?;
+    let (input, metadata_id) = class_object_id(input)?;
 
     if metadata_id == object_id {
       return Err(nom::Err::Failure(error_position!(err_input, InvalidMetadataId)))
-- 
2.43.0


From 9dc03cac669ceb4e0d1908fb451ecf53b05749b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 16/23] fix: report the return value which is an item of the
 call array

---
 src/binary_parser/mod.rs | 18 ++++++++++++++++--
 src/error.rs             |  2 ++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index e6762d4..1c07542 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -607,7 +607,21 @@ impl<'i> BinaryParser<'i> {
 
     let (input, binary_method_return) = BinaryMethodReturn::parse(input)?;
 
-    let (input, call_array) = opt(|input| self.parse_call_array(input, root_id)).parse(input)?;
+    let (input, mut call_array) = opt(|input| self.parse_call_array(input, root_id)).parse(input)?;
+
+    // The item of the call array which follows the arguments, if they are also an item of the call array.
+    let return_value = if binary_method_return.message_enum.intersects(MessageFlags::RETURN_VALUE_IN_ARRAY)
+      && !binary_method_return.message_enum.intersects(MessageFlags::ARGS_IS_ARRAY)
+    {
+      let index = binary_method_return.message_enum.intersects(MessageFlags::ARGS_IN_ARRAY).into();
+
+      match call_array.as_mut() {
+        Some(call_array) if index < call_array.len() => Some(call_array.remove(index)),
+        _ => return Err(nom::Err::Failure(error_position!(input, InvalidReturnValue))),
+      }
+    } else {
+      binary_method_return.return_value.map(|v| v.into_value())
+    };
 
     let parse_args = |message_enum: MessageFlags| {
       if message_enum.intersects(MessageFlags::ARGS_IS_ARRAY) {
@@ -632,7 +646,7 @@ impl<'i> BinaryParser<'i> {
     let args = parse_args(binary_method_return.message_enum)?;
 
     let method_return = MethodReturn {
-      return_value: binary_method_return.return_value.map(|v| v.into_value()),
+      return_value,
       call_context: binary_method_return.call_context.map(|c| c.as_str()),
       args,
     };
diff --git a/src/error.rs b/src/error.rs
index 69d48d1..7c5f91a 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -54,6 +54,7 @@ pub(crate) enum ErrorInner {
   MissingMetadataId,
   InvalidMetadataId,
   InvalidArgs,
+  InvalidReturnValue,
   UnexpectedClass,
   ExpectedBinaryType,
   ExpectedBinaryArrayType,
@@ -86,6 +87,7 @@ impl fmt::Display for ErrorInner {
       Self::InvalidRootId => write!(f, "invalid root ID"),
       Self::MissingMetadataId => write!(f, "missing metadata ID"),
       Self::InvalidMetadataId => write!(f, "invalid metadata ID"),
+      Self::InvalidReturnValue => write!(f, "invalid method return value"),
       Self::InvalidArgs => write!(f, "invalid method arguments"),
       Self::UnexpectedClass => write!(f, "unexpected class"),
       Self::ExpectedBinaryType => write!(f, "expected BinaryType"),
-- 
2.43.0


From 5bd4f6b8ae99c358357eb6c4a763229508d316be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 17/23] fix: share class definitions instead of copying them
 for every instance

---
 src/binary_parser/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 1c07542..2fc60cc 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -1,6 +1,7 @@
 use std::{
   collections::{BTreeMap, BTreeSet, HashMap},
   num::NonZeroU32,
+  rc::Rc,
 };
 
 use nom::{
@@ -54,7 +55,7 @@ enum MethodCallOrReturn<'i> {
 #[derive(Debug, Default)]
 pub struct BinaryParser<'i> {
   binary_libraries: BTreeMap<NonZeroU32, LengthPrefixedString<'i>>,
-  classes: BTreeMap<NonZeroU32, Class<'i>>,
+  classes: BTreeMap<NonZeroU32, Rc<Class<'i>>>,
   objects: BTreeMap<NonZeroU32, Value<'i>>,
   object_ids: BTreeSet<NonZeroU32>,
 }
@@ -255,7 +256,7 @@ impl<'i> BinaryParser<'i> {
     let (input, (object_id, class)) = match ClassWithId::parse(input) {
       Ok((input, class_with_id)) => {
         if let Some(class) = self.classes.get(&class_with_id.metadata_id()) {
-          (input, (class_with_id.object_id(), class.clone()))
+          (input, (class_with_id.object_id(), Rc::clone(class)))
         } else {
           return Err(nom::Err::Failure(error_position!(err_input, MissingMetadataId)))
         }
@@ -268,15 +269,16 @@ impl<'i> BinaryParser<'i> {
           (class.object_id(), Class::SystemClassWithMembersAndTypes(class))
         }),
       ))
+      .map(|(object_id, class)| (object_id, Rc::new(class)))
       .parse(input)?,
       Err(err) => return Err(err),
     };
 
     self.register_object_id(input, RefId(object_id))?;
 
-    self.classes.insert(object_id, class.clone());
+    self.classes.insert(object_id, Rc::clone(&class));
 
-    let (input, (class_info, library, member_references)) = match class {
+    let (input, (class_info, library, member_references)) = match *class {
       Class::ClassWithMembers(ref class) => {
         let library = if let Some(library) = self.binary_libraries.get(&class.library_id()) {
           library.as_str()
-- 
2.43.0


From 92955df26e71fe5daf737af4c17cdb23f227dfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 18/23] fix: split rectangular arrays in linear time

---
 src/binary_parser/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 2fc60cc..bf0d1e2 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -462,9 +462,10 @@ impl<'i> BinaryParser<'i> {
     let mut members = members;
     for l in binary_array.lengths.into_iter().skip(1).rev() {
       let mut members2 = vec![];
+      let mut iter = members.into_iter();
 
-      while !members.is_empty() {
-        members2.push(Value::Array(members.drain(0..l).collect::<Vec<_>>()));
+      while iter.len() > 0 {
+        members2.push(Value::Array(iter.by_ref().take(l).collect::<Vec<_>>()));
       }
 
       members = members2;
-- 
2.43.0


From b8ee6068605159d4038fecbf68cc1f8d25fbec56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 19/23] fix: resolve references after all objects are parsed

Objects were only found if they followed the object which references them in
depth-first order, and the objects referenced by a nested object were taken from
the middle of the members of the enclosing object.
---
 src/binary_parser/mod.rs | 226 +++++++++++++++++++++++----------------
 1 file changed, 134 insertions(+), 92 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index bf0d1e2..a99ed9f 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -7,7 +7,7 @@ use std::{
 use nom::{
   IResult, Parser,
   branch::alt,
-  combinator::{map, opt, verify},
+  combinator::{map, opt},
   multi::count,
 };
 
@@ -32,6 +32,16 @@ enum ValueOrRef<'i> {
   Value(Value<'i>),
   Null(usize),
   Ref(RefId),
+  Array(Vec<ValueOrRef<'i>>),
+  Object(ObjectWithRefs<'i>),
+}
+
+/// An [`Object`] with unresolved references.
+#[derive(Debug, Clone)]
+struct ObjectWithRefs<'i> {
+  class: &'i str,
+  library: Option<&'i str>,
+  members: Vec<(&'i str, ValueOrRef<'i>)>,
 }
 
 #[derive(Debug, Clone, Copy)]
@@ -46,18 +56,19 @@ pub enum Class<'i> {
   SystemClassWithMembersAndTypes(SystemClassWithMembersAndTypes<'i>),
 }
 
-#[derive(Debug, Clone, PartialEq)]
+#[derive(Debug, Clone)]
 enum MethodCallOrReturn<'i> {
-  MethodCall(MethodCall<'i>),
-  MethodReturn(MethodReturn<'i>),
+  MethodCall(BinaryMethodCall<'i>, Option<Vec<ValueOrRef<'i>>>),
+  MethodReturn(BinaryMethodReturn<'i>, Option<Vec<ValueOrRef<'i>>>),
 }
 
 #[derive(Debug, Default)]
 pub struct BinaryParser<'i> {
   binary_libraries: BTreeMap<NonZeroU32, LengthPrefixedString<'i>>,
   classes: BTreeMap<NonZeroU32, Rc<Class<'i>>>,
-  objects: BTreeMap<NonZeroU32, Value<'i>>,
+  objects: BTreeMap<NonZeroU32, ValueOrRef<'i>>,
   object_ids: BTreeSet<NonZeroU32>,
+  references: BTreeSet<NonZeroU32>,
 }
 
 macro_rules! alt_mut {
@@ -122,7 +133,7 @@ impl<'i> BinaryParser<'i> {
               return Err(nom::Err::Failure(error_position!(input, UnexpectedClass)))
             }
 
-            (input, ValueOrRef::Value(Value::Object(object)))
+            (input, ValueOrRef::Object(object))
           } else {
             Self::parse_reference_or_null_object(input)?
           }
@@ -141,7 +152,7 @@ impl<'i> BinaryParser<'i> {
               return Err(nom::Err::Failure(error_position!(input, UnexpectedClass)))
             }
 
-            (input, ValueOrRef::Value(Value::Object(object)))
+            (input, ValueOrRef::Object(object))
           } else {
             Self::parse_reference_or_null_object(input)?
           }
@@ -167,10 +178,14 @@ impl<'i> BinaryParser<'i> {
         map(|input| MemberReference::parse(input), |member_reference| ValueOrRef::Ref(RefId(member_reference.id_ref))),
         map(|input| self.parse_string(input), |(_, s)| ValueOrRef::Value(s)),
         Self::parse_null_object,
-        map(|input| self.parse_classes(input), |(_, object)| ValueOrRef::Value(Value::Object(object))),
+        map(|input| self.parse_classes(input), |(_, object)| ValueOrRef::Object(object)),
       )?
     };
 
+    if let ValueOrRef::Ref(id) = object {
+      self.references.insert(id.0);
+    }
+
     Ok((input, object))
   }
 
@@ -201,54 +216,41 @@ impl<'i> BinaryParser<'i> {
     }
   }
 
-  /// Takes an already parsed object, except for strings, which may be referenced repeatedly.
-  fn take_object(&mut self, id: RefId) -> Option<Value<'i>> {
+  /// Takes an object, except for strings, which may be referenced repeatedly.
+  fn take_object(&mut self, id: RefId) -> Option<ValueOrRef<'i>> {
     match self.objects.get(&id.0) {
-      Some(Value::String(s)) => Some(Value::String(s)),
+      Some(ValueOrRef::Value(Value::String(s))) => Some(ValueOrRef::Value(Value::String(s))),
       _ => self.objects.remove(&id.0),
     }
   }
 
-  /// Resolves members from already parsed objects or by parsing missing members.
-  fn resolve_members(
-    &mut self,
-    mut input: &'i [u8],
-    members: Vec<ValueOrRef<'i>>,
-  ) -> IResult<&'i [u8], Vec<Value<'i>>, Error<'i>> {
-    let mut members2 = Vec::with_capacity(members.len());
-
-    for member in members.into_iter() {
-      match member {
-        ValueOrRef::Value(value) => {
-          members2.push(value);
-        },
-        ValueOrRef::Null(count) => {
-          for _ in 0..count {
-            members2.push(Value::Null);
-          }
-        },
-        ValueOrRef::Ref(id) => {
-          if let Some(value) = self.take_object(id) {
-            members2.push(value);
-          } else {
-            let member2;
-            (input, member2) = verify(|input| self.parse_referenceable(input), |id2| id2.0 == id.0).parse(input)?;
-
-            if let Some(value) = self.take_object(member2) {
-              members2.push(value);
-            } else {
-              return Err(nom::Err::Failure(error_position!(input, UnresolvableMemberReference)))
-            }
-          }
-        },
-      }
+  /// Resolves references after all objects are parsed, since the objects may be in any order.
+  fn resolve(&mut self, value: ValueOrRef<'i>) -> Option<Value<'i>> {
+    match value {
+      ValueOrRef::Value(value) => Some(value),
+      ValueOrRef::Null(_) => Some(Value::Null),
+      ValueOrRef::Ref(id) => {
+        let value = self.take_object(id)?;
+        self.resolve(value)
+      },
+      ValueOrRef::Array(members) => self.resolve_members(members).map(Value::Array),
+      ValueOrRef::Object(ObjectWithRefs { class, library, members }) => {
+        let members = members
+          .into_iter()
+          .map(|(member_name, member)| Some((member_name, self.resolve(member)?)))
+          .collect::<Option<HashMap<_, _>>>()?;
+
+        Some(Value::Object(Object { class, library, members }))
+      },
     }
+  }
 
-    Ok((input, members2))
+  fn resolve_members(&mut self, members: Vec<ValueOrRef<'i>>) -> Option<Vec<Value<'i>>> {
+    members.into_iter().map(|member| self.resolve(member)).collect()
   }
 
   /// 2.7 Binary Record Grammar - `Classes`
-  fn parse_classes(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Object<'i>), Error<'i>> {
+  fn parse_classes(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, ObjectWithRefs<'i>), Error<'i>> {
     let (input, ()) = self.parse_binary_library(input)?;
 
     let err_input = input;
@@ -321,23 +323,19 @@ impl<'i> BinaryParser<'i> {
       return Err(nom::Err::Failure(error_position!(input, InvalidNullCount)))
     }
 
-    let (input, member_references) = self.resolve_members(input, member_references)?;
-
-    let members = HashMap::from_iter(
-      class_info
-        .member_names
-        .iter()
-        .zip(member_references)
-        .map(|(member_name, member)| (member_name.as_str(), { member })),
-    );
+    let members =
+      class_info.member_names.iter().map(|member_name| member_name.as_str()).zip(member_references).collect();
 
     let class_name = class_info.name.as_str();
 
-    Ok((input, (RefId(object_id), Object { class: class_name, library, members })))
+    Ok((input, (RefId(object_id), ObjectWithRefs { class: class_name, library, members })))
   }
 
   /// 2.7 Binary Record Grammar - `ArraySingleObject *(memberReference)`
-  fn parse_array_single_object(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Vec<Value<'i>>), Error<'i>> {
+  fn parse_array_single_object(
+    &mut self,
+    input: &'i [u8],
+  ) -> IResult<&'i [u8], (RefId, Vec<ValueOrRef<'i>>), Error<'i>> {
     let (mut input, array_single_object) = ArraySingleObject::parse(input)?;
 
     let mut members = vec![];
@@ -363,20 +361,21 @@ impl<'i> BinaryParser<'i> {
       }
     }
 
-    let (input, members) = self.resolve_members(input, members)?;
-
     let object_id = array_single_object.object_id();
     Ok((input, (RefId(object_id), members)))
   }
 
   /// 2.7 Binary Record Grammar - `ArraySinglePrimitive *(MemberPrimitiveUnTyped)`
-  fn parse_array_single_primitive(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Vec<Value<'i>>), Error<'i>> {
+  fn parse_array_single_primitive(
+    &mut self,
+    input: &'i [u8],
+  ) -> IResult<&'i [u8], (RefId, Vec<ValueOrRef<'i>>), Error<'i>> {
     let (input, array_single_primitive) = ArraySinglePrimitive::parse(input)?;
 
     let (input, members) = count(
       map(
         |input| MemberPrimitiveUnTyped::parse(input, array_single_primitive.primitive_type),
-        |primitive| primitive.into_value(),
+        |primitive| ValueOrRef::Value(primitive.into_value()),
       ),
       array_single_primitive.array_info.len(),
     )
@@ -387,7 +386,10 @@ impl<'i> BinaryParser<'i> {
   }
 
   /// 2.7 Binary Record Grammar - `ArraySingleString *(BinaryObjectString/MemberReference/nullObject)`
-  fn parse_array_single_string(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Vec<Value<'i>>), Error<'i>> {
+  fn parse_array_single_string(
+    &mut self,
+    input: &'i [u8],
+  ) -> IResult<&'i [u8], (RefId, Vec<ValueOrRef<'i>>), Error<'i>> {
     let (mut input, array_single_string) = ArraySingleString::parse(input)?;
 
     let mut members = vec![];
@@ -413,14 +415,12 @@ impl<'i> BinaryParser<'i> {
       }
     }
 
-    let (input, members) = self.resolve_members(input, members)?;
-
     let object_id = array_single_string.object_id();
     Ok((input, (RefId(object_id), members)))
   }
 
   /// 2.7 Binary Record Grammar - `BinaryArray *(memberReference)`
-  fn parse_binary_array(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Vec<Value<'i>>), Error<'i>> {
+  fn parse_binary_array(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Vec<ValueOrRef<'i>>), Error<'i>> {
     let err_input = input;
 
     let (input, binary_array) = BinaryArray::parse(input)?;
@@ -435,10 +435,8 @@ impl<'i> BinaryParser<'i> {
 
     while members.len() < member_count {
       let member;
-      (input, member) = self.parse_member_reference(
-        input,
-        Some((binary_array.type_enum, binary_array.additional_type_info.as_ref())),
-      )?;
+      (input, member) = self
+        .parse_member_reference(input, Some((binary_array.type_enum, binary_array.additional_type_info.as_ref())))?;
 
       match member {
         ValueOrRef::Null(count) => {
@@ -456,7 +454,6 @@ impl<'i> BinaryParser<'i> {
       }
     }
 
-    let (input, members) = self.resolve_members(input, members)?;
     let object_id = binary_array.object_id();
 
     let mut members = members;
@@ -465,7 +462,7 @@ impl<'i> BinaryParser<'i> {
       let mut iter = members.into_iter();
 
       while iter.len() > 0 {
-        members2.push(Value::Array(iter.by_ref().take(l).collect::<Vec<_>>()));
+        members2.push(ValueOrRef::Array(iter.by_ref().take(l).collect::<Vec<_>>()));
       }
 
       members = members2;
@@ -475,7 +472,7 @@ impl<'i> BinaryParser<'i> {
   }
 
   /// 2.7 Binary Record Grammar - `Arrays`
-  fn parse_arrays(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Vec<Value<'i>>), Error<'i>> {
+  fn parse_arrays(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Vec<ValueOrRef<'i>>), Error<'i>> {
     let (input, ()) = self.parse_binary_library(input)?;
 
     let (input, (object_id, members)) = alt_mut!(input =>
@@ -497,7 +494,7 @@ impl<'i> BinaryParser<'i> {
     let value = Value::String(string.as_str());
 
     self.register_object_id(input, RefId(object_id))?;
-    self.objects.insert(object_id, value.clone());
+    self.objects.insert(object_id, ValueOrRef::Value(value.clone()));
     Ok((input, (RefId(object_id), value)))
   }
 
@@ -506,13 +503,13 @@ impl<'i> BinaryParser<'i> {
     let (input, (object_id, object)) = alt_mut!(input =>
       map(
         |input| self.parse_classes(input),
-        |(object_id, object)| (object_id, Value::Object(object)),
+        |(object_id, object)| (object_id, ValueOrRef::Object(object)),
       ),
       map(
         |input| self.parse_arrays(input),
-        |(object_id, array)| (object_id, Value::Array(array)),
+        |(object_id, array)| (object_id, ValueOrRef::Array(array)),
       ),
-      |input| self.parse_string(input),
+      map(|input| self.parse_string(input), |(object_id, string)| (object_id, ValueOrRef::Value(string))),
     )?;
 
     self.objects.insert(object_id.0, object);
@@ -542,7 +539,7 @@ impl<'i> BinaryParser<'i> {
     &mut self,
     input: &'i [u8],
     root_id: Option<NonZeroU32>,
-  ) -> IResult<&'i [u8], Vec<Value<'i>>, Error<'i>> {
+  ) -> IResult<&'i [u8], Vec<ValueOrRef<'i>>, Error<'i>> {
     let (input, ()) = self.parse_binary_library(input)?;
 
     let (input, (call_array_id, call_array)) = self.parse_array_single_object(input)?;
@@ -561,13 +558,38 @@ impl<'i> BinaryParser<'i> {
     &mut self,
     input: &'i [u8],
     root_id: Option<NonZeroU32>,
-  ) -> IResult<&'i [u8], MethodCall<'i>, Error<'i>> {
+  ) -> IResult<&'i [u8], MethodCallOrReturn<'i>, Error<'i>> {
     let (input, ()) = self.parse_binary_library(input)?;
 
     let (input, binary_method_call) = BinaryMethodCall::parse(input)?;
 
     let (input, call_array) = opt(|input| self.parse_call_array(input, root_id)).parse(input)?;
 
+    Ok((input, MethodCallOrReturn::MethodCall(binary_method_call, call_array)))
+  }
+
+  fn resolve_call_array(
+    &mut self,
+    input: &'i [u8],
+    call_array: Option<Vec<ValueOrRef<'i>>>,
+  ) -> Result<Option<Vec<Value<'i>>>, nom::Err<Error<'i>>> {
+    call_array
+      .map(|call_array| {
+        self
+          .resolve_members(call_array)
+          .ok_or_else(|| nom::Err::Failure(error_position!(input, UnresolvableMemberReference)))
+      })
+      .transpose()
+  }
+
+  fn resolve_method_call(
+    &mut self,
+    input: &'i [u8],
+    binary_method_call: BinaryMethodCall<'i>,
+    call_array: Option<Vec<ValueOrRef<'i>>>,
+  ) -> Result<MethodCall<'i>, nom::Err<Error<'i>>> {
+    let call_array = self.resolve_call_array(input, call_array)?;
+
     let parse_args = |message_enum: MessageFlags| {
       if message_enum.intersects(MessageFlags::ARGS_IS_ARRAY) {
         if let Some(call_array) = call_array {
@@ -597,7 +619,7 @@ impl<'i> BinaryParser<'i> {
       args,
     };
 
-    Ok((input, method_call))
+    Ok(method_call)
   }
 
   /// 2.7 Binary Record Grammar - `methodReturn`
@@ -605,12 +627,23 @@ impl<'i> BinaryParser<'i> {
     &mut self,
     input: &'i [u8],
     root_id: Option<NonZeroU32>,
-  ) -> IResult<&'i [u8], MethodReturn<'i>, Error<'i>> {
+  ) -> IResult<&'i [u8], MethodCallOrReturn<'i>, Error<'i>> {
     let (input, ()) = self.parse_binary_library(input)?;
 
     let (input, binary_method_return) = BinaryMethodReturn::parse(input)?;
 
-    let (input, mut call_array) = opt(|input| self.parse_call_array(input, root_id)).parse(input)?;
+    let (input, call_array) = opt(|input| self.parse_call_array(input, root_id)).parse(input)?;
+
+    Ok((input, MethodCallOrReturn::MethodReturn(binary_method_return, call_array)))
+  }
+
+  fn resolve_method_return(
+    &mut self,
+    input: &'i [u8],
+    binary_method_return: BinaryMethodReturn<'i>,
+    call_array: Option<Vec<ValueOrRef<'i>>>,
+  ) -> Result<MethodReturn<'i>, nom::Err<Error<'i>>> {
+    let mut call_array = self.resolve_call_array(input, call_array)?;
 
     // The item of the call array which follows the arguments, if they are also an item of the call array.
     let return_value = if binary_method_return.message_enum.intersects(MessageFlags::RETURN_VALUE_IN_ARRAY)
@@ -648,13 +681,10 @@ impl<'i> BinaryParser<'i> {
 
     let args = parse_args(binary_method_return.message_enum)?;
 
-    let method_return = MethodReturn {
-      return_value,
-      call_context: binary_method_return.call_context.map(|c| c.as_str()),
-      args,
-    };
+    let method_return =
+      MethodReturn { return_value, call_context: binary_method_return.call_context.map(|c| c.as_str()), args };
 
-    Ok((input, method_return))
+    Ok(method_return)
   }
 
   /// 2.7 Binary Record Grammar - `(methodCall/methodReturn)`
@@ -664,8 +694,8 @@ impl<'i> BinaryParser<'i> {
     root_id: Option<NonZeroU32>,
   ) -> IResult<&'i [u8], MethodCallOrReturn<'i>, Error<'i>> {
     alt_mut!(input =>
-      map(|input| self.parse_method_call(input, root_id), MethodCallOrReturn::MethodCall),
-      map(|input| self.parse_method_return(input, root_id), MethodCallOrReturn::MethodReturn),
+      |input| self.parse_method_call(input, root_id),
+      |input| self.parse_method_return(input, root_id),
     )
   }
 
@@ -703,13 +733,25 @@ impl<'i> BinaryParser<'i> {
       return Err(nom::Err::Error(error_position!(input, TrailingData)))
     }
 
+    if !self.references.is_subset(&self.object_ids) {
+      return Err(nom::Err::Error(error_position!(input, UnresolvableMemberReference)))
+    }
+
     let remoting_message = match method_call_or_return {
-      Some(MethodCallOrReturn::MethodCall(method_call)) => RemotingMessage::MethodCall(method_call),
-      Some(MethodCallOrReturn::MethodReturn(method_return)) => RemotingMessage::MethodReturn(method_return),
+      Some(MethodCallOrReturn::MethodCall(method_call, call_array)) => {
+        RemotingMessage::MethodCall(self.resolve_method_call(input, method_call, call_array)?)
+      },
+      Some(MethodCallOrReturn::MethodReturn(method_return, call_array)) => {
+        RemotingMessage::MethodReturn(self.resolve_method_return(input, method_return, call_array)?)
+      },
       None => {
         if let Some(root_id) = header.root_id {
           if let Some(root_object) = self.objects.remove(&root_id) {
-            RemotingMessage::Value(root_object)
+            if let Some(root_object) = self.resolve(root_object) {
+              RemotingMessage::Value(root_object)
+            } else {
+              return Err(nom::Err::Error(error_position!(input, UnresolvableMemberReference)))
+            }
           } else {
             return Err(nom::Err::Error(error_position!(input, MissingRootObject)))
           }
-- 
2.43.0


From db6d9feeabcebaaf3985f4884cc5cae39b35396e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 20/23] fix: reject metadata IDs of objects which do not define
 their class

---
 src/binary_parser/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index a99ed9f..b43b1fe 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -255,10 +255,10 @@ impl<'i> BinaryParser<'i> {
 
     let err_input = input;
 
-    let (input, (object_id, class)) = match ClassWithId::parse(input) {
+    let (input, (object_id, class, reused)) = match ClassWithId::parse(input) {
       Ok((input, class_with_id)) => {
         if let Some(class) = self.classes.get(&class_with_id.metadata_id()) {
-          (input, (class_with_id.object_id(), Rc::clone(class)))
+          (input, (class_with_id.object_id(), Rc::clone(class), true))
         } else {
           return Err(nom::Err::Failure(error_position!(err_input, MissingMetadataId)))
         }
@@ -271,14 +271,16 @@ impl<'i> BinaryParser<'i> {
           (class.object_id(), Class::SystemClassWithMembersAndTypes(class))
         }),
       ))
-      .map(|(object_id, class)| (object_id, Rc::new(class)))
+      .map(|(object_id, class)| (object_id, Rc::new(class), false))
       .parse(input)?,
       Err(err) => return Err(err),
     };
 
     self.register_object_id(input, RefId(object_id))?;
 
-    self.classes.insert(object_id, Rc::clone(&class));
+    if !reused {
+      self.classes.insert(object_id, Rc::clone(&class));
+    }
 
     let (input, (class_info, library, member_references)) = match *class {
       Class::ClassWithMembers(ref class) => {
-- 
2.43.0


From 47f629212204066aa1c3da07adf6d047355ac611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH 21/23] fix: reject undefined library IDs of empty arrays

---
 src/binary_parser/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index b43b1fe..624a537 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -456,6 +456,13 @@ impl<'i> BinaryParser<'i> {
       }
     }
 
+    // Without members, the library of the declared class was not needed yet.
+    if let Some(AdditionalTypeInfo::Class(class_type_info)) = &binary_array.additional_type_info {
+      if !self.binary_libraries.contains_key(&class_type_info.library_id()) {
+        return Err(nom::Err::Failure(error_position!(err_input, MissingLibraryId)))
+      }
+    }
+
     let object_id = binary_array.object_id();
 
     let mut members = members;
-- 
2.43.0


From beb4380637f449006cb48c4027f3c8940196e6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:01 +0000
Subject: [PATCH 22/23] fix: reject Null and String as type of raw primitive
 data without elements

---
 src/common/additional_type_info.rs   | 4 ++--
 src/enumeration.rs                   | 8 ++++++++
 src/record/array_single_primitive.rs | 2 +-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/common/additional_type_info.rs b/src/common/additional_type_info.rs
index a5efd89..5db21e3 100644
--- a/src/common/additional_type_info.rs
+++ b/src/common/additional_type_info.rs
@@ -18,7 +18,7 @@ impl<'i> AdditionalTypeInfo<'i> {
     let additional_info = match binary_type_enum {
       BinaryType::Primitive => {
         let primitive_type;
-        (input, primitive_type) = PrimitiveType::parse(input)?;
+        (input, primitive_type) = PrimitiveType::parse_untyped(input)?;
         Some(Self::Primitive(primitive_type))
       },
       BinaryType::String => None,
@@ -37,7 +37,7 @@ impl<'i> AdditionalTypeInfo<'i> {
       BinaryType::StringArray => None,
       BinaryType::PrimitiveArray => {
         let primitive_type;
-        (input, primitive_type) = PrimitiveType::parse(input)?;
+        (input, primitive_type) = PrimitiveType::parse_untyped(input)?;
         Some(Self::Primitive(primitive_type))
       },
     };
diff --git a/src/enumeration.rs b/src/enumeration.rs
index cf2dcd9..5ac7baf 100644
--- a/src/enumeration.rs
+++ b/src/enumeration.rs
@@ -102,6 +102,14 @@ impl PrimitiveType {
     })
   }
 
+  /// Parses the type of raw primitive data, which is neither `Null` nor `String`.
+  pub fn parse_untyped(input: &[u8]) -> IResult<&[u8], Self, Error<'_>> {
+    match Self::parse(input)? {
+      (_, Self::Null | Self::String) => Err(nom::Err::Failure(error_position!(input, ExpectedPrimitiveType))),
+      res => Ok(res),
+    }
+  }
+
   pub(crate) fn description(&self) -> &'static str {
     match self {
       Self::Boolean => "a BOOLEAN",
diff --git a/src/record/array_single_primitive.rs b/src/record/array_single_primitive.rs
index 16b02d0..4eaa6ef 100644
--- a/src/record/array_single_primitive.rs
+++ b/src/record/array_single_primitive.rs
@@ -16,7 +16,7 @@ impl ArraySinglePrimitive {
     let (input, _) = RecordType::ArraySinglePrimitive.parse(input)?;
 
     let (input, array_info) = ArrayInfo::parse(input)?;
-    let (input, primitive_type) = PrimitiveType::parse(input)?;
+    let (input, primitive_type) = PrimitiveType::parse_untyped(input)?;
 
     Ok((input, Self { array_info, primitive_type }))
   }
-- 
2.43.0


From 105b302f566f01cb136ae103f88ad66f0fc5540b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:22 +0000
Subject: [PATCH 23/23] fix: do not allocate for the members of nested objects
 in advance

Objects that re-use a class with n members can be nested in each other,
each of them as the first member of the one before. Room for up to 64 KiB
was made for each of them, although it takes only nine bytes.
---
 src/binary_parser/mod.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 624a537..d8b652c 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -189,6 +189,23 @@ impl<'i> BinaryParser<'i> {
     Ok((input, object))
   }
 
+  fn parse_members(
+    &mut self,
+    mut input: &'i [u8],
+    member_count: usize,
+  ) -> IResult<&'i [u8], Vec<ValueOrRef<'i>>, Error<'i>> {
+    // Unlike `count`, this does not allocate in advance, since members may be nested deeply.
+    let mut member_references = vec![];
+
+    for _ in 0..member_count {
+      let member;
+      (input, member) = self.parse_member_reference(input, None)?;
+      member_references.push(member);
+    }
+
+    Ok((input, member_references))
+  }
+
   fn parse_members_with_type_info(
     &mut self,
     mut input: &'i [u8],
@@ -291,8 +308,7 @@ impl<'i> BinaryParser<'i> {
         };
 
         let member_count = class.class_info().member_names.len();
-        let (input, member_references) =
-          count(|input| self.parse_member_reference(input, None), member_count).parse(input)?;
+        let (input, member_references) = self.parse_members(input, member_count)?;
 
         (input, (class.class_info(), Some(library), member_references))
       },
@@ -309,8 +325,7 @@ impl<'i> BinaryParser<'i> {
       },
       Class::SystemClassWithMembers(ref class) => {
         let member_count = class.class_info().member_names.len();
-        let (input, member_references) =
-          count(|input| self.parse_member_reference(input, None), member_count).parse(input)?;
+        let (input, member_references) = self.parse_members(input, member_count)?;
 
         (input, (class.class_info(), None, member_references))
       },
-- 
2.43.0

