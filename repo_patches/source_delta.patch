From 798326159081ff17ae2896510be6d513607bda26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:01 +0000
Subject: [PATCH 01/19] fix: read key offsets by bytes instead of through a
 misaligned u32 slice

The object builder viewed the key-offset table as a &[u32] although the
table is not 4-byte aligned, which is undefined behaviour and aborts every
build of an unsorted object when debug assertions are on.
---
 src/builder/object.rs | 49 ++++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/src/builder/object.rs b/src/builder/object.rs
index d282995..dc9a169 100644
--- a/src/builder/object.rs
+++ b/src/builder/object.rs
@@ -11,6 +11,7 @@ use crate::vec::VecExt;
 use crate::yason::{Yason, YasonBuf};
 use crate::{BuildError, DataType, Number};
 use decimal_rs::MAX_BINARY_SIZE;
+use std::cmp::Ordering;
 use std::ptr;
 
 pub(crate) struct InnerObjectBuilder<'a, B: AsMut<Vec<u8>>> {
@@ -71,16 +72,14 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
             return true;
         }
 
-        let begin = self.start_pos + ELEMENT_COUNT_SIZE;
-        let end = begin + self.element_count as usize * KEY_OFFSET_SIZE;
-
         let bytes = self.bytes.as_mut();
-        let key_offsets_bytes = bytes[begin..end].as_mut_ptr() as *mut u32;
-        let key_offsets = unsafe { std::slice::from_raw_parts(key_offsets_bytes, (end - begin) / 4) };
+        let count = self.element_count as usize;
 
-        for i in 0..key_offsets.len() - 1 {
-            let cur_key = Self::read_key_by_offset(bytes, key_offsets[i] as usize, self.start_pos);
-            let next_key = Self::read_key_by_offset(bytes, key_offsets[i + 1] as usize, self.start_pos);
+        for i in 0..count - 1 {
+            let cur_offset = Self::read_key_offset(bytes, self.start_pos, i);
+            let next_offset = Self::read_key_offset(bytes, self.start_pos, i + 1);
+            let cur_key = Self::read_key_by_offset(bytes, cur_offset, self.start_pos);
+            let next_key = Self::read_key_by_offset(bytes, next_offset, self.start_pos);
             if cur_key.len() > next_key.len() || (cur_key.len() == next_key.len() && cur_key > next_key) {
                 return false;
             }
@@ -153,21 +152,27 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
 
     #[inline]
     fn binary_search(target: &str, bytes: &[u8], start_pos: usize, value_count: usize) -> usize {
-        let begin = start_pos + ELEMENT_COUNT_SIZE;
-        let end = begin + value_count * KEY_OFFSET_SIZE;
-
-        let key_offsets_bytes = bytes[begin..end].as_ptr() as *mut u32;
-        let key_offsets = unsafe { std::slice::from_raw_parts(key_offsets_bytes, (end - begin) / KEY_OFFSET_SIZE) };
-
-        let found = key_offsets.binary_search_by(|key_offset| {
-            let key = Self::read_key_by_offset(bytes, *key_offset as usize, start_pos);
-            cmp_key(key, target)
-        });
-
-        match found {
-            Ok(v) => v,
-            Err(v) => v,
+        let mut left = 0;
+        let mut right = value_count;
+
+        while left < right {
+            let mid = left + (right - left) / 2;
+            let key_offset = Self::read_key_offset(bytes, start_pos, mid);
+            match cmp_key(Self::read_key_by_offset(bytes, key_offset, start_pos), target) {
+                Ordering::Less => left = mid + 1,
+                Ordering::Greater => right = mid,
+                Ordering::Equal => return mid,
+            }
         }
+        left
+    }
+
+    #[inline]
+    fn read_key_offset(bytes: &[u8], start_pos: usize, index: usize) -> usize {
+        let offset_pos = start_pos + ELEMENT_COUNT_SIZE + index * KEY_OFFSET_SIZE;
+        let key_offset_bytes = &bytes[offset_pos..offset_pos + KEY_OFFSET_SIZE];
+        // SAFETY: The `key_offset_bytes` must be valid because the slice operation always takes 4 bytes.
+        u32::from_le_bytes(key_offset_bytes.try_into().unwrap()) as usize
     }
 
     #[inline]
-- 
2.43.0


From 4593cc1f579ea975b9095f7732799486576e5d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:01 +0000
Subject: [PATCH 02/19] fix: write the inlined value of a null array element

The four bytes after the type of a null entry were left as whatever the
vector's memory held, so equal arrays could have different bytes.
---
 src/builder/array.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/builder/array.rs b/src/builder/array.rs
index 0865bd8..0608189 100644
--- a/src/builder/array.rs
+++ b/src/builder/array.rs
@@ -157,7 +157,11 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
     #[inline]
     fn push_null(&mut self) -> BuildResult<()> {
         // null can be inlined
-        self.push_value(DataType::Null, |_, _, _| Ok(()))
+        let f = |bytes: &mut Vec<u8>, _offset: u32, value_entry_pos: usize| {
+            bytes.write_offset(0, value_entry_pos + DATA_TYPE_SIZE);
+            Ok(())
+        };
+        self.push_value(DataType::Null, f)
     }
 
     #[inline]
-- 
2.43.0


From 43ad5a995f52a9a1a70a1c9605e66350b335c8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:02 +0000
Subject: [PATCH 03/19] fix: refuse to push more elements than declared

Pushing past the declared element count overwrote already encoded data
(or wrote past the end of the vector in the object builder).
---
 src/builder/array.rs  | 6 ++++++
 src/builder/object.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/builder/array.rs b/src/builder/array.rs
index 0608189..98e2fab 100644
--- a/src/builder/array.rs
+++ b/src/builder/array.rs
@@ -84,6 +84,12 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
         if self.current_depth != self.total_nested_depth.depth() {
             return Err(BuildError::InnerUncompletedError);
         }
+        if self.value_count >= self.element_count {
+            return Err(BuildError::InconsistentElementCount {
+                expected: self.element_count,
+                actual: self.value_count.saturating_add(1),
+            });
+        }
 
         let bytes = self.bytes.as_mut();
         bytes.write_data_type_by_pos(data_type, self.value_entry_pos);
diff --git a/src/builder/object.rs b/src/builder/object.rs
index dc9a169..5f65a07 100644
--- a/src/builder/object.rs
+++ b/src/builder/object.rs
@@ -117,6 +117,12 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
         if self.current_depth != self.total_nested_depth.depth() {
             return Err(BuildError::InnerUncompletedError);
         }
+        if self.value_count >= self.element_count {
+            return Err(BuildError::InconsistentElementCount {
+                expected: self.element_count,
+                actual: self.value_count.saturating_add(1),
+            });
+        }
 
         let bytes = self.bytes.as_mut();
         bytes.try_reserve(reserved_size)?;
-- 
2.43.0


From 76c359db77634fc784839d578398ed3606cf72fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:44 +0000
Subject: [PATCH 04/19] fix: refuse object keys of 64KB and more

The key length was truncated to 16 bits, which made the document unreadable.
---
 src/binary.rs         | 1 +
 src/builder/object.rs | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/binary.rs b/src/binary.rs
index fb5b2b1..d1acaf7 100644
--- a/src/binary.rs
+++ b/src/binary.rs
@@ -12,5 +12,6 @@ pub const KEY_OFFSET_SIZE: usize = size_of::<u32>();
 pub const VALUE_ENTRY_SIZE: usize = DATA_TYPE_SIZE + size_of::<u32>();
 pub const KEY_LENGTH_SIZE: usize = size_of::<u16>();
 pub const MAX_DATA_LENGTH_SIZE: usize = size_of::<u32>();
+pub const MAX_KEY_SIZE: usize = u16::MAX as usize; // key length must be less than 64KB
 pub const MAX_STRING_SIZE: usize = 268435455; // 2^28 - 1
 pub const NUMBER_LENGTH_SIZE: usize = size_of::<u8>();
diff --git a/src/builder/object.rs b/src/builder/object.rs
index 5f65a07..3f6cd57 100644
--- a/src/builder/object.rs
+++ b/src/builder/object.rs
@@ -2,7 +2,7 @@
 
 use crate::binary::{
     BOOL_SIZE, DATA_TYPE_SIZE, ELEMENT_COUNT_SIZE, KEY_LENGTH_SIZE, KEY_OFFSET_SIZE, MAX_DATA_LENGTH_SIZE,
-    NUMBER_LENGTH_SIZE, OBJECT_SIZE,
+    MAX_KEY_SIZE, NUMBER_LENGTH_SIZE, OBJECT_SIZE,
 };
 use crate::builder::array::{ArrayRefBuilder, InnerArrayBuilder};
 use crate::builder::{BuildResult, Depth, DEFAULT_SIZE, MAX_NESTED_DEPTH};
@@ -123,6 +123,9 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
                 actual: self.value_count.saturating_add(1),
             });
         }
+        if key.len() > MAX_KEY_SIZE {
+            return Err(BuildError::StringTooLong(key.len()));
+        }
 
         let bytes = self.bytes.as_mut();
         bytes.try_reserve(reserved_size)?;
-- 
2.43.0


From fec6656464c73da134e49e66b938f2da3f69654c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:45 +0000
Subject: [PATCH 05/19] fix: check the string length before writing anything

A too long string left its key registered in the object without a value
(and a stray type byte in the buffer of a scalar).
---
 src/builder/object.rs | 6 +++++-
 src/builder/scalar.rs | 7 +++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/builder/object.rs b/src/builder/object.rs
index 3f6cd57..289bb63 100644
--- a/src/builder/object.rs
+++ b/src/builder/object.rs
@@ -2,7 +2,7 @@
 
 use crate::binary::{
     BOOL_SIZE, DATA_TYPE_SIZE, ELEMENT_COUNT_SIZE, KEY_LENGTH_SIZE, KEY_OFFSET_SIZE, MAX_DATA_LENGTH_SIZE,
-    MAX_KEY_SIZE, NUMBER_LENGTH_SIZE, OBJECT_SIZE,
+    MAX_KEY_SIZE, MAX_STRING_SIZE, NUMBER_LENGTH_SIZE, OBJECT_SIZE,
 };
 use crate::builder::array::{ArrayRefBuilder, InnerArrayBuilder};
 use crate::builder::{BuildResult, Depth, DEFAULT_SIZE, MAX_NESTED_DEPTH};
@@ -218,6 +218,10 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
 
     #[inline]
     fn push_string(&mut self, key: &str, value: &str) -> BuildResult<()> {
+        if value.len() > MAX_STRING_SIZE {
+            return Err(BuildError::StringTooLong(value.len()));
+        }
+
         let size = KEY_LENGTH_SIZE + key.len() + DATA_TYPE_SIZE + MAX_DATA_LENGTH_SIZE + value.len();
         let f = |bytes: &mut Vec<u8>| {
             bytes.push_data_type(DataType::String);
diff --git a/src/builder/scalar.rs b/src/builder/scalar.rs
index 8ed4b87..4c8a4bb 100644
--- a/src/builder/scalar.rs
+++ b/src/builder/scalar.rs
@@ -1,10 +1,10 @@
 //! Scalar builder.
 
-use crate::binary::{BOOL_SIZE, DATA_TYPE_SIZE, MAX_DATA_LENGTH_SIZE, NUMBER_LENGTH_SIZE};
+use crate::binary::{BOOL_SIZE, DATA_TYPE_SIZE, MAX_DATA_LENGTH_SIZE, MAX_STRING_SIZE, NUMBER_LENGTH_SIZE};
 use crate::builder::BuildResult;
 use crate::vec::VecExt;
 use crate::yason::{Yason, YasonBuf};
-use crate::{DataType, Number};
+use crate::{BuildError, DataType, Number};
 use decimal_rs::MAX_BINARY_SIZE;
 
 /// Builder for encoding a scalar value.
@@ -25,6 +25,9 @@ impl Scalar {
     pub fn string_with_vec<T: AsRef<str>>(s: T, bytes: &mut Vec<u8>) -> BuildResult<&Yason> {
         let init_len = bytes.len();
         let s = s.as_ref();
+        if s.len() > MAX_STRING_SIZE {
+            return Err(BuildError::StringTooLong(s.len()));
+        }
         let size = DATA_TYPE_SIZE + MAX_DATA_LENGTH_SIZE + s.len();
         bytes.try_reserve(size)?;
         bytes.push_data_type(DataType::String);
-- 
2.43.0


From 3a8d4f6f2f0b04aefc1648a24a193e241bc5635f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:00 +0000
Subject: [PATCH 06/19] fix: register an embedded value only when its builder
 can be created

When creating the embedded builder failed (nesting limit, allocation
failure) the parent had already counted the element, so finishing it
produced a document with a missing value.
---
 src/builder/array.rs  | 26 ++++++++++++++++++--------
 src/builder/object.rs | 32 ++++++++++++++++++++++++++------
 2 files changed, 44 insertions(+), 14 deletions(-)

diff --git a/src/builder/array.rs b/src/builder/array.rs
index 98e2fab..d8deae6 100644
--- a/src/builder/array.rs
+++ b/src/builder/array.rs
@@ -1,7 +1,8 @@
 //! Array builder.
 
 use crate::binary::{
-    ARRAY_SIZE, DATA_TYPE_SIZE, ELEMENT_COUNT_SIZE, MAX_DATA_LENGTH_SIZE, NUMBER_LENGTH_SIZE, VALUE_ENTRY_SIZE,
+    ARRAY_SIZE, DATA_TYPE_SIZE, ELEMENT_COUNT_SIZE, KEY_OFFSET_SIZE, MAX_DATA_LENGTH_SIZE, NUMBER_LENGTH_SIZE,
+    OBJECT_SIZE, VALUE_ENTRY_SIZE,
 };
 use crate::builder::object::InnerObjectBuilder;
 use crate::builder::{BuildResult, Depth, DEFAULT_SIZE, MAX_NESTED_DEPTH};
@@ -102,13 +103,25 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
         Ok(())
     }
 
+    /// Pushes the value entry of an embedded object or array. `reserved_size` is the size of the header of the embedded
+    /// value, so that creating its builder cannot fail once the value entry is pushed.
     #[inline]
-    fn push_object(&mut self, element_count: u16, key_sorted: bool) -> BuildResult<InnerObjectBuilder<&mut Vec<u8>>> {
+    fn push_nested_value(&mut self, data_type: DataType, reserved_size: usize) -> BuildResult<()> {
+        if self.current_depth == self.total_nested_depth.depth() && self.current_depth >= MAX_NESTED_DEPTH {
+            return Err(BuildError::NestedTooDeeply);
+        }
         let f = |bytes: &mut Vec<u8>, offset: u32, value_entry_pos: usize| {
+            bytes.try_reserve(reserved_size)?;
             bytes.write_offset(offset, value_entry_pos + DATA_TYPE_SIZE);
             Ok(())
         };
-        self.push_value(DataType::Object, f)?;
+        self.push_value(data_type, f)
+    }
+
+    #[inline]
+    fn push_object(&mut self, element_count: u16, key_sorted: bool) -> BuildResult<InnerObjectBuilder<&mut Vec<u8>>> {
+        let size = DATA_TYPE_SIZE + OBJECT_SIZE + ELEMENT_COUNT_SIZE + KEY_OFFSET_SIZE * element_count as usize;
+        self.push_nested_value(DataType::Object, size)?;
 
         let bytes = self.bytes.as_mut();
         InnerObjectBuilder::try_new(bytes, element_count, key_sorted, self.total_nested_depth.borrow_mut())
@@ -116,11 +129,8 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
 
     #[inline]
     fn push_array(&mut self, element_count: u16) -> BuildResult<InnerArrayBuilder<&mut Vec<u8>>> {
-        let f = |bytes: &mut Vec<u8>, offset: u32, value_entry_pos: usize| {
-            bytes.write_offset(offset, value_entry_pos + DATA_TYPE_SIZE);
-            Ok(())
-        };
-        self.push_value(DataType::Array, f)?;
+        let size = DATA_TYPE_SIZE + ARRAY_SIZE + ELEMENT_COUNT_SIZE + VALUE_ENTRY_SIZE * element_count as usize;
+        self.push_nested_value(DataType::Array, size)?;
 
         let bytes = self.bytes.as_mut();
         InnerArrayBuilder::try_new(bytes, element_count, self.total_nested_depth.borrow_mut())
diff --git a/src/builder/object.rs b/src/builder/object.rs
index 289bb63..2658f4f 100644
--- a/src/builder/object.rs
+++ b/src/builder/object.rs
@@ -1,8 +1,8 @@
 //! Object builder.
 
 use crate::binary::{
-    BOOL_SIZE, DATA_TYPE_SIZE, ELEMENT_COUNT_SIZE, KEY_LENGTH_SIZE, KEY_OFFSET_SIZE, MAX_DATA_LENGTH_SIZE,
-    MAX_KEY_SIZE, MAX_STRING_SIZE, NUMBER_LENGTH_SIZE, OBJECT_SIZE,
+    ARRAY_SIZE, BOOL_SIZE, DATA_TYPE_SIZE, ELEMENT_COUNT_SIZE, KEY_LENGTH_SIZE, KEY_OFFSET_SIZE, MAX_DATA_LENGTH_SIZE,
+    MAX_KEY_SIZE, MAX_STRING_SIZE, NUMBER_LENGTH_SIZE, OBJECT_SIZE, VALUE_ENTRY_SIZE,
 };
 use crate::builder::array::{ArrayRefBuilder, InnerArrayBuilder};
 use crate::builder::{BuildResult, Depth, DEFAULT_SIZE, MAX_NESTED_DEPTH};
@@ -195,6 +195,16 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
         unsafe { std::str::from_utf8_unchecked(key_bytes) }
     }
 
+    /// Pushes the key of an embedded object or array. `reserved_size` includes the header of the embedded value, so
+    /// that creating its builder cannot fail once the key is pushed.
+    #[inline]
+    fn push_nested_key(&mut self, key: &str, reserved_size: usize) -> BuildResult<()> {
+        if self.current_depth == self.total_nested_depth.depth() && self.current_depth >= MAX_NESTED_DEPTH {
+            return Err(BuildError::NestedTooDeeply);
+        }
+        self.push_key_value_by(key, reserved_size, |_| Ok(()))
+    }
+
     #[inline]
     fn push_object(
         &mut self,
@@ -202,16 +212,26 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
         element_count: u16,
         key_sorted: bool,
     ) -> BuildResult<InnerObjectBuilder<&mut Vec<u8>>> {
-        let size = key.len() + KEY_LENGTH_SIZE;
-        self.push_key_value_by(key, size, |_| Ok(()))?;
+        let size = key.len()
+            + KEY_LENGTH_SIZE
+            + DATA_TYPE_SIZE
+            + OBJECT_SIZE
+            + ELEMENT_COUNT_SIZE
+            + KEY_OFFSET_SIZE * element_count as usize;
+        self.push_nested_key(key, size)?;
         let bytes = self.bytes.as_mut();
         InnerObjectBuilder::try_new(bytes, element_count, key_sorted, self.total_nested_depth.borrow_mut())
     }
 
     #[inline]
     fn push_array(&mut self, key: &str, element_count: u16) -> BuildResult<InnerArrayBuilder<&mut Vec<u8>>> {
-        let size = key.len() + KEY_LENGTH_SIZE;
-        self.push_key_value_by(key, size, |_| Ok(()))?;
+        let size = key.len()
+            + KEY_LENGTH_SIZE
+            + DATA_TYPE_SIZE
+            + ARRAY_SIZE
+            + ELEMENT_COUNT_SIZE
+            + VALUE_ENTRY_SIZE * element_count as usize;
+        self.push_nested_key(key, size)?;
         let bytes = self.bytes.as_mut();
         InnerArrayBuilder::try_new(bytes, element_count, self.total_nested_depth.borrow_mut())
     }
-- 
2.43.0


From a1e6ff0a0198f91597a7ae0a3bf56ebeaffec84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:24 +0000
Subject: [PATCH 07/19] fix: report JSON arrays and objects with more than
 65535 elements

The element count was truncated to 16 bits, which made parsing panic or
produce a corrupt document.
---
 src/builder/mod.rs |  8 ++++++++
 src/json.rs        | 18 +++++++++---------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/builder/mod.rs b/src/builder/mod.rs
index 8412077..6a2950a 100644
--- a/src/builder/mod.rs
+++ b/src/builder/mod.rs
@@ -44,6 +44,7 @@ pub enum BuildError {
     JsonError(serde_json::Error),
     NumberError(NumberError),
     NestedTooDeeply,
+    TooManyElements(usize),
 }
 
 impl Display for BuildError {
@@ -61,6 +62,7 @@ impl Display for BuildError {
             BuildError::JsonError(e) => write!(f, "{}", e),
             BuildError::NumberError(e) => write!(f, "{}", e),
             BuildError::NestedTooDeeply => write!(f, "nested too many depth"),
+            BuildError::TooManyElements(e) => write!(f, "too many elements, element count is {}", e),
         }
     }
 }
@@ -76,6 +78,12 @@ impl From<TryReserveError> for BuildError {
 
 pub type BuildResult<T> = std::result::Result<T, BuildError>;
 
+/// Converts the number of elements of an object or array to `element-count`.
+#[inline]
+pub(crate) fn to_element_count(count: usize) -> BuildResult<u16> {
+    u16::try_from(count).map_err(|_| BuildError::TooManyElements(count))
+}
+
 pub(crate) enum Depth<'a> {
     Owned(usize),
     Borrowed(&'a mut usize),
diff --git a/src/json.rs b/src/json.rs
index ce41127..07f4250 100644
--- a/src/json.rs
+++ b/src/json.rs
@@ -1,6 +1,6 @@
 //! Json to Yason
 
-use crate::builder::{ArrBuilder, BuildResult, NumberError, ObjBuilder};
+use crate::builder::{to_element_count, ArrBuilder, BuildResult, NumberError, ObjBuilder};
 use crate::{
     ArrayBuilder, ArrayRefBuilder, BuildError, Number, ObjectBuilder, ObjectRefBuilder, Scalar, Yason, YasonBuf,
 };
@@ -21,12 +21,12 @@ impl TryFrom<&serde_json::Value> for YasonBuf {
             Value::Number(val) => Scalar::number(number2decimal(val, &mut buf)?),
             Value::String(val) => Scalar::string(val),
             Value::Array(val) => {
-                let mut array_builder = ArrayBuilder::try_new(val.len() as u16)?;
+                let mut array_builder = ArrayBuilder::try_new(to_element_count(val.len())?)?;
                 write_array(&mut array_builder, val, &mut buf)?;
                 array_builder.finish()
             }
             Value::Object(val) => {
-                let mut object_builder = ObjectBuilder::try_new(val.len() as u16, false)?;
+                let mut object_builder = ObjectBuilder::try_new(to_element_count(val.len())?, false)?;
                 write_object(&mut object_builder, val, &mut buf)?;
                 object_builder.finish()
             }
@@ -56,12 +56,12 @@ impl Yason {
             Value::Number(val) => Scalar::number_with_vec(number2decimal(val, &mut buf)?, bytes),
             Value::String(val) => Scalar::string_with_vec(val, bytes),
             Value::Array(array) => {
-                let mut builder = ArrayRefBuilder::try_new(bytes, array.len() as u16)?;
+                let mut builder = ArrayRefBuilder::try_new(bytes, to_element_count(array.len())?)?;
                 write_array(&mut builder, array, &mut buf)?;
                 builder.finish()
             }
             Value::Object(object) => {
-                let mut builder = ObjectRefBuilder::try_new(bytes, object.len() as u16, false)?;
+                let mut builder = ObjectRefBuilder::try_new(bytes, to_element_count(object.len())?, false)?;
                 write_object(&mut builder, object, &mut buf)?;
                 builder.finish()
             }
@@ -86,12 +86,12 @@ fn write_array<T: ArrBuilder>(builder: &mut T, array: &[serde_json::Value], buf:
                 builder.push_string(val)?;
             }
             Value::Array(val) => {
-                let mut array_builder = builder.push_array(val.len() as u16)?;
+                let mut array_builder = builder.push_array(to_element_count(val.len())?)?;
                 write_array(&mut array_builder, val, buf)?;
                 array_builder.finish()?;
             }
             Value::Object(val) => {
-                let mut object_builder = builder.push_object(val.len() as u16, false)?;
+                let mut object_builder = builder.push_object(to_element_count(val.len())?, false)?;
                 write_object(&mut object_builder, val, buf)?;
                 object_builder.finish()?;
             }
@@ -121,12 +121,12 @@ fn write_object<T: ObjBuilder>(
                 builder.push_string(key, val)?;
             }
             Value::Array(val) => {
-                let mut array_builder = builder.push_array(key, val.len() as u16)?;
+                let mut array_builder = builder.push_array(key, to_element_count(val.len())?)?;
                 write_array(&mut array_builder, val, buf)?;
                 array_builder.finish()?;
             }
             Value::Object(val) => {
-                let mut object_builder = builder.push_object(key, val.len() as u16, false)?;
+                let mut object_builder = builder.push_object(key, to_element_count(val.len())?, false)?;
                 write_object(&mut object_builder, val, buf)?;
                 object_builder.finish()?;
             }
-- 
2.43.0


From db360d7358a882aac43a738b9818204461cf5ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:25 +0000
Subject: [PATCH 08/19] fix: report query results that do not fit in an array

More than 65535 selected values were written to the result buffer as an
array with a truncated element count, and build errors other than a failed
allocation reached an unreachable!().
---
 src/path/mod.rs  | 3 ++-
 src/yason/mod.rs | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/path/mod.rs b/src/path/mod.rs
index 263e2e6..709cf44 100644
--- a/src/path/mod.rs
+++ b/src/path/mod.rs
@@ -4,6 +4,7 @@ use crate::path::parse::{FuncStep, PathParser, Step};
 use std::fmt;
 use std::str::FromStr;
 
+use crate::builder::to_element_count;
 use crate::yason::YasonResult;
 use crate::{ArrayRefBuilder, DataType, Number, Value, Yason, YasonError};
 
@@ -196,7 +197,7 @@ fn push_value<'a>(buf: &mut Vec<Value<'a>>, value: Value<'a>) -> YasonResult<()>
 
 #[inline]
 fn values_to_yason<'a>(values: &[Value], bytes: &'a mut Vec<u8>) -> YasonResult<&'a Yason> {
-    let mut builder = ArrayRefBuilder::try_new(bytes, values.len() as u16)?;
+    let mut builder = ArrayRefBuilder::try_new(bytes, to_element_count(values.len())?)?;
     for value in values {
         match value {
             Value::Object(object) => unsafe { builder.push_object_or_array(object.yason(), DataType::Object)? },
diff --git a/src/yason/mod.rs b/src/yason/mod.rs
index f2abfd1..8b8ee21 100644
--- a/src/yason/mod.rs
+++ b/src/yason/mod.rs
@@ -27,6 +27,7 @@ pub enum YasonError {
     MultiValuesWithoutWrapper,
     TryReserveError(TryReserveError),
     InvalidPathExpression,
+    BuildError(BuildError),
 }
 
 impl fmt::Display for YasonError {
@@ -45,6 +46,7 @@ impl fmt::Display for YasonError {
             }
             YasonError::TryReserveError(e) => write!(f, "{}", e),
             YasonError::InvalidPathExpression => write!(f, "invalid path expression"),
+            YasonError::BuildError(e) => write!(f, "{}", e),
         }
     }
 }
@@ -54,7 +56,7 @@ impl From<BuildError> for YasonError {
     fn from(err: BuildError) -> Self {
         match err {
             BuildError::TryReserveError(e) => YasonError::TryReserveError(e),
-            _ => unreachable!(),
+            e => YasonError::BuildError(e),
         }
     }
 }
-- 
2.43.0


From 4f4561458b9b32d969eb351ca24802d9c3f20630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:27 +0000
Subject: [PATCH 09/19] fix: refuse objects and arrays larger than the size
 field can hold

The total size was truncated to a signed 32-bit integer, which made
embedded values of 2GB and more unreadable.
---
 src/builder/array.rs  | 6 +++---
 src/builder/mod.rs    | 8 ++++++++
 src/builder/object.rs | 6 +++---
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/builder/array.rs b/src/builder/array.rs
index d8deae6..3729f01 100644
--- a/src/builder/array.rs
+++ b/src/builder/array.rs
@@ -5,7 +5,7 @@ use crate::binary::{
     OBJECT_SIZE, VALUE_ENTRY_SIZE,
 };
 use crate::builder::object::InnerObjectBuilder;
-use crate::builder::{BuildResult, Depth, DEFAULT_SIZE, MAX_NESTED_DEPTH};
+use crate::builder::{to_total_size, BuildResult, Depth, DEFAULT_SIZE, MAX_NESTED_DEPTH};
 use crate::vec::VecExt;
 use crate::yason::{Yason, YasonBuf};
 use crate::{BuildError, DataType, Number, ObjectRefBuilder};
@@ -69,8 +69,8 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
         }
 
         let bytes = self.bytes.as_mut();
-        let total_size = bytes.len() - self.start_pos;
-        bytes.write_total_size(total_size as i32, self.start_pos - ARRAY_SIZE);
+        let total_size = to_total_size(bytes.len() - self.start_pos)?;
+        bytes.write_total_size(total_size, self.start_pos - ARRAY_SIZE);
 
         self.total_nested_depth.decrease();
 
diff --git a/src/builder/mod.rs b/src/builder/mod.rs
index 6a2950a..cc3ca04 100644
--- a/src/builder/mod.rs
+++ b/src/builder/mod.rs
@@ -45,6 +45,7 @@ pub enum BuildError {
     NumberError(NumberError),
     NestedTooDeeply,
     TooManyElements(usize),
+    SizeTooLarge(usize),
 }
 
 impl Display for BuildError {
@@ -63,6 +64,7 @@ impl Display for BuildError {
             BuildError::NumberError(e) => write!(f, "{}", e),
             BuildError::NestedTooDeeply => write!(f, "nested too many depth"),
             BuildError::TooManyElements(e) => write!(f, "too many elements, element count is {}", e),
+            BuildError::SizeTooLarge(e) => write!(f, "object or array too large, size is {}", e),
         }
     }
 }
@@ -78,6 +80,12 @@ impl From<TryReserveError> for BuildError {
 
 pub type BuildResult<T> = std::result::Result<T, BuildError>;
 
+/// Converts the total size of an object or array to `size`.
+#[inline]
+pub(crate) fn to_total_size(size: usize) -> BuildResult<i32> {
+    i32::try_from(size).map_err(|_| BuildError::SizeTooLarge(size))
+}
+
 /// Converts the number of elements of an object or array to `element-count`.
 #[inline]
 pub(crate) fn to_element_count(count: usize) -> BuildResult<u16> {
diff --git a/src/builder/object.rs b/src/builder/object.rs
index 2658f4f..d184f7e 100644
--- a/src/builder/object.rs
+++ b/src/builder/object.rs
@@ -5,7 +5,7 @@ use crate::binary::{
     MAX_KEY_SIZE, MAX_STRING_SIZE, NUMBER_LENGTH_SIZE, OBJECT_SIZE, VALUE_ENTRY_SIZE,
 };
 use crate::builder::array::{ArrayRefBuilder, InnerArrayBuilder};
-use crate::builder::{BuildResult, Depth, DEFAULT_SIZE, MAX_NESTED_DEPTH};
+use crate::builder::{to_total_size, BuildResult, Depth, DEFAULT_SIZE, MAX_NESTED_DEPTH};
 use crate::util::cmp_key;
 use crate::vec::VecExt;
 use crate::yason::{Yason, YasonBuf};
@@ -100,8 +100,8 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
         }
 
         let bytes = self.bytes.as_mut();
-        let total_size = bytes.len() - self.start_pos;
-        bytes.write_total_size(total_size as i32, self.start_pos - OBJECT_SIZE);
+        let total_size = to_total_size(bytes.len() - self.start_pos)?;
+        bytes.write_total_size(total_size, self.start_pos - OBJECT_SIZE);
 
         self.total_nested_depth.decrease();
 
-- 
2.43.0


From 97f09faf2df9d3995731e175eb599c77645be1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:44 +0000
Subject: [PATCH 10/19] fix: escape all control characters when formatting

JSON forbids unescaped control characters in strings; those without a short
escape were written as they are, so the output could not be parsed.
---
 src/format/mod.rs | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/format/mod.rs b/src/format/mod.rs
index 3ee24fa..d29da89 100644
--- a/src/format/mod.rs
+++ b/src/format/mod.rs
@@ -324,14 +324,41 @@ const RR: &[u8] = b"\\r"; // \x0D
 const QU: &[u8] = b"\\\""; // \x22
 const BS: &[u8] = b"\\\\"; // \x5C
 const SS: &[u8] = b"\\/"; // \x2F
+const U0: &[u8] = b"\\u0000"; // \x00
+const U1: &[u8] = b"\\u0001"; // \x01
+const U2: &[u8] = b"\\u0002"; // \x02
+const U3: &[u8] = b"\\u0003"; // \x03
+const U4: &[u8] = b"\\u0004"; // \x04
+const U5: &[u8] = b"\\u0005"; // \x05
+const U6: &[u8] = b"\\u0006"; // \x06
+const U7: &[u8] = b"\\u0007"; // \x07
+const UB: &[u8] = b"\\u000b"; // \x0B
+const UE: &[u8] = b"\\u000e"; // \x0E
+const UF: &[u8] = b"\\u000f"; // \x0F
+const V0: &[u8] = b"\\u0010"; // \x10
+const V1: &[u8] = b"\\u0011"; // \x11
+const V2: &[u8] = b"\\u0012"; // \x12
+const V3: &[u8] = b"\\u0013"; // \x13
+const V4: &[u8] = b"\\u0014"; // \x14
+const V5: &[u8] = b"\\u0015"; // \x15
+const V6: &[u8] = b"\\u0016"; // \x16
+const V7: &[u8] = b"\\u0017"; // \x17
+const V8: &[u8] = b"\\u0018"; // \x18
+const V9: &[u8] = b"\\u0019"; // \x19
+const VA: &[u8] = b"\\u001a"; // \x1A
+const VB: &[u8] = b"\\u001b"; // \x1B
+const VC: &[u8] = b"\\u001c"; // \x1C
+const VD: &[u8] = b"\\u001d"; // \x1D
+const VE: &[u8] = b"\\u001e"; // \x1E
+const VF: &[u8] = b"\\u001f"; // \x1F
 const __: &[u8] = b"";
 
 // Lookup table of escape sequences. A value of b"x" at index i means that byte
 // i is escaped as "x" in Yason. A value of b"" means that byte i is not escaped.
 static ESCAPE: [&[u8]; 256] = [
     //   1   2   3   4   5   6   7   8   9   A   B   C   D   E   F
-    __, __, __, __, __, __, __, __, BB, TT, NN, __, FF, RR, __, __, // 0
-    __, __, __, __, __, __, __, __, __, __, __, __, __, __, __, __, // 1
+    U0, U1, U2, U3, U4, U5, U6, U7, BB, TT, NN, UB, FF, RR, UE, UF, // 0
+    V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, VA, VB, VC, VD, VE, VF, // 1
     __, __, QU, __, __, __, __, __, __, __, __, __, __, __, __, SS, // 2
     __, __, __, __, __, __, __, __, __, __, __, __, __, __, __, __, // 3
     __, __, __, __, __, __, __, __, __, __, __, __, __, __, __, __, // 4
-- 
2.43.0


From 65c2f5fc65680a899c0c64c7a304d2fcdbd3f10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:44 +0000
Subject: [PATCH 11/19] fix: indent more than 100 levels when formatting pretty

Wrapping the query results of a document of the maximum depth needs 101
levels, which was out of range of the buffer of spaces.
---
 src/format/pretty.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/format/pretty.rs b/src/format/pretty.rs
index 358867c..318ab8e 100644
--- a/src/format/pretty.rs
+++ b/src/format/pretty.rs
@@ -145,6 +145,11 @@ impl Formatter for PrettyFormatter<'_> {
 #[inline]
 fn indent<W: fmt::Write>(level: usize, indent: usize, writer: &mut W) -> FormatResult<()> {
     const SPACE_BUF: [u8; 200] = [b' '; 200];
-    writer.write_bytes(&SPACE_BUF[..level * indent])?;
+    let mut remain = level * indent;
+    while remain > 0 {
+        let len = remain.min(SPACE_BUF.len());
+        writer.write_bytes(&SPACE_BUF[..len])?;
+        remain -= len;
+    }
     Ok(())
 }
-- 
2.43.0


From 53290a9828d53ae418981163a36f99c5a426bbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:55 +0000
Subject: [PATCH 12/19] fix: select the first element counted from last

[last - n] did not match the first element of an array (so [last] never
matched in an array of one element) and underflowed on an empty array.
---
 src/path/query.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/path/query.rs b/src/path/query.rs
index 1270cd4..0039d34 100644
--- a/src/path/query.rs
+++ b/src/path/query.rs
@@ -163,7 +163,7 @@ impl<'a, 'b> Selector<'a, 'b> {
             DataType::Array => {
                 let array = unsafe { value.array()? };
                 let len = array.len()?;
-                if len - 1 > minus {
+                if minus < len {
                     let val = unsafe { array.lazy_get_unchecked(len - 1 - minus)? };
                     return self.query_internal(val, step_index + 1);
                 }
@@ -236,7 +236,7 @@ impl<'a, 'b> Selector<'a, 'b> {
                                 }
                             }
                             SingleIndex::Last(minus) => {
-                                if len - 1 > *minus {
+                                if *minus < len {
                                     let val = unsafe { array.lazy_get_unchecked(len - 1 - minus)? };
                                     let found = self.query_internal(val, step_index + 1)?;
                                     if self.for_exists && found {
-- 
2.43.0


From 3f6f0b872a18fc32715be32b329f7385ec99d653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:17 +0000
Subject: [PATCH 13/19] fix: match array ranges that select nothing
 consistently

A range on an empty array underflowed, a range that does not include 0
matched a value that is not an array, and lists of subscripts decided this
differently from a single range.
---
 src/path/query.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/path/query.rs b/src/path/query.rs
index 0039d34..125d301 100644
--- a/src/path/query.rs
+++ b/src/path/query.rs
@@ -379,14 +379,9 @@ fn non_array_relaxed_match(steps: &[SingleStep]) -> bool {
                 }
             },
 
-            SingleStep::Range(left_field, right_field) => {
-                let (left, right) = match (left_field, right_field) {
-                    (SingleIndex::Index(i1), SingleIndex::Index(i2))
-                    | (SingleIndex::Index(i1), SingleIndex::Last(i2))
-                    | (SingleIndex::Last(i1), SingleIndex::Index(i2))
-                    | (SingleIndex::Last(i1), SingleIndex::Last(i2)) => (i1, i2),
-                };
-                if *left == 0 || *right == 0 {
+            SingleStep::Range(begin, end) => {
+                // a value that is not an array is treated as an array of one element
+                if find_range(begin, end, 1).is_some() {
                     return true;
                 }
             }
@@ -401,9 +396,16 @@ fn find_range(begin: &SingleIndex, end: &SingleIndex, len: usize) -> Option<(usi
     fn inner(u1: usize, u2: usize, len: usize) -> Option<(usize, usize)> {
         let b = u1.min(u2);
         let e = u1.max(u2).min(len - 1);
-        Some((b, e))
+        if b <= e {
+            Some((b, e))
+        } else {
+            None
+        }
     }
 
+    if len == 0 {
+        return None;
+    }
     let last = len - 1;
     match (begin, end) {
         (SingleIndex::Index(i1), SingleIndex::Index(i2)) => inner(*i1, *i2, len),
-- 
2.43.0


From e2338fbf3cfcc91f14f9a87f6dc0957a23b7f6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:18 +0000
Subject: [PATCH 14/19] fix: compare yason by value instead of by encoded
 length

Equal numbers can be encoded in different lengths (100 and 1e2), so
documents with equal values compared unequal.
---
 src/yason/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yason/mod.rs b/src/yason/mod.rs
index 8b8ee21..79efd56 100644
--- a/src/yason/mod.rs
+++ b/src/yason/mod.rs
@@ -254,7 +254,7 @@ impl Yason {
     #[inline]
     pub fn equals<T: AsRef<Yason>>(&self, other: T) -> YasonResult<bool> {
         let other = other.as_ref();
-        if self.bytes.len() != other.bytes.len() || self.data_type()? != other.data_type()? {
+        if self.data_type()? != other.data_type()? {
             return Ok(false);
         }
 
@@ -545,7 +545,7 @@ impl<'a, const IN_ARRAY: bool> LazyValue<'a, IN_ARRAY> {
 
     #[inline]
     pub fn equals(&self, other: LazyValue<IN_ARRAY>) -> YasonResult<bool> {
-        if self.data_type() != other.data_type() || self.yason.bytes.len() != other.yason.bytes.len() {
+        if self.data_type() != other.data_type() {
             return Ok(false);
         }
 
-- 
2.43.0


From c805d8dd55c05cab1d95193fbeb5a81c022da96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:19 +0000
Subject: [PATCH 15/19] fix: parse long lists of array subscripts without
 recursion

Every comma recursed once, so a long list overflowed the stack.
---
 src/path/parse.rs | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/path/parse.rs b/src/path/parse.rs
index fa57038..7029047 100644
--- a/src/path/parse.rs
+++ b/src/path/parse.rs
@@ -237,29 +237,30 @@ impl<'a> PathParser<'a> {
 
     #[inline]
     fn parse_array_cell(&mut self, steps: &mut Vec<SingleStep>) -> PathParseResult<()> {
-        let begin = self.parse_last_or_index()?;
-        steps
-            .try_reserve(std::mem::size_of::<Step>())
-            .map_err(|e| PathParseError::new(PathParseErrorKind::TryReserveError(e), self.pos))?;
+        loop {
+            let begin = self.parse_last_or_index()?;
+            steps
+                .try_reserve(std::mem::size_of::<Step>())
+                .map_err(|e| PathParseError::new(PathParseErrorKind::TryReserveError(e), self.pos))?;
 
-        self.eat_whitespaces();
-        if self.has_keyword(TO) {
-            self.advance(TO.len());
             self.eat_whitespaces();
+            if self.has_keyword(TO) {
+                self.advance(TO.len());
+                self.eat_whitespaces();
 
-            let end = self.parse_last_or_index()?;
-            steps.push(SingleStep::Range(begin, end));
-        } else {
-            steps.push(SingleStep::Single(begin));
-        }
+                let end = self.parse_last_or_index()?;
+                steps.push(SingleStep::Range(begin, end));
+            } else {
+                steps.push(SingleStep::Single(begin));
+            }
 
-        self.eat_whitespaces();
-        if self.peek() == Some(COMMA) {
+            self.eat_whitespaces();
+            if self.peek() != Some(COMMA) {
+                return Ok(());
+            }
             self.advance(CTRL_CHAR_LEN);
             self.eat_whitespaces();
-            self.parse_array_cell(steps)?;
         }
-        Ok(())
     }
 
     #[inline]
-- 
2.43.0


From 5f9d838450e7825f2376a9cd230e18c578a3ddc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:20 +0000
Subject: [PATCH 16/19] fix: leave the whitespace after an unquoted key out of
 the key

'$.key ' selected the key 'key ' and '$.size ()' was refused.
---
 src/path/parse.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/path/parse.rs b/src/path/parse.rs
index 7029047..5427d2d 100644
--- a/src/path/parse.rs
+++ b/src/path/parse.rs
@@ -394,19 +394,20 @@ impl<'a> PathParser<'a> {
             Some(char) if char.is_ascii_alphabetic() => {
                 let begin = self.pos;
                 self.skip(|i| i.is_ascii_alphabetic() || i.is_ascii_digit());
+                let end = self.pos;
 
                 if DESCENDENT {
-                    let key = self.create_key::<false>(begin, self.pos)?;
+                    let key = self.create_key::<false>(begin, end)?;
                     self.push_step(Step::Descendent(key))
                 } else {
                     self.eat_whitespaces();
                     match self.peek() {
                         Some(LEFT_BRACKET) => {
-                            let field_name = &self.input[begin..self.pos];
+                            let field_name = &self.input[begin..end];
                             self.parse_item_method(field_name)
                         }
                         Some(DOT) | Some(BEGIN_ARRAY) | None => {
-                            let key = self.create_key::<false>(begin, self.pos)?;
+                            let key = self.create_key::<false>(begin, end)?;
                             self.push_step(Step::Object(ObjectStep::Key(key)))
                         }
                         _ => Err(PathParseError::new(
-- 
2.43.0


From 1f15780e305bf71a6c4fe9fc54533c98876b2ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:51 +0000
Subject: [PATCH 17/19] fix: import JSON numbers of any length

---
 src/json.rs | 52 +++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 51 insertions(+), 1 deletion(-)

diff --git a/src/json.rs b/src/json.rs
index 07f4250..5e9c4c8 100644
--- a/src/json.rs
+++ b/src/json.rs
@@ -4,7 +4,7 @@ use crate::builder::{to_element_count, ArrBuilder, BuildResult, NumberError, Obj
 use crate::{
     ArrayBuilder, ArrayRefBuilder, BuildError, Number, ObjectBuilder, ObjectRefBuilder, Scalar, Yason, YasonBuf,
 };
-use decimal_rs::DecimalParseError;
+use decimal_rs::{DecimalParseError, MAX_PRECISION};
 use serde_json::{Map, Value};
 use std::fmt::Write;
 use std::str::FromStr;
@@ -135,11 +135,61 @@ fn write_object<T: ObjBuilder>(
     Ok(())
 }
 
+/// Longer numbers are shortened before they are parsed, because `Decimal` counts digits and exponents in 16 bits.
+const MAX_PLAIN_NUMBER_LENGTH: usize = 256;
+
+/// Rewrites a valid JSON number as an equivalent `0.digits` and exponent, keeping one digit more than the maximum
+/// precision of `Decimal` so that it is still rounded the same way.
+fn shorten_number(buf: &mut String) -> BuildResult<()> {
+    const MAX_DIGITS: usize = MAX_PRECISION as usize + 1;
+    const MAX_EXPONENT: i64 = 999;
+
+    let (number, exponent) = match buf.find(|c| c == 'e' || c == 'E') {
+        Some(pos) => (&buf[..pos], &buf[pos + 1..]),
+        None => (buf.as_str(), "0"),
+    };
+    let mut exponent = exponent.parse().unwrap_or(match exponent.starts_with('-') {
+        true => i64::MIN / 2,
+        false => i64::MAX / 2,
+    });
+
+    let negative = number.starts_with('-');
+    let number = number.trim_start_matches('-');
+    let point = number.find('.').unwrap_or(number.len());
+    exponent += point as i64;
+
+    let mut digits = [b'0'; MAX_DIGITS];
+    let mut count = 0;
+    for digit in number.bytes().filter(|b| *b != b'.') {
+        if count == 0 && digit == b'0' {
+            exponent -= 1;
+            continue;
+        }
+        if count == MAX_DIGITS {
+            break;
+        }
+        digits[count] = digit;
+        count += 1;
+    }
+    if count == 0 {
+        exponent = 0;
+    }
+
+    buf.clear();
+    buf.push_str(if negative { "-0." } else { "0." });
+    buf.extend(digits.iter().map(|b| *b as char));
+    write!(buf, "e{}", exponent.clamp(-MAX_EXPONENT, MAX_EXPONENT))
+        .map_err(|_| BuildError::NumberError(NumberError::FormatError))
+}
+
 #[inline]
 fn number2decimal(val: &serde_json::Number, buf: &mut String) -> BuildResult<Number> {
     buf.clear();
     buf.try_reserve(256)?;
     write!(buf, "{}", val).map_err(|_| BuildError::NumberError(NumberError::FormatError))?;
+    if buf.len() > MAX_PLAIN_NUMBER_LENGTH {
+        shorten_number(buf)?;
+    }
     Number::from_str(buf.as_str()).map_or_else(
         |e| match e {
             DecimalParseError::Underflow => Ok(Number::ZERO),
-- 
2.43.0


From 02c00306f924b2d5481304c37ac830ca59c1c911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:00 +0000
Subject: [PATCH 18/19] fix: keep huge exponents of long JSON numbers within
 range

---
 src/json.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/json.rs b/src/json.rs
index 5e9c4c8..1678255 100644
--- a/src/json.rs
+++ b/src/json.rs
@@ -148,10 +148,11 @@ fn shorten_number(buf: &mut String) -> BuildResult<()> {
         Some(pos) => (&buf[..pos], &buf[pos + 1..]),
         None => (buf.as_str(), "0"),
     };
-    let mut exponent = exponent.parse().unwrap_or(match exponent.starts_with('-') {
-        true => i64::MIN / 2,
-        false => i64::MAX / 2,
+    let mut exponent: i64 = exponent.parse().unwrap_or(match exponent.starts_with('-') {
+        true => i64::MIN,
+        false => i64::MAX,
     });
+    exponent = exponent.clamp(i64::MIN / 2, i64::MAX / 2);
 
     let negative = number.starts_with('-');
     let number = number.trim_start_matches('-');
-- 
2.43.0


From be739f83c85b8d53a499cc2b37873e366ccd8dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:48 +0000
Subject: [PATCH 19/19] fix: evaluate any number of array steps on a value that
 is not an array without recursion

---
 src/path/query.rs | 51 +++++++++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/src/path/query.rs b/src/path/query.rs
index 125d301..e22fc8f 100644
--- a/src/path/query.rs
+++ b/src/path/query.rs
@@ -34,10 +34,21 @@ impl<'a, 'b> Selector<'a, 'b> {
     fn query_internal<const IN_ARRAY: bool>(
         &mut self,
         value: LazyValue<'a, IN_ARRAY>,
-        step_index: usize,
+        mut step_index: usize,
     ) -> YasonResult<bool> {
         debug_assert!(step_index <= self.steps.len());
 
+        // A path may have any number of array steps that select a value that is not an array again and again: they must
+        // not take a stack frame each.
+        if value.data_type() != DataType::Array {
+            while let Some(Step::Array(arr_step)) = self.steps.get(step_index) {
+                if !non_array_match(arr_step) {
+                    return Ok(false);
+                }
+                step_index += 1;
+            }
+        }
+
         if step_index == self.steps.len() {
             if !self.for_exists {
                 if !self.with_wrapper && !self.query_buf.is_empty() {
@@ -143,11 +154,7 @@ impl<'a, 'b> Selector<'a, 'b> {
                     return self.query_internal(val, step_index + 1);
                 }
             }
-            _ => {
-                if index == 0 {
-                    return self.query_internal(value, step_index + 1);
-                }
-            }
+            _ => {}
         }
         Ok(false)
     }
@@ -168,11 +175,7 @@ impl<'a, 'b> Selector<'a, 'b> {
                     return self.query_internal(val, step_index + 1);
                 }
             }
-            _ => {
-                if minus == 0 {
-                    return self.query_internal(value, step_index + 1);
-                }
-            }
+            _ => {}
         }
 
         Ok(false)
@@ -200,11 +203,7 @@ impl<'a, 'b> Selector<'a, 'b> {
                     }
                 }
             }
-            _ => {
-                if find_range(begin, end, 1).is_some() {
-                    return self.query_internal(value, step_index + 1);
-                }
-            }
+            _ => {}
         }
         Ok(false)
     }
@@ -260,11 +259,7 @@ impl<'a, 'b> Selector<'a, 'b> {
                     arr_steps_index += 1;
                 }
             }
-            _ => {
-                if non_array_relaxed_match(arr_steps) {
-                    return self.query_internal(value, step_index + 1);
-                }
-            }
+            _ => {}
         }
         Ok(false)
     }
@@ -285,7 +280,7 @@ impl<'a, 'b> Selector<'a, 'b> {
                     }
                 }
             }
-            _ => return self.query_internal(value, step_index + 1),
+            _ => {}
         }
 
         Ok(false)
@@ -362,6 +357,18 @@ impl<'a, 'b> Selector<'a, 'b> {
     }
 }
 
+/// Whether the step selects a value that is not an array.
+#[inline]
+fn non_array_match(step: &ArrayStep) -> bool {
+    match step {
+        ArrayStep::Index(index) => *index == 0,
+        ArrayStep::Last(minus) => *minus == 0,
+        ArrayStep::Range(begin, end) => find_range(begin, end, 1).is_some(),
+        ArrayStep::Multiple(steps) => non_array_relaxed_match(steps),
+        ArrayStep::Wildcard => true,
+    }
+}
+
 #[inline]
 fn non_array_relaxed_match(steps: &[SingleStep]) -> bool {
     for step in steps {
-- 
2.43.0

