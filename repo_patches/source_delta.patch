From 732b97a053d8dbe144c49dd20d990424d1410080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:03 +0000
Subject: [PATCH 01/29] fix: encode and decode integers outside the short range
 exactly

The range checks were always true, so larger i64s were truncated or recursed forever; the byte
count was taken from the wrong end of the number, and negative ints were not sign extended.
---
 src/encoder/encodable.rs | 25 +++++++++++++++----------
 src/value/mod.rs         |  4 ++++
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/encoder/encodable.rs b/src/encoder/encodable.rs
index ced817f..000c2dc 100644
--- a/src/encoder/encodable.rs
+++ b/src/encoder/encodable.rs
@@ -31,7 +31,7 @@ impl Encodable for i64 {
     #[allow(clippy::cast_possible_truncation)]
     fn write_fleece_to(&self, buf: &mut [u8], is_wide: bool) -> Option<NonZeroUsize> {
         // If this is small enough, store it as a short
-        if *self <= 2047 || *self >= -2048 {
+        if *self <= 2047 && *self >= -2048 {
             #[allow(clippy::cast_possible_truncation)]
             return (*self as i16).write_fleece_to(buf, is_wide);
         }
@@ -46,18 +46,17 @@ impl Encodable for i64 {
     }
 
     fn fleece_size(&self) -> usize {
-        if *self <= 2047 || *self >= -2048 {
+        if *self <= 2047 && *self >= -2048 {
             return 2;
         }
-        if *self >= 0 {
-            8 - self.trailing_zeros() as usize + 1
-        } else {
-            8 - self.trailing_ones() as usize + 1
-        }
+        // One bit is needed for the sign, the rest are the significant bits of the value
+        let magnitude = if *self >= 0 { *self } else { !*self };
+        let significant_bits = 64 - magnitude.leading_zeros() as usize + 1;
+        significant_bits.div_ceil(8) + 1
     }
     #[allow(clippy::cast_possible_truncation)]
     fn to_sized_value(&self) -> Option<SizedValue> {
-        if *self <= 2047 || *self >= -2048 {
+        if *self <= 2047 && *self >= -2048 {
             (*self as i16).to_sized_value()
         } else {
             None
@@ -88,8 +87,8 @@ impl Encodable for u64 {
         if *self <= 2047 {
             2
         } else {
-            let trailing_zeros = (self.trailing_zeros() + 7) / 8;
-            8 - trailing_zeros as usize + 1
+            let significant_bits = 64 - self.leading_zeros() as usize;
+            significant_bits.div_ceil(8) + 1
         }
     }
 
@@ -243,6 +242,9 @@ impl Encodable for u16 {
     }
 
     fn fleece_size(&self) -> usize {
+        if *self > 2047 {
+            return u64::from(*self).fleece_size();
+        }
         2
     }
 
@@ -270,6 +272,9 @@ impl Encodable for i16 {
     }
 
     fn fleece_size(&self) -> usize {
+        if *self > 2047 || *self < -2048 {
+            return i64::from(*self).fleece_size();
+        }
         2
     }
 
diff --git a/src/value/mod.rs b/src/value/mod.rs
index 080b457..cedb44b 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -274,6 +274,10 @@ impl Value {
                         count,
                     );
                 }
+                // Signed ints are stored in as few bytes as possible, so the sign must be extended.
+                if self.value_type() == ValueType::Int && buf[count - 1] & 0x80 != 0 {
+                    buf[count..].fill(0xFF);
+                }
                 i64::from_le_bytes(buf)
             }
             ValueType::Float | ValueType::Double32 | ValueType::Double64 => self.to_double() as i64,
-- 
2.43.0


From 05dbc82281b6f79cbe1e13bb67365caca4cf8542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:03 +0000
Subject: [PATCH 02/29] fix: do not clear a bit of inline values when writing
 them narrow

It turned inline one-character and empty strings (and data) into numbers.
---
 src/encoder/encodable.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/encoder/encodable.rs b/src/encoder/encodable.rs
index 000c2dc..698c5c4 100644
--- a/src/encoder/encodable.rs
+++ b/src/encoder/encodable.rs
@@ -613,7 +613,6 @@ impl Encodable for SizedValue {
                 return None;
             }
             buf[0..2].copy_from_slice(&self.as_bytes()[..2]);
-            buf[0] &= 0xBF;
             unsafe { Some(NonZeroUsize::new_unchecked(2)) }
         }
     }
-- 
2.43.0


From 41e2927b0ecec20249e42a577d5a060e17d06a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 03/29] fix: decide narrow or wide from the real position of
 each element

Pointers are relative to the slot that holds them, which lies after the header and the preceding
elements. The distance of pointer keys was not computed at all.
---
 src/encoder/mod.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/encoder/mod.rs b/src/encoder/mod.rs
index 224b337..fe4b809 100644
--- a/src/encoder/mod.rs
+++ b/src/encoder/mod.rs
@@ -245,14 +245,15 @@ impl Encoder {
             unreachable!()
         };
 
+        // The order decides the distance between each element and what it points to
+        dict.values
+            .sort_unstable_by(|elem1, elem2| Encoder::dict_key_cmp(&elem1.key, &elem2.key));
+
         let is_wide = self._dict_should_be_wide(&dict);
 
         // Write the Dict header via `Encodable` trait
         let offset = self._write(&dict, is_wide, true);
 
-        dict.values
-            .sort_unstable_by(|elem1, elem2| Encoder::dict_key_cmp(&elem1.key, &elem2.key));
-
         self._fix_dict_pointers(&mut dict, is_wide);
 
         for elem in &dict.values {
@@ -422,29 +423,38 @@ impl Encoder {
         self.out.len() as u32 - offset_from_start
     }
 
+    /// The position at which the first element of a collection will be written, given the size of
+    /// its header. Pointers are relative to the position of the element that holds them.
+    fn _first_element_pos(&self, header_size: usize) -> usize {
+        let pos = self.out.len() + header_size;
+        pos + pos % 2
+    }
+
     fn _array_should_be_wide(&self, array: &value_stack::Array) -> bool {
+        let mut len = self._first_element_pos(array.fleece_size());
         for v in &array.values {
             if v.value_type() == ValueType::Pointer
-                && v.actual_pointer_offset(self.out.len()) > u32::from(pointer::MAX_NARROW)
+                && v.actual_pointer_offset(len) > u32::from(pointer::MAX_NARROW)
             {
                 return true;
             }
+            len += 2;
         }
         false
     }
 
     // Only Pointer might require more than 2 bytes, if any do then the whole dict needs to be wide
     fn _dict_should_be_wide(&self, dict: &value_stack::Dict) -> bool {
-        let mut len = self.out.len();
+        let mut len = self._first_element_pos(dict.fleece_size());
         for elem in &dict.values {
             if let DictKey::Pointer(_, offset) = &elem.key {
-                let offset = len - *offset as usize;
-                if len - offset > pointer::MAX_NARROW as usize {
+                if len - *offset as usize > pointer::MAX_NARROW as usize {
                     return true;
                 }
             }
+            len += 2;
             if elem.val.value_type() == ValueType::Pointer
-                && elem.val.actual_pointer_offset(self.out.len()) > u32::from(pointer::MAX_NARROW)
+                && elem.val.actual_pointer_offset(len) > u32::from(pointer::MAX_NARROW)
             {
                 return true;
             }
-- 
2.43.0


From a8ea7761c7172cd85f962c044c309fca92e2317d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:47 +0000
Subject: [PATCH 04/29] fix: Array::get returns None for the index equal to the
 length

---
 src/value/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value/array.rs b/src/value/array.rs
index 03a39a8..57cfc70 100644
--- a/src/value/array.rs
+++ b/src/value/array.rs
@@ -62,7 +62,7 @@ impl Array {
 
     #[must_use]
     pub fn get(&self, index: usize) -> Option<&Value> {
-        if index > self.len() {
+        if index >= self.len() {
             return None;
         }
 
-- 
2.43.0


From c446094fa4c81bca179c22a8e4467cab8db6d163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:03 +0000
Subject: [PATCH 05/29] fix: reject varints which do not fit 64 bits instead of
 overflowing

---
 src/value/varint.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/value/varint.rs b/src/value/varint.rs
index d0ed50c..29c3f2d 100644
--- a/src/value/varint.rs
+++ b/src/value/varint.rs
@@ -12,18 +12,18 @@ pub fn read(data: &[u8]) -> (usize, u64) {
 
     let mut shift: usize = 7;
     let mut res = u64::from(data[0] & 0x7F);
-    let end: usize = data.len().min(MAX_LEN + 1);
+    let end: usize = data.len().min(MAX_LEN);
 
     for (i, byte) in data[1..end].iter().enumerate() {
         if *byte >= 0x80 {
             res |= u64::from(*byte & 0x7F) << shift;
             shift += 7;
         } else {
-            res |= u64::from(*byte) << shift;
-            // Make sure the varint is below the max length
-            if i == MAX_LEN && *byte > 1 {
+            // The last byte of a varint of maximum length only has room for the top bit of the value
+            if i + 2 == MAX_LEN && *byte > 1 {
                 return (0, 0);
             }
+            res |= u64::from(*byte) << shift;
             return (i + 2, res);
         }
     }
-- 
2.43.0


From 2e5772085e45df202104289a321455b455bffdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:20 +0000
Subject: [PATCH 06/29] fix: validate each value against its own bounds,
 without reading past them

The size of a string or data was determined by slicing the not yet validated
contents, and the size of a collection by unchecked arithmetic, so malformed
input panicked instead of being rejected. The target of a pointer was checked
against the end of the pointer it was found through, rather than its own end.
---
 src/value/array.rs |  6 +++---
 src/value/mod.rs   | 26 ++++++++++++++------------
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/value/array.rs b/src/value/array.rs
index 57cfc70..46316ed 100644
--- a/src/value/array.rs
+++ b/src/value/array.rs
@@ -130,7 +130,7 @@ impl Array {
             if read == 0 {
                 0
             } else if self.value.value_type() == ValueType::Dict {
-                size as usize * 2
+                (size as usize).saturating_mul(2)
             } else {
                 size as usize
             }
@@ -182,8 +182,8 @@ impl Array {
         let elem_count = self.len();
 
         let first = unsafe { self.value.bytes.as_ptr().add(self.first_pos()) };
-        if (first as usize) + (elem_count * width) > (data_end as usize) {
-            let available_size = data_end as usize - first as usize;
+        let available_size = (data_end as usize).saturating_sub(first as usize);
+        if elem_count.saturating_mul(width) > available_size {
             return Err(DecodeError::ArrayOutOfBounds {
                 count: elem_count,
                 width,
diff --git a/src/value/mod.rs b/src/value/mod.rs
index cedb44b..4923ecb 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -139,10 +139,9 @@ impl Value {
     pub fn from_bytes(data: &[u8]) -> Result<&Self> {
         let root = Self::_find_root(data)?;
         let data_start = data.as_ptr();
-        let data_end = unsafe { data_start.add(data.len()) };
         // wide parameter doesn't matter here, as it's only used for pointers, and find_root will
         // never return a pointer.
-        root._validate::<false>(false, data_start, data_end)?;
+        root._validate::<false>(false, data_start, root.bytes.as_ptr_range().end)?;
         Ok(root)
     }
 
@@ -386,20 +385,18 @@ impl Value {
             }
             ValueType::Pointer => {
                 let target = Pointer::from_value(self).deref_checked(is_wide, data_start)?;
-                target._validate::<false>(is_wide, data_start, self.bytes.as_ptr())
+                target._validate::<false>(is_wide, data_start, target.bytes.as_ptr_range().end)
             }
             _ => {
                 // We don't need to validate that array elements fit within the data, as
                 // Array::validate already does that. This improves benchmark performance by ~15%.
-                if IS_ARR_ELEM
-                    || self.bytes.as_ptr() as usize + self.required_size() <= data_end as usize
-                {
+                if IS_ARR_ELEM || self.required_size() <= self.bytes.len() {
                     Ok(())
                 } else {
                     Err(DecodeError::ValueOutOfBounds {
                         value_type: self.value_type(),
                         required_size: self.required_size(),
-                        available_size: data_end as usize - self.bytes.as_ptr() as usize,
+                        available_size: self.bytes.len(),
                     })
                 }
             }
@@ -421,11 +418,16 @@ impl Value {
             ValueType::Float | ValueType::Double32 => 6,
             ValueType::Double64 => 10,
             ValueType::String | ValueType::Data => {
-                let len = self._get_data().len();
-                match len {
-                    0 | 1 => 2,
-                    2..=0x0E => 1 + len,
-                    _ => 1 + varint::size_required(len as u64) + len,
+                // Only read the header, the data itself might be out of bounds
+                let inline_size = (self.bytes[0] & 0x0F) as usize;
+                if inline_size < 0x0F {
+                    return (1 + inline_size).max(2);
+                }
+                #[allow(clippy::cast_possible_truncation)]
+                match varint::read(&self.bytes[1..]) {
+                    // The varint is unreadable, so the value can't fit in any number of bytes
+                    (0, _) => usize::MAX,
+                    (read, size) => (1 + read).saturating_add(size as usize),
                 }
             }
             // TODO: This is not correct for MutableArray / MutableDict
-- 
2.43.0


From d6a6a2e0125906e57b66c27d6bf59115eec15c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:20 +0000
Subject: [PATCH 07/29] fix: return an error for external pointers instead of
 panicking

---
 src/value/pointer.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/value/pointer.rs b/src/value/pointer.rs
index 679bf05..48c3fef 100644
--- a/src/value/pointer.rs
+++ b/src/value/pointer.rs
@@ -36,12 +36,9 @@ impl Pointer {
         #[allow(clippy::cast_possible_wrap)]
         let target_ptr = unsafe { self.offset(-(offset as isize)) };
 
-        // Is this pointer external to the source data?
-        if self.value.bytes[0] & 0x40 != 0 {
-            // return resolve_external_pointer(target_ptr, data_start, data_end);
-            unimplemented!()
-            // If the pointer isn't external, it should fit within the source data
-        } else if target_ptr < data_start {
+        // External pointers (to outside of the source data) are not supported, and any other pointer
+        // should fit within the source data.
+        if self.value.bytes[0] & 0x40 != 0 || target_ptr < data_start {
             return Err(DecodeError::PointerTargetOutOfBounds {
                 data_start: data_start as usize,
                 target: target_ptr as usize,
-- 
2.43.0


From ffe8face1f5413a5eede4c500e326a93938d2bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:34 +0000
Subject: [PATCH 08/29] fix: looking up a key in a dict with malformed keys
 must not panic

---
 src/value/dict.rs |  2 +-
 src/value/mod.rs  | 28 +++++++---------------------
 2 files changed, 8 insertions(+), 22 deletions(-)

diff --git a/src/value/dict.rs b/src/value/dict.rs
index 55628e9..0a4e56f 100644
--- a/src/value/dict.rs
+++ b/src/value/dict.rs
@@ -123,7 +123,7 @@ impl Dict {
             // coupled with the `left + size <= self.len()` invariant means
             // we have `left + size/2 < self.len()`, and this is in-bounds.
             let elem = unsafe { self._get_unchecked(mid) };
-            let cmp = Value::dict_key_cmp(key, elem.0, self.is_wide());
+            let cmp = Value::dict_key_cmp(key, elem.0);
 
             // This control flow produces conditional moves, which results in
             // fewer branches and instructions than if/else or matching on
diff --git a/src/value/mod.rs b/src/value/mod.rs
index 4923ecb..dc74c58 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -437,31 +437,17 @@ impl Value {
         }
     }
 
-    pub(crate) fn dict_key_cmp(value1: &dict::Key, value2: &Self, is_wide: bool) -> Ordering {
-        debug_assert!(matches!(
-            value2.value_type(),
-            ValueType::String | ValueType::Pointer | ValueType::Short
-        ));
-        let value_type2 = value2.value_type();
-        match (value1, value_type2) {
-            // Inline strings
-            (dict::Key::String(key), ValueType::String) => (*key).cmp(value2.to_str()),
-            // Pointers to strings
-            (dict::Key::String(key), ValueType::Pointer) => {
-                let val2 = unsafe {
-                    Pointer::from_value(value2)
-                        .deref_unchecked(is_wide)
-                        .to_str()
-                };
-                debug_assert_ne!(val2, "", "value2 is not a pointer to a string!");
-                (*key).cmp(val2)
-            }
+    /// Compare a key with a (dereferenced) key of a dict. Dict keys which are neither a string nor a
+    /// shared key are malformed, they are considered equivalent to an empty string.
+    pub(crate) fn dict_key_cmp(value1: &dict::Key, value2: &Self) -> Ordering {
+        match (value1, value2.value_type()) {
             // SharedKeys
             (dict::Key::Shared(key), ValueType::Short) => key.cmp(&value2.to_unsigned_short()),
             // SharedKeys are sorted first in the dict
             (dict::Key::Shared(_), _) => Ordering::Less,
-            (_, ValueType::Short) => Ordering::Greater,
-            _ => unreachable!(),
+            (dict::Key::String(_), ValueType::Short) => Ordering::Greater,
+            // Strings
+            (dict::Key::String(key), _) => (*key).cmp(value2.to_str()),
         }
     }
 
-- 
2.43.0


From 184ed298258b5acbb3ba7c13553dd5c249d26f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:02 +0000
Subject: [PATCH 09/29] fix: shared keys of 16 bytes are not truncated, lookups
 match only the exact key

---
 src/shared_keys.rs | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/shared_keys.rs b/src/shared_keys.rs
index c9d15bf..2a5ae45 100644
--- a/src/shared_keys.rs
+++ b/src/shared_keys.rs
@@ -5,7 +5,10 @@ use fixedstr::zstr;
 
 use crate::{Encoder, Value, ValueType};
 
-pub struct SharedKeys(folklore::HashMap<zstr<16>, u16>);
+// One byte of a zstr is its terminator
+type ZStr = zstr<{ SharedKeys::MAX_KEY_LEN as usize + 1 }>;
+
+pub struct SharedKeys(folklore::HashMap<ZStr, u16>);
 
 impl SharedKeys {
     const MAX_KEYS: u16 = 2048;
@@ -30,21 +33,25 @@ impl SharedKeys {
 
     #[inline]
     pub fn encode(&self, string_key: &str) -> Option<u16> {
+        // An ineligible key would be truncated, and might then match a different key
+        if !Self::can_encode(string_key) {
+            return None;
+        }
         self.0.get(&zstr::make(string_key))
     }
 
     // This function takes a `&mut self` because it is not technically thread-safe, another thread
     // could insert a key between `index = self.0.len()` and `self.0.insert()`.
     pub fn encode_and_insert(&mut self, key: &str) -> Option<u16> {
+        // Keys which are already present can always be encoded, even when no more can be added
+        if let Some(existing) = self.encode(key) {
+            return Some(existing);
+        }
         if !self.can_add(key) {
             return None;
         }
-        let key = zstr::make(key);
-        if let Some(existing) = self.0.get(&key) {
-            return Some(existing);
-        }
         let index = self.len();
-        if !self.0.insert(key, index) {
+        if !self.0.insert(zstr::make(key), index) {
             return None;
         }
         Some(index)
@@ -57,15 +64,15 @@ impl SharedKeys {
 
     #[allow(clippy::cast_possible_truncation)]
     pub fn can_add(&self, key: &str) -> bool {
-        self.len() < Self::MAX_KEYS
-            && key.len() <= Self::MAX_KEY_LEN as usize
-            && Self::can_encode(key)
+        self.len() < Self::MAX_KEYS && Self::can_encode(key)
     }
 
     #[inline]
     fn can_encode(key: &str) -> bool {
-        key.chars()
-            .all(|c| c.is_alphanumeric() || c == '_' || c == '-')
+        key.len() <= Self::MAX_KEY_LEN as usize
+            && key
+                .chars()
+                .all(|c| c.is_alphanumeric() || c == '_' || c == '-')
     }
 
     #[inline]
@@ -133,7 +140,7 @@ impl<'sk> IntoIterator for &'sk SharedKeys {
     }
 }
 
-pub struct Iter<'a>(folklore::Iter<'a, zstr<16>, u16>);
+pub struct Iter<'a>(folklore::Iter<'a, ZStr, u16>);
 
 impl<'sk> Iterator for Iter<'sk> {
     type Item = (&'sk str, u16);
-- 
2.43.0


From 05a27e05db708cf09e90af35cc889c28eab5c3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:03 +0000
Subject: [PATCH 10/29] fix: find keys which a dict holds as strings even if
 they are shared keys

---
 src/value/dict.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/value/dict.rs b/src/value/dict.rs
index 0a4e56f..b365405 100644
--- a/src/value/dict.rs
+++ b/src/value/dict.rs
@@ -90,9 +90,7 @@ impl Dict {
     where
         R: ?Sized + Borrow<str>,
     {
-        let key = self.encode_key(key.borrow(), None);
-
-        self._get(&key)
+        self._get_str(key.borrow(), None)
     }
 
     /// The same as [`Dict::get`], but may be more efficient as the caller provides
@@ -101,9 +99,17 @@ impl Dict {
     where
         R: ?Sized + Borrow<str>,
     {
-        let key = self.encode_key(key.borrow(), Some(shared_keys));
+        self._get_str(key.borrow(), Some(shared_keys))
+    }
 
-        self._get(&key)
+    fn _get_str(&self, key: &str, shared_keys: Option<&SharedKeys>) -> Option<&Value> {
+        let encoded = self.encode_key(key, shared_keys);
+        let value = self._get(&encoded);
+        if value.is_none() && matches!(encoded, Key::Shared(_)) {
+            // Even if the key is a shared key, this dict might hold it as a string.
+            return self._get(&Key::String(key));
+        }
+        value
     }
 
     /// Get the value in this Dict which corresponds to the given encoded key. The key should be
-- 
2.43.0


From 110d627fe0a243b0720744543c379cee624a0f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:23 +0000
Subject: [PATCH 11/29] fix: end_array does not discard an open dict

---
 src/encoder/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/encoder/mod.rs b/src/encoder/mod.rs
index fe4b809..3c6fb2d 100644
--- a/src/encoder/mod.rs
+++ b/src/encoder/mod.rs
@@ -196,8 +196,12 @@ impl Encoder {
     /// - If there is no open collection.
     /// - If the top open collection is not an Array.
     pub fn end_array(&mut self) -> Result<()> {
-        let Some(Collection::Array(mut array)) = self.collection_stack.pop() else {
+        // Can only end an array if the top collection is an array
+        if !matches!(self.collection_stack.top(), Some(Collection::Array(_))) {
             return Err(EncodeError::ArrayNotOpen);
+        }
+        let Some(Collection::Array(mut array)) = self.collection_stack.pop() else {
+            unreachable!()
         };
         let is_wide = self._array_should_be_wide(&array);
 
-- 
2.43.0


From 4793676aedd5ebdd56a068ccd4d5ac9bf7800d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:23 +0000
Subject: [PATCH 12/29] fix: a rejected key or value leaves nothing behind in
 the encoder

---
 src/encoder/mod.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/encoder/mod.rs b/src/encoder/mod.rs
index 3c6fb2d..914bdd9 100644
--- a/src/encoder/mod.rs
+++ b/src/encoder/mod.rs
@@ -86,6 +86,7 @@ impl Encoder {
     /// - If the last item pushed to the Dict was a key (it is waiting for a value).
     /// - I/O errors related to writing to this Encoder's writer.
     pub fn write_key(&mut self, key: &str) -> Result<()> {
+        self._check_key_expected()?;
         if let Some(val) = key.to_sized_value() {
             // Keys which are small enough are inlined.
             self._write_key_inline(val)
@@ -105,9 +106,7 @@ impl Encoder {
     where
         T: Encodable,
     {
-        if self.collection_stack.empty() {
-            return Err(EncodeError::CollectionNotOpen);
-        }
+        self._check_value_expected()?;
 
         let value = value.borrow();
         if let Some(val) = value.to_sized_value() {
@@ -357,6 +356,25 @@ impl Encoder {
         }
     }
 
+    /// Rejected keys and values must not leave anything in the output or the shared keys, so this
+    /// needs to be checked before they are written.
+    fn _check_key_expected(&self) -> Result<()> {
+        match self.collection_stack.top() {
+            Some(Collection::Dict(dict)) if dict.next_key.is_none() => Ok(()),
+            Some(Collection::Dict(_)) => Err(EncodeError::DictWaitingForValue),
+            _ => Err(EncodeError::DictNotOpen),
+        }
+    }
+
+    fn _check_value_expected(&self) -> Result<()> {
+        match self.collection_stack.top() {
+            Some(Collection::Array(_)) => Ok(()),
+            Some(Collection::Dict(dict)) if dict.next_key.is_some() => Ok(()),
+            Some(Collection::Dict(_)) => Err(EncodeError::DictWaitingForKey),
+            None => Err(EncodeError::CollectionNotOpen),
+        }
+    }
+
     fn _write_key_inline(&mut self, val: SizedValue) -> Result<()> {
         let Some(Collection::Dict(dict)) = self.collection_stack.top_mut() else {
             return Err(EncodeError::DictNotOpen);
-- 
2.43.0


From 40919370257b2074e46f6e503724e3c73774b3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:35 +0000
Subject: [PATCH 13/29] fix: an encoder appending to an odd number of bytes
 aligns its values

---
 src/encoder/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/encoder/mod.rs b/src/encoder/mod.rs
index 914bdd9..a20acab 100644
--- a/src/encoder/mod.rs
+++ b/src/encoder/mod.rs
@@ -71,7 +71,11 @@ impl Encoder {
     }
 
     #[must_use]
-    pub fn new_to_vec(out: Vec<u8>) -> Self {
+    pub fn new_to_vec(mut out: Vec<u8>) -> Self {
+        // Values must be aligned to 2 bytes
+        if out.len() % 2 != 0 {
+            out.push(0);
+        }
         Self {
             out,
             shared_keys: None,
-- 
2.43.0


From 8a43af23e4ab358bf9cc40185787cf216f4f0f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:35 +0000
Subject: [PATCH 14/29] fix: a scope with no data must not panic and poison the
 scope map

---
 src/scope.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/scope.rs b/src/scope.rs
index 4883491..ddba3bf 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -65,7 +65,7 @@ impl Scope {
     /// to it being taken, but the data will not be deallocated until all references to it are dropped.
     pub fn remove(&self) {
         let mut scope_map = SCOPE_MAP.write().unwrap();
-        if let Some(range) = self.range() {
+        if let Some(range) = self.range().filter(|range| !range.is_empty()) {
             scope_map.remove(range);
         }
     }
@@ -91,7 +91,10 @@ impl Scope {
             root,
         });
 
-        scope_map.insert(start..end, ScopeEntry(Arc::downgrade(&scope)));
+        // Empty data doesn't contain any address, and the map doesn't allow empty ranges.
+        if start < end {
+            scope_map.insert(start..end, ScopeEntry(Arc::downgrade(&scope)));
+        }
         scope
     }
 
-- 
2.43.0


From 441a0d3efb42c4045450a946929012d2f05e8a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:04 +0000
Subject: [PATCH 15/29] fix: deserialize newtype structs and unit structs as
 they are serialized

---
 src/de.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/de.rs b/src/de.rs
index 2b15241..2256be9 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -171,6 +171,25 @@ impl<'de, 'value, 'sk> de::Deserializer<'de> for &Deserializer<'value, 'sk> {
         }
     }
 
+    // A unit struct is serialized as null
+    fn deserialize_unit_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value>
+    where
+        V: Visitor<'de>,
+    {
+        match self.value.value_type() {
+            ValueType::Null => visitor.visit_unit(),
+            _ => self.deserialize_any(visitor),
+        }
+    }
+
+    // A newtype struct is serialized as the value inside it
+    fn deserialize_newtype_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
     fn deserialize_seq<V>(self, visitor: V) -> Result<V::Value>
     where
         V: Visitor<'de>,
@@ -229,7 +248,7 @@ impl<'de, 'value, 'sk> de::Deserializer<'de> for &Deserializer<'value, 'sk> {
 
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char tuple string bytes byte_buf
-        unit unit_struct newtype_struct str tuple_struct identifier ignored_any
+        unit str tuple_struct identifier ignored_any
     }
 }
 
-- 
2.43.0


From eb306bce57b44778768b753ba8ff4464628790c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:42 +0000
Subject: [PATCH 16/29] fix: convert large unsigned integers and floats without
 changing their value

---
 src/value/mod.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index dc74c58..6e9d80a 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -208,6 +208,7 @@ impl Value {
             ValueType::False => false,
             ValueType::Short
             | ValueType::Int
+            | ValueType::UnsignedInt
             | ValueType::Float
             | ValueType::Double32
             | ValueType::Double64 => self.to_int() != 0,
@@ -284,10 +285,19 @@ impl Value {
         }
     }
 
+    #[allow(clippy::cast_possible_truncation)]
     #[allow(clippy::cast_sign_loss)]
     #[must_use]
     pub fn to_unsigned_int(&self) -> u64 {
-        self.to_int() as u64
+        match self.value_type() {
+            // Positive floats might be too large for a signed int
+            ValueType::Float | ValueType::Double32 | ValueType::Double64
+                if self.to_double() > 0.0 =>
+            {
+                self.to_double() as u64
+            }
+            _ => self.to_int() as u64,
+        }
     }
 
     #[allow(clippy::cast_precision_loss)]
@@ -304,14 +314,21 @@ impl Value {
                 buf.copy_from_slice(&self.bytes[2..10]);
                 f64::from_le_bytes(buf)
             }
+            ValueType::UnsignedInt => self.to_unsigned_int() as f64,
             _ => self.to_int() as f64,
         }
     }
 
     #[allow(clippy::cast_possible_truncation)]
+    #[allow(clippy::cast_precision_loss)]
     #[must_use]
     pub fn to_float(&self) -> f32 {
-        self.to_double() as f32
+        match self.value_type() {
+            // Going through a double would round twice
+            ValueType::Int => self.to_int() as f32,
+            ValueType::UnsignedInt => self.to_unsigned_int() as f32,
+            _ => self.to_double() as f32,
+        }
     }
 
     #[must_use]
-- 
2.43.0


From 9b2b3cb0ce9ea2c2bf9435f1e5f3d0cc73048a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:57 +0000
Subject: [PATCH 17/29] fix: the size hint of a mutable array iterator is the
 number of remaining elements

---
 src/mutable/array.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mutable/array.rs b/src/mutable/array.rs
index 233919c..0e699cc 100644
--- a/src/mutable/array.rs
+++ b/src/mutable/array.rs
@@ -196,8 +196,8 @@ impl<'a> Iterator for Iter<'a> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let len = self.arr.len();
-        (len, Some(len))
+        let remaining = self.arr.len().saturating_sub(self.index);
+        (remaining, Some(remaining))
     }
 }
 
-- 
2.43.0


From 3bf8f72f12f50daa0120f1c89121b4ea90aa5f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:57 +0000
Subject: [PATCH 18/29] fix: reject shared keys state which is not a list of
 distinct strings

---
 src/shared_keys.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/shared_keys.rs b/src/shared_keys.rs
index 2a5ae45..b449832 100644
--- a/src/shared_keys.rs
+++ b/src/shared_keys.rs
@@ -87,8 +87,14 @@ impl SharedKeys {
         let state = value.as_array()?;
         let mut shared_keys = Self::new();
         for val in state {
-            debug_assert_eq!(val.value_type(), ValueType::String);
+            if val.value_type() != ValueType::String {
+                return None;
+            }
             let borrowed_key = val.to_str();
+            // A duplicate would shift the integers of all keys after it
+            if shared_keys.encode(borrowed_key).is_some() {
+                return None;
+            }
             shared_keys.encode_and_insert(borrowed_key)?;
         }
         Some(shared_keys)
-- 
2.43.0


From a275cbfd5c46b9cdae3b401975aa8d5d3add2b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:22 +0000
Subject: [PATCH 19/29] fix: removing a scope does not remove another scope of
 the same data

---
 src/scope.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/scope.rs b/src/scope.rs
index ddba3bf..b57ddfc 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -66,7 +66,13 @@ impl Scope {
     pub fn remove(&self) {
         let mut scope_map = SCOPE_MAP.write().unwrap();
         if let Some(range) = self.range().filter(|range| !range.is_empty()) {
-            scope_map.remove(range);
+            // The data could be shared with another scope, which has replaced this one in the map.
+            let is_mapped = scope_map
+                .get(&range.start)
+                .is_some_and(|entry| core::ptr::eq(entry.as_ptr(), self));
+            if is_mapped {
+                scope_map.remove(range);
+            }
         }
     }
 
-- 
2.43.0


From 4a5f446607e60162c59b72d13a01cb19d77da9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 20/29] fix: self-owning values keep the shared keys alive that
 they return references to

---
 src/alloced.rs | 11 ++++++++++-
 src/scope.rs   |  1 +
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/alloced.rs b/src/alloced.rs
index 7381c47..c51ad7c 100644
--- a/src/alloced.rs
+++ b/src/alloced.rs
@@ -1,6 +1,6 @@
 use lazy_static::lazy_static;
 
-use crate::{value, Array, Dict, Value, ValueType};
+use crate::{value, Array, Dict, SharedKeys, Value, ValueType};
 use alloc::sync::Arc;
 use core::{borrow::Borrow, fmt, ops::Deref, ptr::NonNull};
 
@@ -13,6 +13,9 @@ where
 {
     pub(crate) buf: Arc<[u8]>,
     pub(crate) value: *const T,
+    /// Keeps the keys which are found for the buffer alive, because iterating a [`Dict`] returns
+    /// references to them.
+    pub(crate) shared_keys: Option<Arc<SharedKeys>>,
 }
 
 impl<T: ?Sized> Alloced<T> {
@@ -40,6 +43,7 @@ impl AllocedValue {
             Some(AllocedArray {
                 buf: self.buf,
                 value: core::ptr::from_ref(Array::from_value(unsafe { &*self.value })),
+                shared_keys: self.shared_keys,
             })
         } else {
             None
@@ -53,6 +57,7 @@ impl AllocedValue {
             Some(AllocedDict {
                 buf: self.buf,
                 value: core::ptr::from_ref(Dict::from_value(unsafe { &*self.value })),
+                shared_keys: self.shared_keys,
             })
         } else {
             None
@@ -64,6 +69,7 @@ impl AllocedValue {
             buf: Arc::from(data.to_vec()),
             value: core::ptr::slice_from_raw_parts(NonNull::<u8>::dangling().as_ptr(), 0)
                 as *const Value,
+            shared_keys: None,
         }
     }
 }
@@ -81,6 +87,7 @@ impl AllocedArray {
             buf: EMPTY_ARRAY.clone(),
             value: core::ptr::slice_from_raw_parts(EMPTY_ARRAY.as_ptr(), EMPTY_ARRAY.len())
                 as *const Array,
+            shared_keys: None,
         }
     }
 }
@@ -93,6 +100,7 @@ impl AllocedDict {
             buf: EMPTY_DICT.clone(),
             value: core::ptr::slice_from_raw_parts(EMPTY_DICT.as_ptr(), EMPTY_DICT.len())
                 as *const Dict,
+            shared_keys: None,
         }
     }
 }
@@ -102,6 +110,7 @@ impl<T: ?Sized> Clone for Alloced<T> {
         Self {
             buf: self.buf.clone(),
             value: self.value,
+            shared_keys: self.shared_keys.clone(),
         }
     }
 }
diff --git a/src/scope.rs b/src/scope.rs
index b57ddfc..3f28336 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -45,6 +45,7 @@ impl Scope {
             self.root.map(|root| AllocedValue {
                 buf: data,
                 value: root.as_ptr(),
+                shared_keys: self.shared_keys.clone(),
             })
         })
     }
-- 
2.43.0


From 3d6ff113402c2c87ce3c7ef6c2b88deaa997aff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:12 +0000
Subject: [PATCH 21/29] fix: deserialize struct variants with skipped fields or
 aliases

---
 src/de.rs | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index 2256be9..cee022f 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -446,21 +446,25 @@ impl<'arr, 'sk, 'de> de::VariantAccess<'de> for EnumAccess<'arr, 'sk> {
                     format!("{:?}", self.array),
                 )))?;
         if let Some(dict) = inner.as_dict() {
-            if dict.len() == fields.len() {
-                let correct_keys = if let Some(sk) = self.shared_keys.shared_keys() {
-                    fields
-                        .iter()
-                        .all(|field| dict.contains_key_with_shared_keys(field, sk))
-                } else {
-                    fields.iter().all(|field| dict.contains_key(field))
-                };
-
-                if correct_keys {
-                    return de::Deserializer::deserialize_map(
-                        &Deserializer::new(inner, self.array.is_wide(), self.shared_keys.as_ref()),
-                        visitor,
-                    );
-                }
+            let known_keys = if let Some(sk) = self.shared_keys.shared_keys() {
+                fields
+                    .iter()
+                    .filter(|field| dict.contains_key_with_shared_keys(**field, sk))
+                    .count()
+            } else {
+                fields
+                    .iter()
+                    .filter(|field| dict.contains_key(**field))
+                    .count()
+            };
+
+            // Not every field needs to have a key: it could have been skipped, or be an alias.
+            // The visitor knows which fields are required.
+            if dict.len() == known_keys {
+                return de::Deserializer::deserialize_map(
+                    &Deserializer::new(inner, self.array.is_wide(), self.shared_keys.as_ref()),
+                    visitor,
+                );
             }
         }
         Err(Error::Deserialize(DeserializeError::InvalidEnumLayout(
-- 
2.43.0


From 7a4a377216eaf42f9996828f941471db8df758e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:12 +0000
Subject: [PATCH 22/29] fix: enums with surplus parts are an error

---
 src/de.rs | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index cee022f..822dac5 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -351,6 +351,16 @@ impl<'arr, 'sk> EnumAccess<'arr, 'sk> {
     fn new(array: &'arr Array, shared_keys: SK<'sk>) -> Self {
         Self { array, shared_keys }
     }
+
+    // The content of any variant but a unit variant is the second of exactly two elements
+    fn content(&self) -> Result<&'arr Value> {
+        match self.array.get(1) {
+            Some(content) if self.array.len() == 2 => Ok(content),
+            _ => Err(Error::Deserialize(DeserializeError::InvalidEnumLayout(
+                format!("{:?}", self.array),
+            ))),
+        }
+    }
 }
 
 impl<'arr, 'sk, 'de> de::EnumAccess<'de> for EnumAccess<'arr, 'sk> {
@@ -397,12 +407,7 @@ impl<'arr, 'sk, 'de> de::VariantAccess<'de> for EnumAccess<'arr, 'sk> {
         T: DeserializeSeed<'de>,
     {
         // Inner variant data is at index 1 in the array
-        let inner =
-            self.array
-                .get(1)
-                .ok_or(Error::Deserialize(DeserializeError::InvalidEnumLayout(
-                    format!("{:?}", self.array),
-                )))?;
+        let inner = self.content()?;
         seed.deserialize(&Deserializer::new(
             inner,
             self.array.is_wide(),
@@ -415,12 +420,7 @@ impl<'arr, 'sk, 'de> de::VariantAccess<'de> for EnumAccess<'arr, 'sk> {
         V: Visitor<'de>,
     {
         // Inner tuple is stored as an array at index 1
-        let inner =
-            self.array
-                .get(1)
-                .ok_or(Error::Deserialize(DeserializeError::InvalidEnumLayout(
-                    format!("{:?}", self.array),
-                )))?;
+        let inner = self.content()?;
         if let Some(array) = inner.as_array() {
             if array.len() == len {
                 return de::Deserializer::deserialize_seq(
@@ -439,12 +439,7 @@ impl<'arr, 'sk, 'de> de::VariantAccess<'de> for EnumAccess<'arr, 'sk> {
         V: Visitor<'de>,
     {
         // Inner struct is stored as a dict at index 1
-        let inner =
-            self.array
-                .get(1)
-                .ok_or(Error::Deserialize(DeserializeError::InvalidEnumLayout(
-                    format!("{:?}", self.array),
-                )))?;
+        let inner = self.content()?;
         if let Some(dict) = inner.as_dict() {
             let known_keys = if let Some(sk) = self.shared_keys.shared_keys() {
                 fields
-- 
2.43.0


From efbaa26e6bae916725cc59daa635d69147891ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 23/29] fix: the name of an enum variant has to be a string

---
 src/de.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/de.rs b/src/de.rs
index 822dac5..c6e9863 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -375,6 +375,7 @@ impl<'arr, 'sk, 'de> de::EnumAccess<'de> for EnumAccess<'arr, 'sk> {
         let variant =
             self.array
                 .get(0)
+                .filter(|name| name.value_type() == ValueType::String)
                 .ok_or(Error::Deserialize(DeserializeError::InvalidEnumLayout(
                     format!("{:?}", self.array),
                 )))?;
-- 
2.43.0


From d36affe4d1204070cdda7bb10d4c636c829e0a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:25 +0000
Subject: [PATCH 24/29] fix: convert a scope's data before the scope map is
 locked

---
 src/scope.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scope.rs b/src/scope.rs
index 3f28336..1b1710d 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -82,7 +82,6 @@ impl Scope {
     #[allow(clippy::missing_panics_doc)]
     /// Create a new scope which retains the data it is given ownership of, and optionally retains the given [`SharedKeys`].
     pub fn new(data: impl Into<Arc<[u8]>>, shared_keys: Option<Arc<SharedKeys>>) -> Arc<Self> {
-        let mut scope_map = SCOPE_MAP.write().unwrap();
         let strong_data = data.into();
         let weak_data = Arc::downgrade(&strong_data);
 
@@ -100,6 +99,7 @@ impl Scope {
 
         // Empty data doesn't contain any address, and the map doesn't allow empty ranges.
         if start < end {
+            let mut scope_map = SCOPE_MAP.write().unwrap();
             scope_map.insert(start..end, ScopeEntry(Arc::downgrade(&scope)));
         }
         scope
-- 
2.43.0


From 8d84478e8952f9ce5ac0046962b652b8d9e8d6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:14 +0000
Subject: [PATCH 25/29] fix: an array within an array in the fleece! macro

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index bd412e6..f4ac2f1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -95,7 +95,7 @@ macro_rules! fleece {
     };
 
     (push $encoder:expr => [ $($inner_val:tt),* $(,)? ]) => {
-        unsafe { $encoder.begin_array().unwrap_unchecked() };
+        unsafe { $encoder.begin_array(10).unwrap_unchecked() };
         $(fleece!(push $encoder => $inner_val);)*
         unsafe { $encoder.end_array().unwrap_unchecked() };
     };
-- 
2.43.0


From 5f0592c17d9247eac5ef6673e84583fafff79615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:14 +0000
Subject: [PATCH 26/29] fix: a dropped scope leaves nothing in the scope map

---
 src/scope.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/scope.rs b/src/scope.rs
index 1b1710d..b9367fb 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -66,6 +66,10 @@ impl Scope {
     /// to it being taken, but the data will not be deallocated until all references to it are dropped.
     pub fn remove(&self) {
         let mut scope_map = SCOPE_MAP.write().unwrap();
+        self.remove_from(&mut scope_map);
+    }
+
+    fn remove_from(&self, scope_map: &mut RangeMap<usize, ScopeEntry>) {
         if let Some(range) = self.range().filter(|range| !range.is_empty()) {
             // The data could be shared with another scope, which has replaced this one in the map.
             let is_mapped = scope_map
@@ -135,18 +139,22 @@ impl PartialEq for Scope {
 
 impl Eq for Scope {}
 
+impl Drop for Scope {
+    /// The map would otherwise keep an entry for every scope that was not removed.
+    fn drop(&mut self) {
+        if let Ok(mut scope_map) = SCOPE_MAP.write() {
+            self.remove_from(&mut scope_map);
+        }
+    }
+}
+
 #[derive(Clone)]
 struct ScopeEntry(Weak<Scope>);
 
 impl PartialEq for ScopeEntry {
     fn eq(&self, other: &Self) -> bool {
-        let Some(self_scope) = self.0.upgrade() else {
-            return false;
-        };
-        let Some(other_scope) = other.0.upgrade() else {
-            return false;
-        };
-        self_scope.eq(&other_scope)
+        // This must not upgrade, the last reference could otherwise be dropped while the map is locked
+        self.0.ptr_eq(&other.0)
     }
 }
 
-- 
2.43.0


From 40b6dc7226dee368798b2cc718504d60cadf1940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:39 +0000
Subject: [PATCH 27/29] fix: refuse distances which a pointer cannot hold

An array element further away than 1 GiB made the encoder panic, and more than
4 GiB of data in between gave a document that reads as something else.
---
 src/encoder/mod.rs         | 55 +++++++++++++++++---------------------
 src/encoder/value_stack.rs |  2 +-
 src/value/sized.rs         |  8 +++---
 3 files changed, 29 insertions(+), 36 deletions(-)

diff --git a/src/encoder/mod.rs b/src/encoder/mod.rs
index a20acab..69161c1 100644
--- a/src/encoder/mod.rs
+++ b/src/encoder/mod.rs
@@ -118,10 +118,10 @@ impl Encoder {
             self._push(val)
         } else {
             // Otherwise, write it to output and push a pointer to it onto the current collection
-            let offset = self._write(value, false, false);
-            let Some(pointer) = SizedValue::new_pointer(offset) else {
+            let Some(pointer) = SizedValue::new_pointer(self.out.len()) else {
                 return Err(EncodeError::PointerTooLarge);
             };
+            self._write(value, false, false);
             self._push(pointer)
         }
     }
@@ -211,7 +211,7 @@ impl Encoder {
         // Write the Array header via `Encodable` trait
         let offset = self._write(&array, is_wide, true);
 
-        self._fix_array_pointers(&mut array, is_wide);
+        self._fix_array_pointers(&mut array, is_wide)?;
 
         for v in &array.values {
             self._write(v, is_wide, false);
@@ -261,7 +261,7 @@ impl Encoder {
         // Write the Dict header via `Encodable` trait
         let offset = self._write(&dict, is_wide, true);
 
-        self._fix_dict_pointers(&mut dict, is_wide);
+        self._fix_dict_pointers(&mut dict, is_wide)?;
 
         for elem in &dict.values {
             match &elem.key {
@@ -282,7 +282,6 @@ impl Encoder {
             self._write(&elem.val, is_wide, false);
         }
 
-        #[allow(clippy::cast_possible_truncation)]
         self._finished_collection(offset)?;
 
         Ok(())
@@ -335,7 +334,7 @@ impl Encoder {
         value: &T,
         is_wide: bool,
         is_collection: bool,
-    ) -> u32 {
+    ) -> usize {
         let offset = self.out.len();
         let size_required = if is_wide && !is_collection {
             value.fleece_size().max(4)
@@ -354,10 +353,7 @@ impl Encoder {
             self.out.push(0);
         }
 
-        #[allow(clippy::cast_possible_truncation)]
-        {
-            offset as u32
-        }
+        offset
     }
 
     /// Rejected keys and values must not leave anything in the output or the shared keys, so this
@@ -444,9 +440,8 @@ impl Encoder {
         }
     }
 
-    #[allow(clippy::cast_possible_truncation)]
-    fn _actual_pointer_offset(&self, offset_from_start: u32) -> u32 {
-        self.out.len() as u32 - offset_from_start
+    fn _actual_pointer_offset(&self, offset_from_start: usize) -> usize {
+        self.out.len() - offset_from_start
     }
 
     /// The position at which the first element of a collection will be written, given the size of
@@ -460,7 +455,7 @@ impl Encoder {
         let mut len = self._first_element_pos(array.fleece_size());
         for v in &array.values {
             if v.value_type() == ValueType::Pointer
-                && v.actual_pointer_offset(len) > u32::from(pointer::MAX_NARROW)
+                && v.actual_pointer_offset(len) > usize::from(pointer::MAX_NARROW)
             {
                 return true;
             }
@@ -474,13 +469,13 @@ impl Encoder {
         let mut len = self._first_element_pos(dict.fleece_size());
         for elem in &dict.values {
             if let DictKey::Pointer(_, offset) = &elem.key {
-                if len - *offset as usize > pointer::MAX_NARROW as usize {
+                if len - *offset > usize::from(pointer::MAX_NARROW) {
                     return true;
                 }
             }
             len += 2;
             if elem.val.value_type() == ValueType::Pointer
-                && elem.val.actual_pointer_offset(len) > u32::from(pointer::MAX_NARROW)
+                && elem.val.actual_pointer_offset(len) > usize::from(pointer::MAX_NARROW)
             {
                 return true;
             }
@@ -489,39 +484,38 @@ impl Encoder {
         false
     }
 
-    fn _fix_array_pointers(&self, array: &mut value_stack::Array, is_wide: bool) {
-        #[allow(clippy::cast_possible_truncation)]
-        let mut len = self.out.len() as u32;
+    fn _fix_array_pointers(&self, array: &mut value_stack::Array, is_wide: bool) -> Result<()> {
+        let mut len = self.out.len();
         for elem in &mut array.values {
             if elem.value_type() == ValueType::Pointer {
-                *elem = Encoder::_fix_pointer(*elem, len);
+                *elem = Encoder::_fix_pointer(*elem, len)?;
             }
             len += if is_wide { 4 } else { 2 };
         }
+        Ok(())
     }
 
-    fn _fix_dict_pointers(&self, dict: &mut value_stack::Dict, is_wide: bool) {
-        #[allow(clippy::cast_possible_truncation)]
-        let mut len = self.out.len() as u32;
+    fn _fix_dict_pointers(&self, dict: &mut value_stack::Dict, is_wide: bool) -> Result<()> {
+        let mut len = self.out.len();
         for elem in &mut dict.values {
             if let DictKey::Pointer(_, offset) = &mut elem.key {
                 *offset = len - *offset;
             }
             len += if is_wide { 4 } else { 2 };
             if elem.val.value_type() == ValueType::Pointer {
-                elem.val = Encoder::_fix_pointer(elem.val, len);
+                elem.val = Encoder::_fix_pointer(elem.val, len)?;
             }
             len += if is_wide { 4 } else { 2 };
         }
+        Ok(())
     }
 
-    #[allow(clippy::cast_possible_truncation)]
-    fn _fix_pointer(pointer: SizedValue, len: u32) -> SizedValue {
-        let offset = pointer.actual_pointer_offset(len as usize);
-        SizedValue::new_pointer(offset).expect("Pointer unexpectedly large")
+    fn _fix_pointer(pointer: SizedValue, len: usize) -> Result<SizedValue> {
+        let offset = pointer.actual_pointer_offset(len);
+        SizedValue::new_pointer(offset).ok_or(EncodeError::PointerTooLarge)
     }
 
-    fn _finished_collection(&mut self, offset_from_start: u32) -> Result<()> {
+    fn _finished_collection(&mut self, offset_from_start: usize) -> Result<()> {
         if let Some(collection) = self.collection_stack.top_mut() {
             let Some(pointer) = SizedValue::new_pointer(offset_from_start) else {
                 return Err(EncodeError::PointerTooLarge);
@@ -538,8 +532,7 @@ impl Encoder {
             // The last collection is finished, write the root value at the end.
             // This root value points to the outermost collection.
             let offset = self._actual_pointer_offset(offset_from_start);
-            #[allow(clippy::cast_possible_truncation)]
-            let root = if offset <= u32::from(pointer::MAX_NARROW) {
+            let root = if offset <= usize::from(pointer::MAX_NARROW) {
                 SizedValue::new_pointer(offset).unwrap()
             } else {
                 // The root value must be 2 bytes, so if the pointer to the top-level collection
diff --git a/src/encoder/value_stack.rs b/src/encoder/value_stack.rs
index 7cc3b8b..905184d 100644
--- a/src/encoder/value_stack.rs
+++ b/src/encoder/value_stack.rs
@@ -21,7 +21,7 @@ pub enum DictKey {
     // SharedKeys
     Shared(u16),
     // We keep an allocated copy of the key for sorting comparison, because the key is already written to the buffer
-    Pointer(Box<str>, u32),
+    Pointer(Box<str>, usize),
 }
 
 pub struct DictElement {
diff --git a/src/value/sized.rs b/src/value/sized.rs
index 3955106..6238b3a 100644
--- a/src/value/sized.rs
+++ b/src/value/sized.rs
@@ -19,7 +19,8 @@ impl SizedValue {
 
     #[must_use]
     #[inline]
-    pub(crate) fn new_pointer(offset: u32) -> Option<Self> {
+    pub(crate) fn new_pointer(offset: usize) -> Option<Self> {
+        let offset = u32::try_from(offset).ok()?;
         if offset > pointer::MAX_WIDE {
             None
         } else {
@@ -43,9 +44,8 @@ impl SizedValue {
     }
 
     #[inline]
-    #[allow(clippy::cast_possible_truncation)]
-    pub(crate) fn actual_pointer_offset(self, out_len: usize) -> u32 {
-        (out_len - self.pointer_offset() as usize) as u32
+    pub(crate) fn actual_pointer_offset(self, out_len: usize) -> usize {
+        out_len - self.pointer_offset() as usize
     }
 
     #[inline]
-- 
2.43.0


From 96c913bb4143e1766325ba57883c658c3c510a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:39 +0000
Subject: [PATCH 28/29] fix: serde visitors are told the number of remaining
 elements

---
 src/de.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index c6e9863..a86e7f2 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -286,7 +286,7 @@ impl<'iter, 'de, 'sk> de::SeqAccess<'de> for ArrayAccess<'iter, 'sk> {
     }
 
     fn size_hint(&self) -> Option<usize> {
-        Some(self.iter.len())
+        Some(self.iter.size_hint().0)
     }
 }
 
@@ -338,7 +338,7 @@ impl<'iter, 'de, 'sk> de::MapAccess<'de> for DictAccess<'iter, 'sk> {
     }
 
     fn size_hint(&self) -> Option<usize> {
-        Some(self.iter.len() / 2)
+        Some(self.iter.size_hint().0 / 2)
     }
 }
 
-- 
2.43.0


From 2da7622e580a5aea39f24f5c4da65e3e3772fb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:00 +0000
Subject: [PATCH 29/29] fix: keys are deserialized as the text that they are
 serialized as

---
 src/de.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/de.rs b/src/de.rs
index a86e7f2..f48f117 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -242,8 +242,9 @@ impl<'de, 'value, 'sk> de::Deserializer<'de> for &Deserializer<'value, 'sk> {
         visitor.visit_enum(EnumAccess::new(array, self.shared_keys.as_ref()))
     }
 
+    // Keys are always written as text
     fn is_human_readable(&self) -> bool {
-        false
+        self.is_dict_key
     }
 
     forward_to_deserialize_any! {
-- 
2.43.0

