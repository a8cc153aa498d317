From aed26aaa12c1aed283fe18b15c23debe7fd0bd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 01/57] fix: big-endian bit codec shifts and clears the wrong
 bits

The field of BIT_SIZE bits at BIT_OFFSET (from the most significant bit) was
only located correctly when it filled the carrier up to the last byte, and the
mask used to clear the old value was not shifted like the value.
---
 runtime/src/codec/bits.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/runtime/src/codec/bits.rs b/runtime/src/codec/bits.rs
index fb992a3..ae5198c 100644
--- a/runtime/src/codec/bits.rs
+++ b/runtime/src/codec/bits.rs
@@ -89,16 +89,18 @@ impl BitCodec for BitCodecLE {
 impl BitCodec for BitCodecBE {
     unsafe fn read_aligned<T: ToUsize + ReadBytes + Shr<Output=T> + BitAnd<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &[u8]) -> T {
         let mask: usize = (1 << BIT_SIZE) - 1;
+        let shift = size_of::<T>() * 8 - BIT_OFFSET - BIT_SIZE;
         let value = T::read_bytes_be(buffer);
-        (value >> T::from_usize(8 - (BIT_SIZE % 8) - BIT_OFFSET)) & T::from_usize(mask)
+        (value >> T::from_usize(shift)) & T::from_usize(mask)
     }
 
     unsafe fn write_aligned<T: ToUsize + ReadBytes + WriteBytes + Shl<Output=T> + Shr<Output=T> + BitAnd<Output=T> + BitOr<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T) {
         let mask: usize = (1 << BIT_SIZE) - 1;
-        let reset_mask = !(mask << BIT_OFFSET);
+        let shift = size_of::<T>() * 8 - BIT_OFFSET - BIT_SIZE;
+        let reset_mask = !(mask << shift);
         let original = T::read_bytes_be(buffer);
         let clean = original & T::from_usize(reset_mask);
-        let value = (value & T::from_usize(mask)) << T::from_usize(8 - (BIT_SIZE % 8) - BIT_OFFSET);
+        let value = (value & T::from_usize(mask)) << T::from_usize(shift);
         (clean | value).write_bytes_be(buffer);
     }
 }
-- 
2.43.0


From 3548b394a482715cd5b13c41a1b659ebf036dc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:32 +0000
Subject: [PATCH 02/57] fix: bit codecs overflow computing the mask of a 64
 bits wide field

---
 runtime/src/codec/bits.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/runtime/src/codec/bits.rs b/runtime/src/codec/bits.rs
index ae5198c..cbdf762 100644
--- a/runtime/src/codec/bits.rs
+++ b/runtime/src/codec/bits.rs
@@ -69,15 +69,20 @@ pub trait BitCodec {
 pub struct BitCodecLE;
 pub struct BitCodecBE;
 
+#[inline]
+const fn bit_mask(bit_size: usize) -> usize {
+    usize::MAX >> (usize::BITS as usize - bit_size)
+}
+
 impl BitCodec for BitCodecLE {
     unsafe fn read_aligned<T: ToUsize + ReadBytes + Shr<Output=T> + BitAnd<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &[u8]) -> T {
-        let mask: usize = (1 << BIT_SIZE) - 1;
+        let mask: usize = bit_mask(BIT_SIZE);
         let value = T::read_bytes_le(buffer);
         (value >> T::from_usize(BIT_OFFSET)) & T::from_usize(mask)
     }
 
     unsafe fn write_aligned<T: ToUsize + ReadBytes + WriteBytes + Shl<Output=T> + Shr<Output=T> + BitAnd<Output=T> + BitOr<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T) {
-        let mask: usize = (1 << BIT_SIZE) - 1;
+        let mask: usize = bit_mask(BIT_SIZE);
         let reset_mask = !(mask << BIT_OFFSET);
         let original = T::read_bytes_le(buffer);
         let clean = original & T::from_usize(reset_mask);
@@ -88,14 +93,14 @@ impl BitCodec for BitCodecLE {
 
 impl BitCodec for BitCodecBE {
     unsafe fn read_aligned<T: ToUsize + ReadBytes + Shr<Output=T> + BitAnd<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &[u8]) -> T {
-        let mask: usize = (1 << BIT_SIZE) - 1;
+        let mask: usize = bit_mask(BIT_SIZE);
         let shift = size_of::<T>() * 8 - BIT_OFFSET - BIT_SIZE;
         let value = T::read_bytes_be(buffer);
         (value >> T::from_usize(shift)) & T::from_usize(mask)
     }
 
     unsafe fn write_aligned<T: ToUsize + ReadBytes + WriteBytes + Shl<Output=T> + Shr<Output=T> + BitAnd<Output=T> + BitOr<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T) {
-        let mask: usize = (1 << BIT_SIZE) - 1;
+        let mask: usize = bit_mask(BIT_SIZE);
         let shift = size_of::<T>() * 8 - BIT_OFFSET - BIT_SIZE;
         let reset_mask = !(mask << shift);
         let original = T::read_bytes_be(buffer);
-- 
2.43.0


From ff5951fde2997be20e3b7b3950f1a7e7b21f53a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:33 +0000
Subject: [PATCH 03/57] fix: unaligned bit codecs lose the bits beyond the
 carrier type

A field which starts inside a byte can span more bytes than its carrier type
(a 7 bits field at offset 4 is carried by u8 but covers 2 bytes), and the
big-endian codec left-justified the bytes. Work on all the bytes of the field.
---
 runtime/src/codec/bits.rs | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/runtime/src/codec/bits.rs b/runtime/src/codec/bits.rs
index cbdf762..771a5a4 100644
--- a/runtime/src/codec/bits.rs
+++ b/runtime/src/codec/bits.rs
@@ -81,6 +81,13 @@ impl BitCodec for BitCodecLE {
         (value >> T::from_usize(BIT_OFFSET)) & T::from_usize(mask)
     }
 
+    unsafe fn read_unaligned<T: ToUsize + ReadBytes + Shr<Output = T> + BitAnd<Output = T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &[u8]) -> T {
+        let mut data = [0; 16];
+        data[..buffer.len()].copy_from_slice(buffer);
+        let value = u128::from_le_bytes(data) >> BIT_OFFSET;
+        T::from_usize(value as usize & bit_mask(BIT_SIZE))
+    }
+
     unsafe fn write_aligned<T: ToUsize + ReadBytes + WriteBytes + Shl<Output=T> + Shr<Output=T> + BitAnd<Output=T> + BitOr<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T) {
         let mask: usize = bit_mask(BIT_SIZE);
         let reset_mask = !(mask << BIT_OFFSET);
@@ -89,6 +96,16 @@ impl BitCodec for BitCodecLE {
         let value = (value & T::from_usize(mask)) << T::from_usize(BIT_OFFSET);
         (clean | value).write_bytes_le(buffer);
     }
+
+    unsafe fn write_unaligned<T: ToUsize + ReadBytes + WriteBytes + Shl<Output = T> + Shr<Output = T> + BitAnd<Output = T> + BitOr<Output = T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T) {
+        let len = buffer.len();
+        let mask = (bit_mask(BIT_SIZE) as u128) << BIT_OFFSET;
+        let mut data = [0; 16];
+        data[..len].copy_from_slice(buffer);
+        let clean = u128::from_le_bytes(data) & !mask;
+        let value = ((value.to_usize() as u128) << BIT_OFFSET) & mask;
+        buffer.copy_from_slice(&(clean | value).to_le_bytes()[..len]);
+    }
 }
 
 impl BitCodec for BitCodecBE {
@@ -99,6 +116,14 @@ impl BitCodec for BitCodecBE {
         (value >> T::from_usize(shift)) & T::from_usize(mask)
     }
 
+    unsafe fn read_unaligned<T: ToUsize + ReadBytes + Shr<Output = T> + BitAnd<Output = T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &[u8]) -> T {
+        let shift = buffer.len() * 8 - BIT_OFFSET - BIT_SIZE;
+        let mut data = [0; 16];
+        data[16 - buffer.len()..].copy_from_slice(buffer);
+        let value = u128::from_be_bytes(data) >> shift;
+        T::from_usize(value as usize & bit_mask(BIT_SIZE))
+    }
+
     unsafe fn write_aligned<T: ToUsize + ReadBytes + WriteBytes + Shl<Output=T> + Shr<Output=T> + BitAnd<Output=T> + BitOr<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T) {
         let mask: usize = bit_mask(BIT_SIZE);
         let shift = size_of::<T>() * 8 - BIT_OFFSET - BIT_SIZE;
@@ -108,6 +133,17 @@ impl BitCodec for BitCodecBE {
         let value = (value & T::from_usize(mask)) << T::from_usize(shift);
         (clean | value).write_bytes_be(buffer);
     }
+
+    unsafe fn write_unaligned<T: ToUsize + ReadBytes + WriteBytes + Shl<Output = T> + Shr<Output = T> + BitAnd<Output = T> + BitOr<Output = T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T) {
+        let len = buffer.len();
+        let shift = len * 8 - BIT_OFFSET - BIT_SIZE;
+        let mask = (bit_mask(BIT_SIZE) as u128) << shift;
+        let mut data = [0; 16];
+        data[16 - len..].copy_from_slice(buffer);
+        let clean = u128::from_be_bytes(data) & !mask;
+        let value = ((value.to_usize() as u128) << shift) & mask;
+        buffer.copy_from_slice(&(clean | value).to_be_bytes()[16 - len..]);
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 8fe4a2d2232777587a6a0b33d7057c67c1579e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 04/57] fix: unaligned big-endian byte codec keeps the wrong
 end of the value

The bytes of a 24 bits value were taken from the start of its u32 carrier,
that is, the most significant byte, instead of its end.
---
 runtime/src/codec/bytes.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/runtime/src/codec/bytes.rs b/runtime/src/codec/bytes.rs
index 2143e4c..bccf345 100644
--- a/runtime/src/codec/bytes.rs
+++ b/runtime/src/codec/bytes.rs
@@ -82,9 +82,22 @@ impl ByteCodec for ByteCodecBE {
         T::read_bytes_be(buffer)
     }
 
+    unsafe fn read_unaligned<T: ReadBytes>(buffer: &[u8]) -> T {
+        let mut data = [0; 8];
+        data[8 - buffer.len()..].copy_from_slice(buffer);
+        Self::read_aligned::<T>(&data[8 - size_of::<T>()..])
+    }
+
     unsafe fn write_aligned<T: WriteBytes>(buffer: &mut [u8], value: T) {
         value.write_bytes_be(buffer);
     }
+
+    unsafe fn write_unaligned<T: WriteBytes>(buffer: &mut [u8], value: T) {
+        let mut data = [0; 8];
+        Self::write_aligned::<T>(&mut data[8 - size_of::<T>()..], value);
+        let len = buffer.len();
+        buffer.copy_from_slice(&data[8 - len..]);
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From a4582d7402e480078f29cef08dbd46a95fe48725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 05/57] fix: fields starting inside a byte miss their last bits

The byte range of a field ignored the bit offset of its start, and a field of
whole bytes starting inside a byte was accessed with a byte codec, overlapping
its neighbours.
---
 compiler/src/compiler/structure.rs | 15 +++++++++++----
 compiler/src/gen/base/structure.rs |  4 ++--
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index 3517776..b8fedcd 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -126,18 +126,25 @@ pub struct Location {
 impl Location {
     fn from_model(bit_size: usize, bit_offset: usize) -> Self {
         let byte_offset = bit_offset / 8;
+        let bit_offset = bit_offset - byte_offset * 8;
+        let end_bit_offset = bit_offset + bit_size;
         Self {
             byte_offset,
-            bit_offset: bit_offset - byte_offset * 8,
+            bit_offset,
             bit_size,
-            byte_size: if bit_size % 8 != 0 {
-                (bit_size / 8) + 1
+            byte_size: if end_bit_offset % 8 != 0 {
+                (end_bit_offset / 8) + 1
             } else {
-                bit_size / 8
+                end_bit_offset / 8
             }
         }
     }
 
+    /// Returns true if this location starts and ends at a byte boundary.
+    pub fn is_byte_aligned(&self) -> bool {
+        self.bit_offset == 0 && self.bit_size % 8 == 0
+    }
+
     pub fn get_unsigned_integer_type(&self) -> FixedFieldType {
         FixedFieldType::from_model(StructFieldType::Unsigned { bits: self.bit_size }).unwrap()
     }
diff --git a/compiler/src/gen/base/structure.rs b/compiler/src/gen/base/structure.rs
index 4041308..1a6df4e 100644
--- a/compiler/src/gen/base/structure.rs
+++ b/compiler/src/gen/base/structure.rs
@@ -52,7 +52,7 @@ fn gen_field_getter<U: Utilities>(field: &Field, template: &Template, type_path_
             let raw_field_type = U::get_field_type(raw_field_type);
             let function_name = U::get_function_name(v);
             scope.var("raw_type", raw_field_type).var("function_name", function_name);
-            if v.loc.bit_size % 8 != 0 {
+            if !v.loc.is_byte_aligned() {
                 scope.var("codec", U::get_bit_codec_inline(v.endianness))
                     .var_d("bit_offset", v.loc.bit_offset)
                     .var_d("bit_size", v.loc.bit_size)
@@ -84,7 +84,7 @@ fn gen_field_setter<U: Utilities>(field: &Field, template: &Template, type_path_
             let raw_field_type = U::get_field_type(raw_field_type);
             let function_name = U::get_function_name_mut(v);
             scope.var("raw_type", raw_field_type).var("function_name", function_name);
-            if v.loc.bit_size % 8 != 0 {
+            if !v.loc.is_byte_aligned() {
                 scope.var("codec", U::get_bit_codec_inline(v.endianness))
                     .var_d("bit_offset", v.loc.bit_offset)
                     .var_d("bit_size", v.loc.bit_size)
-- 
2.43.0


From 3308eaaf7c13826ada9fb1c847b84ffbc5b05432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 06/57] fix: the endianness of a protocol is ignored

---
 compiler/src/compiler/protocol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/src/compiler/protocol.rs b/compiler/src/compiler/protocol.rs
index cc0dccc..e53245a 100644
--- a/compiler/src/compiler/protocol.rs
+++ b/compiler/src/compiler/protocol.rs
@@ -55,7 +55,7 @@ impl Protocol {
     pub fn from_model<T: ImportResolver>(value: crate::model::Protocol, solver: &T) -> Result<Self, Error> {
         let mut proto = Protocol {
             name: value.name,
-            endianness: Endianness::Little,
+            endianness: value.endianness.unwrap_or(Endianness::Little),
             type_path_by_name: TypePathMap::new(),
             structs_by_name: HashMap::new(),
             messages_by_name: HashMap::new(),
-- 
2.43.0


From cdcc7b4610bd2784d3ada83b09b4ca3a68048764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:33 +0000
Subject: [PATCH 07/57] fix: fields of 0 or more than 64 bits panic the
 compiler

---
 compiler/src/compiler/structure.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index b8fedcd..fced8bf 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -305,6 +305,9 @@ impl Field {
             _ => {
                 let array_len = value.array_len.unwrap_or(1);
                 let mut bit_size = value.info.get_bit_size().ok_or(Error::MissingBitSize)?;
+                if bit_size == 0 || bit_size > 64 {
+                    return Err(Error::UnsupportedBitSize(bit_size));
+                }
                 let view = FieldView::from_model(proto, value.info.get_simple_type(), bit_size, value.view)?;
                 bit_size *= array_len;
                 let ty = FixedFieldType::from_model(value.info)?;
-- 
2.43.0


From 7379b09e2c035234c2fcc2b86edba7111219b730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 08/57] fix: unaligned, empty or oversized array fields are
 accepted or panic

An array starting inside a byte, or of items which are not whole bytes, cannot
be accessed by ArrayCodec, an empty array has no item size, and a huge array
length overflows the size of the structure.
---
 compiler/src/compiler/error.rs     |  2 ++
 compiler/src/compiler/structure.rs | 19 ++++++++++++-------
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/compiler/src/compiler/error.rs b/compiler/src/compiler/error.rs
index 5c77b70..9152e66 100644
--- a/compiler/src/compiler/error.rs
+++ b/compiler/src/compiler/error.rs
@@ -39,6 +39,8 @@ simple_error! {
         MissingBitSize => "missing bits specifier on a structure field",
         UndefinedReference(String) => "undefined reference to '{}'",
         UnalignedArrayCodec => "unaligned array in structure",
+        UnsupportedArrayLen(usize) => "unsupported array length in structure ({})",
+        StructureTooLarge => "structure is too large",
         SolverError => "failed to resolve imported type",
         ZeroEnum => "enums must have at least 1 variant",
         InvalidUnionDiscriminant => "invalid union discriminant path",
diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index fced8bf..33be65d 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -296,11 +296,12 @@ impl Field {
         match value.info {
             StructFieldType::Struct { item_type } => {
                 let r = proto.structs_by_name.get(&item_type).ok_or_else(|| Error::UndefinedReference(item_type))?;
+                let end_bit_offset = last_bit_offset.checked_add(r.bit_size).ok_or(Error::StructureTooLarge)?;
                 Ok((Self::Struct(StructField {
                     name: value.name,
                     r: r.clone(),
                     loc: Location::from_model(r.bit_size, last_bit_offset)
-                }), last_bit_offset + r.bit_size))
+                }), end_bit_offset))
             },
             _ => {
                 let array_len = value.array_len.unwrap_or(1);
@@ -309,20 +310,24 @@ impl Field {
                     return Err(Error::UnsupportedBitSize(bit_size));
                 }
                 let view = FieldView::from_model(proto, value.info.get_simple_type(), bit_size, value.view)?;
-                bit_size *= array_len;
+                if array_len == 0 {
+                    return Err(Error::UnsupportedArrayLen(array_len));
+                }
+                if array_len > 1 && (bit_size % 8 != 0 || last_bit_offset % 8 != 0) {
+                    return Err(Error::UnalignedArrayCodec);
+                }
+                bit_size = bit_size.checked_mul(array_len).ok_or(Error::StructureTooLarge)?;
+                let end_bit_offset = last_bit_offset.checked_add(bit_size).ok_or(Error::StructureTooLarge)?;
                 let ty = FixedFieldType::from_model(value.info)?;
                 let loc = Location::from_model(bit_size, last_bit_offset);
                 if array_len > 1 {
-                    if bit_size % 8 != 0 {
-                        return Err(Error::UnalignedArrayCodec);
-                    }
                     Ok((Self::Array(FixedArrayField {
                         name: value.name,
                         endianness: proto.endianness,
                         array_len,
                         ty,
                         loc
-                    }), last_bit_offset + bit_size))
+                    }), end_bit_offset))
                 } else {
                     Ok((Self::Fixed(FixedField {
                         name: value.name,
@@ -330,7 +335,7 @@ impl Field {
                         ty,
                         loc,
                         view
-                    }), last_bit_offset + bit_size))
+                    }), end_bit_offset))
                 }
             }
         }
-- 
2.43.0


From f77ac6e032c4aa6976d6da0b358fec13d46a360f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:02 +0000
Subject: [PATCH 09/57] fix: a nested structure starting inside a byte overlaps
 the previous field

---
 compiler/src/compiler/error.rs     | 1 +
 compiler/src/compiler/structure.rs | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/compiler/src/compiler/error.rs b/compiler/src/compiler/error.rs
index 9152e66..b9f369c 100644
--- a/compiler/src/compiler/error.rs
+++ b/compiler/src/compiler/error.rs
@@ -39,6 +39,7 @@ simple_error! {
         MissingBitSize => "missing bits specifier on a structure field",
         UndefinedReference(String) => "undefined reference to '{}'",
         UnalignedArrayCodec => "unaligned array in structure",
+        UnalignedStructure => "unaligned nested structure in structure",
         UnsupportedArrayLen(usize) => "unsupported array length in structure ({})",
         StructureTooLarge => "structure is too large",
         SolverError => "failed to resolve imported type",
diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index 33be65d..ef66d04 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -296,6 +296,9 @@ impl Field {
         match value.info {
             StructFieldType::Struct { item_type } => {
                 let r = proto.structs_by_name.get(&item_type).ok_or_else(|| Error::UndefinedReference(item_type))?;
+                if last_bit_offset % 8 != 0 {
+                    return Err(Error::UnalignedStructure);
+                }
                 let end_bit_offset = last_bit_offset.checked_add(r.bit_size).ok_or(Error::StructureTooLarge)?;
                 Ok((Self::Struct(StructField {
                     name: value.name,
-- 
2.43.0


From 14edca1711f4f87d25464df898a5a162d443d442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 10/57] fix: the length of an array of nested structures is
 silently ignored

Structures only support arrays of scalars: refuse it rather than declaring a
single item.
---
 compiler/src/compiler/structure.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index ef66d04..16ef6fe 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -296,6 +296,9 @@ impl Field {
         match value.info {
             StructFieldType::Struct { item_type } => {
                 let r = proto.structs_by_name.get(&item_type).ok_or_else(|| Error::UndefinedReference(item_type))?;
+                if value.array_len.unwrap_or(1) != 1 {
+                    return Err(Error::UnsupportedType(StructFieldType::Struct { item_type: r.name.clone() }));
+                }
                 if last_bit_offset % 8 != 0 {
                     return Err(Error::UnalignedStructure);
                 }
-- 
2.43.0


From 9fa4d0708faa4c7fd078e847e66bc28a3d1f157b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 11/57] fix: float-range views are only correct when min is 0

The range is max - min and the inverse of a * x + b is (x - b) / a. The largest
raw value of a 64 bits field also overflowed.
---
 compiler/src/compiler/structure.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index 16ef6fe..74eaac1 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -196,11 +196,11 @@ impl FieldView {
                 if ty != SimpleType::Float {
                     return Err(Error::UnsupportedViewType(ty));
                 }
-                let raw_max: usize = (1 << bit_size) - 1;
-                let a = max / (raw_max as f64);
+                let raw_max: usize = usize::MAX >> (usize::BITS as usize - bit_size);
+                let a = (max - min) / (raw_max as f64);
                 let b = min;
                 let a_inv = 1.0 / a;
-                let b_inv = -b;
+                let b_inv = -b * a_inv;
                 Ok(FieldView::Float { a, b, a_inv, b_inv })
             }
             Some(StructFieldView::FloatMultiplier { multiplier }) => {
-- 
2.43.0


From 69f186d2f3e14bba4c9fd8858c4570e8d157e89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:44 +0000
Subject: [PATCH 12/57] fix: non-invertible float views generate code which
 does not compile

An empty range or a null multiplier has no inverse, and coefficients which are
not finite in the type of the field have no literal.
---
 compiler/src/compiler/error.rs     |  1 +
 compiler/src/compiler/structure.rs | 16 ++++++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/compiler/src/compiler/error.rs b/compiler/src/compiler/error.rs
index b9f369c..6f68e5f 100644
--- a/compiler/src/compiler/error.rs
+++ b/compiler/src/compiler/error.rs
@@ -36,6 +36,7 @@ simple_error! {
         UnsupportedBitSize(usize) => "unsupported bit size for fixed field ({}), maximum is 64",
         UnsupportedType(StructFieldType) => "unsupported field type in struct: {:?}",
         UnsupportedViewType(SimpleType) => "unsupported view for type: {:?}",
+        InvalidFloatView => "float view is not invertible in the type of the field",
         MissingBitSize => "missing bits specifier on a structure field",
         UndefinedReference(String) => "undefined reference to '{}'",
         UnalignedArrayCodec => "unaligned array in structure",
diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index 74eaac1..b83ee5f 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -183,6 +183,18 @@ impl FieldView {
         }
     }
 
+    fn new_float(bit_size: usize, a: f64, b: f64, a_inv: f64, b_inv: f64) -> Result<Self, Error> {
+        let ty = FixedFieldType::from_model(StructFieldType::Float { bits: bit_size })?;
+        let is_valid = [a, b, a_inv, b_inv].iter().all(|v| match ty {
+            FixedFieldType::Float32 => (*v as f32).is_finite(),
+            _ => v.is_finite()
+        });
+        match is_valid {
+            true => Ok(FieldView::Float { a, b, a_inv, b_inv }),
+            false => Err(Error::InvalidFloatView)
+        }
+    }
+
     fn from_model(proto: &Protocol, ty: SimpleType, bit_size: usize, value: Option<StructFieldView>) -> Result<Self, Error> {
         match value {
             Some(StructFieldView::Enum { name }) => {
@@ -201,7 +213,7 @@ impl FieldView {
                 let b = min;
                 let a_inv = 1.0 / a;
                 let b_inv = -b * a_inv;
-                Ok(FieldView::Float { a, b, a_inv, b_inv })
+                Self::new_float(bit_size, a, b, a_inv, b_inv)
             }
             Some(StructFieldView::FloatMultiplier { multiplier }) => {
                 if ty != SimpleType::Float {
@@ -211,7 +223,7 @@ impl FieldView {
                 let b = 0.0;
                 let a_inv = 1.0 / a;
                 let b_inv = 0.0;
-                Ok(FieldView::Float { a, b, a_inv, b_inv })
+                Self::new_float(bit_size, a, b, a_inv, b_inv)
             }
             None => {
                 if ty == SimpleType::Float && bit_size != 32 && bit_size != 64 {
-- 
2.43.0


From feac4a2ef3518f230b23dded6b4c4b3465e299ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:01 +0000
Subject: [PATCH 13/57] fix: writing the maximum of a float view can wrap to
 its minimum

When rounding lifts the raw value above the largest one, it was reduced to the
width of the field, that is to 0.
---
 compiler/src/compiler/structure.rs             | 5 +++++
 compiler/src/gen/base/structure.rs             | 1 +
 compiler/src/gen/rust/structure.field.template | 2 +-
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index b83ee5f..0d0710d 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -145,6 +145,11 @@ impl Location {
         self.bit_offset == 0 && self.bit_size % 8 == 0
     }
 
+    /// Returns the largest raw value which fits in this location.
+    pub fn max_unsigned_value(&self) -> usize {
+        usize::MAX >> (usize::BITS as usize - self.bit_size)
+    }
+
     pub fn get_unsigned_integer_type(&self) -> FixedFieldType {
         FixedFieldType::from_model(StructFieldType::Unsigned { bits: self.bit_size }).unwrap()
     }
diff --git a/compiler/src/gen/base/structure.rs b/compiler/src/gen/base/structure.rs
index 1a6df4e..a8459f7 100644
--- a/compiler/src/gen/base/structure.rs
+++ b/compiler/src/gen/base/structure.rs
@@ -134,6 +134,7 @@ fn gen_field_view_setter<U: Utilities>(field: &FixedField, scope: &Scope, type_p
     match &field.view {
         FieldView::Float { a_inv, b_inv, .. } => scope.var("view_type", U::get_field_type(field.ty))
             .var("a_inv", format!("{:?}", a_inv)).var("b_inv", format!("{:?}", b_inv))
+            .var_d("raw_max", field.loc.max_unsigned_value())
             .render("setters", &["view_float"]).unwrap(),
         FieldView::Enum(e) => scope.var("view_type", type_path_by_name.get(&e.name))
             .var_d("enum_largest", e.largest).render("setters", &["view_enum"]).unwrap(),
diff --git a/compiler/src/gen/rust/structure.field.template b/compiler/src/gen/rust/structure.field.template
index e4b51f7..3d707d2 100644
--- a/compiler/src/gen/rust/structure.field.template
+++ b/compiler/src/gen/rust/structure.field.template
@@ -98,7 +98,7 @@ impl<T: AsMut<[u8]>> {struct_name}<T> {{
 #fragment push view_float
     pub fn set_{name}(&mut self, value: {view_type}) -> &mut Self {{
         let raw_value = value * {a_inv} + {b_inv};
-        self.set_raw_{name}(raw_value as {raw_type});
+        self.set_raw_{name}((raw_value as {raw_type}).min({raw_max}));
         self
     }}
 #fragment pop
-- 
2.43.0


From a952d8721ae89edd5471f54b55f6d2ee209693bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 14/57] fix: float views on arrays are accepted and ignored

The items were then accessed as truncated native floats.
---
 compiler/src/compiler/structure.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index 0d0710d..6782949 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -339,6 +339,11 @@ impl Field {
                 if array_len > 1 && (bit_size % 8 != 0 || last_bit_offset % 8 != 0) {
                     return Err(Error::UnalignedArrayCodec);
                 }
+                if array_len > 1 {
+                    if let FieldView::Float { .. } = view {
+                        return Err(Error::UnsupportedViewType(SimpleType::Float));
+                    }
+                }
                 bit_size = bit_size.checked_mul(array_len).ok_or(Error::StructureTooLarge)?;
                 let end_bit_offset = last_bit_offset.checked_add(bit_size).ok_or(Error::StructureTooLarge)?;
                 let ty = FixedFieldType::from_model(value.info)?;
-- 
2.43.0


From cded8c65983d0a4a3a656243d8848230a28ace65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 15/57] fix: reading an enum view transmutes undeclared values

A raw value between two declared ones produced an invalid enum (undefined
behaviour), and enums carried by more than 8 bits, or with a single variant,
did not compile as their size differs from that of the raw value.
---
 compiler/src/gen/rust/enum.rs                  |  6 +++++-
 compiler/src/gen/rust/enum.template            | 12 ++++++++++++
 compiler/src/gen/rust/structure.field.template |  7 +------
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/compiler/src/gen/rust/enum.rs b/compiler/src/gen/rust/enum.rs
index 7cbb2d8..084d051 100644
--- a/compiler/src/gen/rust/enum.rs
+++ b/compiler/src/gen/rust/enum.rs
@@ -38,5 +38,9 @@ pub fn gen_enum_decl(e: &Enum) -> String {
     let mut code = e.variants.iter().map(|(k, v)|
         template.scope().var("key", k).var_d("value", v)
             .render("enum", &["variant"]).unwrap());
-    template.var("variants", code.join("")).render("", &["enum"]).unwrap()
+    let mut cases = e.variants.iter().map(|(k, v)|
+        template.scope().var("key", k).var_d("value", v)
+            .render("enum", &["case"]).unwrap());
+    let cases = cases.join("");
+    template.var("variants", code.join("")).var("cases", cases).render("", &["enum"]).unwrap()
 }
diff --git a/compiler/src/gen/rust/enum.template b/compiler/src/gen/rust/enum.template
index b9295e1..d6b5dcc 100644
--- a/compiler/src/gen/rust/enum.template
+++ b/compiler/src/gen/rust/enum.template
@@ -6,4 +6,16 @@ pub enum {name} {{
     {key} = {value},
 #fragment pop
 }}
+
+impl {name} {{
+    pub fn from_raw(value: usize) -> Option<Self> {{
+        match value {{
+{cases}
+#fragment push case
+            {value} => Some(Self::{key}),
+#fragment pop
+            _ => None
+        }}
+    }}
+}}
 #fragment pop
diff --git a/compiler/src/gen/rust/structure.field.template b/compiler/src/gen/rust/structure.field.template
index 3d707d2..2bbd8a4 100644
--- a/compiler/src/gen/rust/structure.field.template
+++ b/compiler/src/gen/rust/structure.field.template
@@ -30,12 +30,7 @@ impl<T: AsRef<[u8]>> {struct_name}<T> {{
 #fragment pop
 #fragment push view_enum
     pub fn get_{name}(&self) -> Option<{view_type}> {{
-        let raw_value = self.get_raw_{name}();
-        if raw_value > {enum_largest} {{
-            None
-        }} else {{
-            Some(unsafe {{ std::mem::transmute::<{raw_type}, {view_type}>(raw_value) }})
-        }}
+        {view_type}::from_raw(self.get_raw_{name}() as usize)
     }}
 #fragment pop
 #fragment push view_transmute
-- 
2.43.0


From c231223e9564bfb6270c3dd22657a040fd4de66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 16/57] fix: enums with variants larger than their field are
 accepted

---
 compiler/src/compiler/error.rs     | 1 +
 compiler/src/compiler/structure.rs | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/compiler/src/compiler/error.rs b/compiler/src/compiler/error.rs
index 6f68e5f..ebdaf74 100644
--- a/compiler/src/compiler/error.rs
+++ b/compiler/src/compiler/error.rs
@@ -36,6 +36,7 @@ simple_error! {
         UnsupportedBitSize(usize) => "unsupported bit size for fixed field ({}), maximum is 64",
         UnsupportedType(StructFieldType) => "unsupported field type in struct: {:?}",
         UnsupportedViewType(SimpleType) => "unsupported view for type: {:?}",
+        EnumTooLarge(String) => "enum '{}' has variants which do not fit in the field",
         InvalidFloatView => "float view is not invertible in the type of the field",
         MissingBitSize => "missing bits specifier on a structure field",
         UndefinedReference(String) => "undefined reference to '{}'",
diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index 6782949..e57baf6 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -207,6 +207,9 @@ impl FieldView {
                     return Err(Error::UnsupportedViewType(ty));
                 }
                 let r = proto.enums_by_name.get(&name).ok_or_else(|| Error::UndefinedReference(name))?;
+                if r.largest > usize::MAX >> (usize::BITS as usize - bit_size) {
+                    return Err(Error::EnumTooLarge(r.name.clone()));
+                }
                 Ok(FieldView::Enum(r.clone()))
             }
             Some(StructFieldView::FloatRange { min, max }) => {
-- 
2.43.0


From 765809e24ed5494d020d93ab0f146722c256084e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:01 +0000
Subject: [PATCH 17/57] fix: enums with duplicate values are accepted but do
 not compile

---
 compiler/src/compiler/enum.rs  | 3 +++
 compiler/src/compiler/error.rs | 1 +
 2 files changed, 4 insertions(+)

diff --git a/compiler/src/compiler/enum.rs b/compiler/src/compiler/enum.rs
index 39138f0..580ed88 100644
--- a/compiler/src/compiler/enum.rs
+++ b/compiler/src/compiler/enum.rs
@@ -41,6 +41,9 @@ impl Enum {
     pub fn from_model(value: crate::model::protocol::Enum) -> Result<Enum, Error> {
         let mut variants: Vec<(String, usize)> = value.variants.into_iter().collect();
         variants.sort_by(|(_, v), (_, v1)| v.cmp(v1));
+        if let Some(v) = variants.windows(2).find(|v| v[0].1 == v[1].1) {
+            return Err(Error::DuplicateEnumValue(v[0].1));
+        }
         let mut variants_map = HashMap::new();
         let largest = variants.last().map(|(_, v)| *v).ok_or(Error::ZeroEnum)?;
         for (k, v) in &variants {
diff --git a/compiler/src/compiler/error.rs b/compiler/src/compiler/error.rs
index ebdaf74..80f68f8 100644
--- a/compiler/src/compiler/error.rs
+++ b/compiler/src/compiler/error.rs
@@ -46,6 +46,7 @@ simple_error! {
         StructureTooLarge => "structure is too large",
         SolverError => "failed to resolve imported type",
         ZeroEnum => "enums must have at least 1 variant",
+        DuplicateEnumValue(usize) => "enum value {} is used by more than 1 variant",
         InvalidUnionDiscriminant => "invalid union discriminant path",
         FloatInUnionDiscriminant => "floats are not allowed as union discriminants",
         InvalidUnionCase(String) => "invalid union case {}",
-- 
2.43.0


From a24b56cd5532507f188e402bd5bd21a5230c9947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 18/57] fix: enums with values larger than isize are accepted
 but do not compile

---
 compiler/src/compiler/enum.rs  | 3 +++
 compiler/src/compiler/error.rs | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/compiler/src/compiler/enum.rs b/compiler/src/compiler/enum.rs
index 580ed88..c42a01b 100644
--- a/compiler/src/compiler/enum.rs
+++ b/compiler/src/compiler/enum.rs
@@ -46,6 +46,9 @@ impl Enum {
         }
         let mut variants_map = HashMap::new();
         let largest = variants.last().map(|(_, v)| *v).ok_or(Error::ZeroEnum)?;
+        if largest > isize::MAX as usize {
+            return Err(Error::EnumTooLarge(value.name));
+        }
         for (k, v) in &variants {
             variants_map.insert(k.clone(), *v);
         }
diff --git a/compiler/src/compiler/error.rs b/compiler/src/compiler/error.rs
index 80f68f8..603cd66 100644
--- a/compiler/src/compiler/error.rs
+++ b/compiler/src/compiler/error.rs
@@ -36,7 +36,7 @@ simple_error! {
         UnsupportedBitSize(usize) => "unsupported bit size for fixed field ({}), maximum is 64",
         UnsupportedType(StructFieldType) => "unsupported field type in struct: {:?}",
         UnsupportedViewType(SimpleType) => "unsupported view for type: {:?}",
-        EnumTooLarge(String) => "enum '{}' has variants which do not fit in the field",
+        EnumTooLarge(String) => "enum '{}' has variants which do not fit",
         InvalidFloatView => "float view is not invertible in the type of the field",
         MissingBitSize => "missing bits specifier on a structure field",
         UndefinedReference(String) => "undefined reference to '{}'",
-- 
2.43.0


From e03eff040f93ac3383c7f0c167f81a66f78d5386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 19/57] fix: union discriminants which do not end at a scalar
 panic the compiler

A path to a structure, or without any field, panicked and the path components
after the scalar were ignored.
---
 compiler/src/compiler/union.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/compiler/src/compiler/union.rs b/compiler/src/compiler/union.rs
index b81a205..9b12839 100644
--- a/compiler/src/compiler/union.rs
+++ b/compiler/src/compiler/union.rs
@@ -108,17 +108,24 @@ impl DiscriminantField {
         let mut leaf = proto.structs_by_name.get(name).ok_or_else(|| Error::UndefinedReference(name.into()))?;
         let root = leaf;
         let mut index_list = Vec::new();
+        let mut is_leaf = false;
         for sub in parts {
+            if is_leaf {
+                return Err(Error::InvalidUnionDiscriminant);
+            }
             let (index, field) = leaf.fields.iter().enumerate()
                 .find(|(_, v)| v.name() == sub)
                 .ok_or_else(|| Error::UndefinedReference(format!("{}.{}", name, sub)))?;
             index_list.push(index);
             match field {
-                Field::Fixed(_) => break,
+                Field::Fixed(_) => is_leaf = true,
                 Field::Struct(v) => leaf = &v.r,
                 Field::Array(_) => return Err(Error::InvalidUnionDiscriminant)
             }
         }
+        if !is_leaf {
+            return Err(Error::InvalidUnionDiscriminant);
+        }
         Ok(DiscriminantField {
             root: root.clone(),
             leaf: leaf.clone(),
-- 
2.43.0


From 6682be67a2dc08860b85859af2af6e9abaea3e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 20/57] fix: union cases which do not fit the discriminant
 generate invalid literals

Negative cases were emitted as the usize of their two's complement, and cases
larger than the discriminant field were not refused.
---
 compiler/src/compiler/union.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/compiler/src/compiler/union.rs b/compiler/src/compiler/union.rs
index 9b12839..3fc030e 100644
--- a/compiler/src/compiler/union.rs
+++ b/compiler/src/compiler/union.rs
@@ -40,15 +40,24 @@ pub struct UnionField {
 
 impl UnionField {
     pub fn from_model(proto: &Protocol, discriminant: &FixedField, value: crate::model::union::UnionField) -> Result<Self, Error> {
+        let max = discriminant.loc.max_unsigned_value();
         let case: usize = match &discriminant.view {
             FieldView::Float { .. } => return Err(Error::FloatInUnionDiscriminant),
-            FieldView::Enum(v) => v.variants_map.get(&value.case).map(|v| *v).ok_or_else(|| Error::InvalidUnionCase(value.case))?,
+            FieldView::Enum(v) => v.variants_map.get(&value.case).map(|v| *v).ok_or_else(|| Error::InvalidUnionCase(value.case.clone()))?,
             FieldView::Transmute | FieldView::SignedCast { .. } => {
-                let value: isize = value.case.parse().map_err(|_| Error::InvalidUnionCase(value.case))?;
-                value as usize
+                let case: isize = value.case.parse().map_err(|_| Error::InvalidUnionCase(value.case.clone()))?;
+                if case < 0 && case >= -((max / 2) as isize) - 1 {
+                    //The discriminant is compared in its raw form: two's complement at its width.
+                    case as usize & max
+                } else {
+                    case as usize
+                }
             }
-            FieldView::None => value.case.parse().map_err(|_| Error::InvalidUnionCase(value.case))?
+            FieldView::None => value.case.parse().map_err(|_| Error::InvalidUnionCase(value.case.clone()))?
         };
+        if case > max {
+            return Err(Error::InvalidUnionCase(value.case));
+        }
         let item_type = value.item_type.map(|v| Referenced::lookup(proto, &v).ok_or_else(|| Error::UndefinedReference(v)))
             .transpose()?;
         Ok(UnionField {
-- 
2.43.0


From eb49aa746a94ca5cb94ca27e4a6d30e89c6f33c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 21/57] fix: native floats are accepted as union discriminants

---
 compiler/src/compiler/structure.rs | 7 +++++++
 compiler/src/compiler/union.rs     | 1 +
 2 files changed, 8 insertions(+)

diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index e57baf6..1ccc4d5 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -74,6 +74,13 @@ impl FixedFieldType {
         }
     }
 
+    pub fn is_float(&self) -> bool {
+        match self {
+            FixedFieldType::Float32 | FixedFieldType::Float64 => true,
+            _ => false
+        }
+    }
+
     pub fn from_max_value(max_value: usize) -> Result<Self, Error> {
         let bit_size = if max_value > u32::MAX as usize {
             64
diff --git a/compiler/src/compiler/union.rs b/compiler/src/compiler/union.rs
index 3fc030e..c637189 100644
--- a/compiler/src/compiler/union.rs
+++ b/compiler/src/compiler/union.rs
@@ -43,6 +43,7 @@ impl UnionField {
         let max = discriminant.loc.max_unsigned_value();
         let case: usize = match &discriminant.view {
             FieldView::Float { .. } => return Err(Error::FloatInUnionDiscriminant),
+            _ if discriminant.ty.is_float() => return Err(Error::FloatInUnionDiscriminant),
             FieldView::Enum(v) => v.variants_map.get(&value.case).map(|v| *v).ok_or_else(|| Error::InvalidUnionCase(value.case.clone()))?,
             FieldView::Transmute | FieldView::SignedCast { .. } => {
                 let case: isize = value.case.parse().map_err(|_| Error::InvalidUnionCase(value.case.clone()))?;
-- 
2.43.0


From f83fd23b902c701a05dcebf63d6a2b4d494b51e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 22/57] fix: unions without cases or with duplicate cases are
 accepted

The former does not compile, the latter can never be read back.
---
 compiler/src/compiler/error.rs | 1 +
 compiler/src/compiler/union.rs | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/compiler/src/compiler/error.rs b/compiler/src/compiler/error.rs
index 603cd66..6ed0f69 100644
--- a/compiler/src/compiler/error.rs
+++ b/compiler/src/compiler/error.rs
@@ -47,6 +47,7 @@ simple_error! {
         SolverError => "failed to resolve imported type",
         ZeroEnum => "enums must have at least 1 variant",
         DuplicateEnumValue(usize) => "enum value {} is used by more than 1 variant",
+        ZeroUnion => "unions must have at least 1 case",
         InvalidUnionDiscriminant => "invalid union discriminant path",
         FloatInUnionDiscriminant => "floats are not allowed as union discriminants",
         InvalidUnionCase(String) => "invalid union case {}",
diff --git a/compiler/src/compiler/union.rs b/compiler/src/compiler/union.rs
index c637189..b971d4f 100644
--- a/compiler/src/compiler/union.rs
+++ b/compiler/src/compiler/union.rs
@@ -158,6 +158,14 @@ impl Union {
         let discriminant = DiscriminantField::from_model(proto, value.discriminant)?;
         let cases = value.cases.into_iter().map(|v| UnionField::from_model(proto, discriminant.get_leaf(), v))
             .collect::<Result<Vec<UnionField>, Error>>()?;
+        if cases.is_empty() {
+            return Err(Error::ZeroUnion);
+        }
+        for (i, case) in cases.iter().enumerate() {
+            if cases[..i].iter().any(|v| v.case == case.case) {
+                return Err(Error::InvalidUnionCase(case.name.clone()));
+            }
+        }
         let is_element_dyn_sized = cases.iter().any(|v| v.item_type.as_ref().map(|v| match v {
             Referenced::Struct(_) => false,
             Referenced::Message(v) => v.size.is_element_dyn_sized
-- 
2.43.0


From c7ed33997431da07d4c0fdc6f2a428195a9b1fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 23/57] fix: union cases without content are written under any
 discriminant

The message then reads back as another case or not at all.
---
 compiler/src/gen/rust/union.rs       | 21 +++++++++++----------
 compiler/src/gen/rust/union.template | 12 ++++++++++--
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/compiler/src/gen/rust/union.rs b/compiler/src/gen/rust/union.rs
index cbbf563..a135a91 100644
--- a/compiler/src/gen/rust/union.rs
+++ b/compiler/src/gen/rust/union.rs
@@ -82,17 +82,18 @@ fn gen_union_from_slice_impl(u: &Union, template: &Template, type_path_by_name:
 fn gen_union_write_to_impl(u: &Union, template: &Template, type_path_by_name: &TypePathMap) -> String {
     let generics = get_generics(u);
     let mut scope = template.scope();
+    let cases = u.cases.iter().map(|case| {
+        let mut scope = template.scope();
+        scope.var("name", &case.name).var_d("case", case.case);
+        match &case.item_type {
+            None => scope.render("write_to.generics", &["none_case"]).unwrap(),
+            Some(item_type) => scope.var("type_name", type_path_by_name.get(item_type.name()))
+                .render("write_to.generics", &["case"]).unwrap()
+        }
+    }).join("");
+    scope.var("cases", cases);
     if generics != "" {
-        let cases = u.cases.iter().filter_map(|case| {
-            let mut scope = template.scope();
-            scope.var("name", &case.name).var_d("case", case.case);
-            match &case.item_type {
-                None => None,
-                Some(item_type) => Some(scope.var("type_name", type_path_by_name.get(item_type.name()))
-                    .render("write_to.generics", &["case"]).unwrap())
-            }
-        }).join("");
-        scope.var("cases", cases).render_to_var("write_to", &["generics"], "fragment").unwrap();
+        scope.render_to_var("write_to", &["generics"], "fragment").unwrap();
     } else {
         scope.render_to_var("write_to", &["none"], "fragment").unwrap();
     }
diff --git a/compiler/src/gen/rust/union.template b/compiler/src/gen/rust/union.template
index e20da4c..14b049c 100644
--- a/compiler/src/gen/rust/union.template
+++ b/compiler/src/gen/rust/union.template
@@ -77,13 +77,21 @@ impl<'a> {union_name}{generics} {{
                 return Err(bp3d_proto::message::Error::InvalidUnionDiscriminant(discriminant as _))
             }},
 #fragment pop
-            _ => ()
+#fragment push none_case
+            Self::{name} => if discriminant != {case} {{
+                return Err(bp3d_proto::message::Error::InvalidUnionDiscriminant(discriminant as _))
+            }},
+#fragment pop
         }};
         Ok(())
     }}
 #fragment pop
 #fragment push none
-    pub fn write_to<W: std::io::Write>(_: &Self, _: &{discriminant_type}<&'a [u8]>, _: W) -> bp3d_proto::message::Result<()> {{
+    pub fn write_to<W: std::io::Write>(input: &Self, discriminant: &{discriminant_type}<&'a [u8]>, _: W) -> bp3d_proto::message::Result<()> {{
+        let discriminant = discriminant.{discriminant_path};
+        match input {{
+{cases}
+        }};
         Ok(())
     }}
 #fragment pop
-- 
2.43.0


From e892181e57c5033d1a396424f6508ab830683bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 24/57] fix: reading a varchar string longer than the input
 panics

---
 runtime/src/message/util/string.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/src/message/util/string.rs b/runtime/src/message/util/string.rs
index 3a5fe43..6e8a6e5 100644
--- a/runtime/src/message/util/string.rs
+++ b/runtime/src/message/util/string.rs
@@ -64,7 +64,8 @@ impl<'a, T: FromSlice<'a, Output: ToUsize>> FromSlice<'a> for VarcharString<T> {
     fn from_slice(slice: &'a [u8]) -> Result<Message<Self::Output>, Error> {
         let msg = T::from_slice(slice)?;
         let size = msg.size();
-        let subslice = &slice[size..size + msg.into_inner().to_usize()];
+        let end = size.checked_add(msg.into_inner().to_usize()).ok_or(Error::Truncated)?;
+        let subslice = slice.get(size..end).ok_or(Error::Truncated)?;
         let string = std::str::from_utf8(subslice).map_err(|_| Error::InvalidUtf8)?;
         Ok(Message::new(size + string.len(), string))
     }
-- 
2.43.0


From 5bc2e80c539baa9d7e983ab46f618298224c0909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 25/57] fix: the size of an array overflows with large lengths

With a 64 bits length, the overflow panics or gets past the bounds check.
---
 runtime/src/message/util/array.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/runtime/src/message/util/array.rs b/runtime/src/message/util/array.rs
index 99e2ccb..9b334bd 100644
--- a/runtime/src/message/util/array.rs
+++ b/runtime/src/message/util/array.rs
@@ -72,7 +72,7 @@ impl<'a, Item: From<&'a [u8]>> Iterator for Iter<'a, Item> {
 
 impl<B: AsRef<[u8]>, T, Item: FixedSize> Array<B, T, Item> {
     pub fn from_parts(data: B, len: usize) -> Option<Array<B, T, Item>> {
-        match data.as_ref().len() == len * Item::SIZE {
+        match Some(data.as_ref().len()) == len.checked_mul(Item::SIZE) {
             true => Some(unsafe { Array::from_raw_parts(data, len) }),
             false => None
         }
@@ -116,7 +116,8 @@ impl<'a, T: FromSlice<'a, Output: ToUsize>, Item: FixedSize + FromSlice<'a, Outp
         let msg = T::from_slice(slice)?;
         let control_size = msg.size();
         let len = msg.into_inner().to_usize();
-        let total_size = control_size + (len * Item::SIZE);
+        let total_size = len.checked_mul(Item::SIZE).and_then(|v| v.checked_add(control_size))
+            .ok_or(Error::Truncated)?;
         if slice.len() < total_size {
             Err(Error::Truncated)
         } else {
-- 
2.43.0


From 1d49ae6beba6b1b62272671e3ca6bd52ac6f4c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 26/57] fix: iterating a malformed list never ends

The same error was returned forever.
---
 runtime/src/message/util/list.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/runtime/src/message/util/list.rs b/runtime/src/message/util/list.rs
index 23164cd..4966668 100644
--- a/runtime/src/message/util/list.rs
+++ b/runtime/src/message/util/list.rs
@@ -73,7 +73,11 @@ impl<'a, Item: FromSlice<'a, Output = Item>> Iterator for Iter<'a, Item> {
             return None;
         }
         let msg = match Item::from_slice(self.data) {
-            Err(e) => return Some(Err(e)),
+            Err(e) => {
+                //The position of the next item is unknown.
+                self.len = 0;
+                return Some(Err(e));
+            },
             Ok(v) => v
         };
         self.data = &self.data[msg.size()..];
@@ -96,7 +100,11 @@ impl<'a, Item: FromSlice<'a, Output = Item> + FromSliceWithOffsets<'a>> Iterator
             return None;
         }
         let msg = match Item::from_slice_with_offsets(&self.data[..]) {
-            Err(e) => return Some(Err(e)),
+            Err(e) => {
+                //The position of the next item is unknown.
+                self.len = 0;
+                return Some(Err(e));
+            },
             Ok(v) => v
         };
         self.data = &self.data[msg.size()..];
-- 
2.43.0


From f5905816ad55e9700708bf389c608cce9fcc8cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 27/57] fix: null-terminated strings containing a null are
 written and read back cut

---
 runtime/src/message/interface.rs   | 1 +
 runtime/src/message/util/string.rs | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/runtime/src/message/interface.rs b/runtime/src/message/interface.rs
index cf7c115..a9b2c4f 100644
--- a/runtime/src/message/interface.rs
+++ b/runtime/src/message/interface.rs
@@ -32,6 +32,7 @@ simple_error! {
     pub Error {
         InvalidUtf8 => "invalid UTF-8 string",
         Truncated => "truncated input",
+        InteriorNul => "null-terminated string contains a null character",
         InvalidUnionDiscriminant(usize) => "invalid union discriminant ({})",
         (impl From) Io(std::io::Error) => "io error: {}"
     }
diff --git a/runtime/src/message/util/string.rs b/runtime/src/message/util/string.rs
index 6e8a6e5..82615f4 100644
--- a/runtime/src/message/util/string.rs
+++ b/runtime/src/message/util/string.rs
@@ -50,6 +50,9 @@ impl WriteTo for NullTerminatedString {
     type Input = str;
 
     fn write_to<W: Write>(input: &Self::Input, mut out: W) -> Result<(), Error> {
+        if input.as_bytes().contains(&0x0) {
+            return Err(Error::InteriorNul);
+        }
         out.write_all(input.as_bytes())?;
         out.write_all(&[0x0])?;
         Ok(())
-- 
2.43.0


From 77dd283aee57470022245f00bb8e460c2398a1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 28/57] fix: lengths larger than their prefix are silently
 truncated on write

---
 runtime/src/message/interface.rs      | 1 +
 runtime/src/message/util/list_base.rs | 3 ++-
 runtime/src/message/util/string.rs    | 3 ++-
 runtime/src/util/scalar.rs            | 4 ++++
 4 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/runtime/src/message/interface.rs b/runtime/src/message/interface.rs
index a9b2c4f..b79fa25 100644
--- a/runtime/src/message/interface.rs
+++ b/runtime/src/message/interface.rs
@@ -32,6 +32,7 @@ simple_error! {
     pub Error {
         InvalidUtf8 => "invalid UTF-8 string",
         Truncated => "truncated input",
+        LengthOverflow(usize) => "length does not fit in its prefix ({})",
         InteriorNul => "null-terminated string contains a null character",
         InvalidUnionDiscriminant(usize) => "invalid union discriminant ({})",
         (impl From) Io(std::io::Error) => "io error: {}"
diff --git a/runtime/src/message/util/list_base.rs b/runtime/src/message/util/list_base.rs
index 4a0f801..5fa1d05 100644
--- a/runtime/src/message/util/list_base.rs
+++ b/runtime/src/message/util/list_base.rs
@@ -51,7 +51,8 @@ macro_rules! impl_list_base {
             type Input = $t<B, T, Item>;
 
             fn write_to<W: std::io::Write>(input: &Self::Input, mut out: W) -> Result<(), Error> {
-                T::write_to(&T::Input::from_usize(input.len), &mut out)?;
+                let len = T::Input::try_from_usize(input.len).ok_or(Error::LengthOverflow(input.len))?;
+                T::write_to(&len, &mut out)?;
                 out.write_all(input.data.as_ref())?;
                 Ok(())
             }
diff --git a/runtime/src/message/util/string.rs b/runtime/src/message/util/string.rs
index 82615f4..093c8d6 100644
--- a/runtime/src/message/util/string.rs
+++ b/runtime/src/message/util/string.rs
@@ -78,7 +78,8 @@ impl<T: WriteTo<Input: ToUsize + Sized>> WriteTo for VarcharString<T> {
     type Input = str;
 
     fn write_to<W: Write>(input: &Self::Input, mut out: W) -> Result<(), Error> {
-        T::write_to(&T::Input::from_usize(input.len()), &mut out)?;
+        let len = T::Input::try_from_usize(input.len()).ok_or(Error::LengthOverflow(input.len()))?;
+        T::write_to(&len, &mut out)?;
         out.write_all(input.as_bytes())?;
         Ok(())
     }
diff --git a/runtime/src/util/scalar.rs b/runtime/src/util/scalar.rs
index 8da092e..ef843ec 100644
--- a/runtime/src/util/scalar.rs
+++ b/runtime/src/util/scalar.rs
@@ -29,6 +29,7 @@
 pub trait ToUsize {
     fn to_usize(self) -> usize;
     fn from_usize(value: usize) -> Self;
+    fn try_from_usize(value: usize) -> Option<Self> where Self: Sized;
 }
 
 macro_rules! impl_to_usize {
@@ -41,6 +42,9 @@ macro_rules! impl_to_usize {
                 fn from_usize(value: usize) -> Self {
                     value as _
                 }
+                fn try_from_usize(value: usize) -> Option<Self> {
+                    value.try_into().ok()
+                }
             }
         )*
     };
-- 
2.43.0


From 68cc0622c30bfe8b07b1ecc486274600597e6d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 29/57] fix: optional scalars and top-level lists do not
 compile

The input and output of these types are not the types themselves.
---
 runtime/src/message/util/common.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/runtime/src/message/util/common.rs b/runtime/src/message/util/common.rs
index ed58874..52fde99 100644
--- a/runtime/src/message/util/common.rs
+++ b/runtime/src/message/util/common.rs
@@ -33,10 +33,10 @@ use crate::message::{Error, FromSlice, FromSliceWithOffsets, Message, WriteTo};
 
 pub struct Optional<T>(PhantomData<T>);
 
-impl<'a, T: FromSlice<'a, Output = T>> FromSlice<'a> for Optional<T> {
-    type Output = Option<T>;
+impl<'a, T: FromSlice<'a>> FromSlice<'a> for Optional<T> {
+    type Output = Option<T::Output>;
 
-    fn from_slice(slice: &'a [u8]) -> Result<Message<Option<T>>, Error> {
+    fn from_slice(slice: &'a [u8]) -> Result<Message<Self::Output>, Error> {
         if slice.len() < 1 {
             Err(Error::Truncated)
         } else {
@@ -51,7 +51,7 @@ impl<'a, T: FromSlice<'a, Output = T>> FromSlice<'a> for Optional<T> {
     }
 }
 
-impl<'a, T: FromSlice<'a, Output = T> + FromSliceWithOffsets<'a>> FromSliceWithOffsets<'a> for Optional<T> {
+impl<'a, T: FromSliceWithOffsets<'a>> FromSliceWithOffsets<'a> for Optional<T> {
     type Offsets = Option<T::Offsets>;
 
     fn from_slice_with_offsets(slice: &'a [u8]) -> crate::message::Result<Message<(Self::Output, Self::Offsets)>> {
@@ -71,8 +71,8 @@ impl<'a, T: FromSlice<'a, Output = T> + FromSliceWithOffsets<'a>> FromSliceWithO
     }
 }
 
-impl<T: WriteTo<Input = T>> WriteTo for Optional<T> {
-    type Input = Option<T>;
+impl<T: WriteTo<Input: Sized>> WriteTo for Optional<T> {
+    type Input = Option<T::Input>;
 
     fn write_to<W: Write>(input: &Self::Input, mut out: W) -> Result<(), Error> {
         match input {
-- 
2.43.0


From fc9d70300ed8eb874f7f1dbd1ceb66cd242380ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 30/57] fix: optional strings and payloads do not compile

---
 compiler/src/gen/base/message.rs            |  1 +
 compiler/src/gen/base/message_from_slice.rs | 14 ++++++++---
 compiler/src/gen/rust/util.rs               |  4 ++++
 runtime/src/message/util/common.rs          | 26 +++++++++++++++++++++
 4 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/compiler/src/gen/base/message.rs b/compiler/src/gen/base/message.rs
index afcfcc3..213cca9 100644
--- a/compiler/src/gen/base/message.rs
+++ b/compiler/src/gen/base/message.rs
@@ -44,6 +44,7 @@ pub trait Utilities: crate::gen::base::structure::Utilities {
     fn get_value_type_inline(endianness: Endianness, ty: FixedFieldType) -> &'static str;
     fn gen_option_type(ty: &str) -> String;
     fn gen_option_type_inline(ty: &str) -> String;
+    fn gen_option_ref_type_inline(ty: &str) -> String;
     fn get_string_type(ty: StringType) -> &'static str;
     fn get_string_type_inline(ty: StringType) -> &'static str;
     fn get_payload_type() -> &'static str;
diff --git a/compiler/src/gen/base/message_from_slice.rs b/compiler/src/gen/base/message_from_slice.rs
index c7bd322..65138d4 100644
--- a/compiler/src/gen/base/message_from_slice.rs
+++ b/compiler/src/gen/base/message_from_slice.rs
@@ -41,6 +41,14 @@ fn gen_optional<'a, U: Utilities>(optional: bool, type_name: impl Into<Cow<'a, s
     }
 }
 
+fn gen_optional_ref<'a, U: Utilities>(optional: bool, type_name: impl Into<Cow<'a, str>>) -> Cow<'a, str> {
+    if optional {
+        U::gen_option_ref_type_inline(&*type_name.into()).into()
+    } else {
+        type_name.into()
+    }
+}
+
 pub fn generate_field_type_inline<'a, U: Utilities>(msg: &Message, field: &'a Field, template: &Template, type_path_by_name: &'a TypePathMap) -> (Cow<'a, str>, Option<&'a str>) {
     let mut union = None;
     let msg_type = match &field.ty {
@@ -49,8 +57,8 @@ pub fn generate_field_type_inline<'a, U: Utilities>(msg: &Message, field: &'a Fi
             Referenced::Struct(v) => gen_optional::<U>(field.optional, type_path_by_name.get(&v.name)),
             Referenced::Message(v) => gen_optional::<U>(field.optional, type_path_by_name.get(&v.name))
         }
-        FieldType::NullTerminatedString => gen_optional::<U>(field.optional, U::get_string_type_inline(StringType::NullTerminated)),
-        FieldType::VarcharString(v) => gen_optional::<U>(field.optional, template.scope()
+        FieldType::NullTerminatedString => gen_optional_ref::<U>(field.optional, U::get_string_type_inline(StringType::NullTerminated)),
+        FieldType::VarcharString(v) => gen_optional_ref::<U>(field.optional, template.scope()
             .var("codec", U::get_value_type(field.endianness, v.ty)).render("", &["varchar"]).unwrap()),
         FieldType::Array(v) => gen_optional::<U>(field.optional, template.scope()
             .var("codec", U::get_value_type(field.endianness, v.ty))
@@ -72,7 +80,7 @@ pub fn generate_field_type_inline<'a, U: Utilities>(msg: &Message, field: &'a Fi
                     .render("", &["list"]).unwrap()),
             }
         },
-        FieldType::Payload => gen_optional::<U>(field.optional, U::get_payload_type_inline())
+        FieldType::Payload => gen_optional_ref::<U>(field.optional, U::get_payload_type_inline())
     };
     (msg_type, union)
 }
diff --git a/compiler/src/gen/rust/util.rs b/compiler/src/gen/rust/util.rs
index 89dddd4..95a4fae 100644
--- a/compiler/src/gen/rust/util.rs
+++ b/compiler/src/gen/rust/util.rs
@@ -162,6 +162,10 @@ impl crate::gen::base::message::Utilities for RustUtils {
         format!("bp3d_proto::message::util::Optional::<{}>", ty)
     }
 
+    fn gen_option_ref_type_inline(ty: &str) -> String {
+        format!("bp3d_proto::message::util::OptionalRef::<{}>", ty)
+    }
+
     fn get_string_type(_: StringType) -> &'static str {
         "&'a str"
     }
diff --git a/runtime/src/message/util/common.rs b/runtime/src/message/util/common.rs
index 52fde99..09e0283 100644
--- a/runtime/src/message/util/common.rs
+++ b/runtime/src/message/util/common.rs
@@ -86,6 +86,32 @@ impl<T: WriteTo<Input: Sized>> WriteTo for Optional<T> {
     }
 }
 
+/// An [Optional] for types which are written from an unsized input such as strings and buffers.
+pub struct OptionalRef<'a, T>(PhantomData<&'a T>);
+
+impl<'a, T: FromSlice<'a>> FromSlice<'a> for OptionalRef<'a, T> {
+    type Output = Option<T::Output>;
+
+    fn from_slice(slice: &'a [u8]) -> Result<Message<Self::Output>, Error> {
+        Optional::<T>::from_slice(slice)
+    }
+}
+
+impl<'a, T: WriteTo<Input: 'a>> WriteTo for OptionalRef<'a, T> {
+    type Input = Option<&'a T::Input>;
+
+    fn write_to<W: Write>(input: &Self::Input, mut out: W) -> Result<(), Error> {
+        match input {
+            None => out.write_all(&[0x0])?,
+            Some(v) => {
+                out.write_all(&[0x1])?;
+                T::write_to(v, out)?;
+            }
+        }
+        Ok(())
+    }
+}
+
 #[derive(Debug, Copy, Clone)]
 pub struct ValueLE<T>(PhantomData<T>);
 #[derive(Debug, Copy, Clone)]
-- 
2.43.0


From be73a4eb89644301e9f0e8cf32b9003818facbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 31/57] fix: lists of imported structures do not compile

The path of the item type is not a single identifier.
---
 runtime/src/message/macros.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/runtime/src/message/macros.rs b/runtime/src/message/macros.rs
index 247157a..5a0c025 100644
--- a/runtime/src/message/macros.rs
+++ b/runtime/src/message/macros.rs
@@ -28,19 +28,19 @@
 
 #[macro_export]
 macro_rules! generate_array_wrapper {
-    ($name: ident, $inner: ident, $t: ty) => {
-        pub struct $name<'a, B>($crate::message::util::Array<B, $t, $inner<&'a [u8]>>);
+    ($name: ident, $($inner: ident)::+, $t: ty) => {
+        pub struct $name<'a, B>($crate::message::util::Array<B, $t, $($inner)::+<&'a [u8]>>);
 
         impl<'a, B> $name<'a, B> {
             pub unsafe fn from_raw_parts(data: B, len: usize) -> $name<'a, B> {
-                Self($crate::message::util::Array::<B, $t, $inner<&'a [u8]>>::from_raw_parts(data, len))
+                Self($crate::message::util::Array::<B, $t, $($inner)::+<&'a [u8]>>::from_raw_parts(data, len))
             }
 
             pub fn new(data: B) -> $name<'a, B> {
                 unsafe { Self::from_raw_parts(data, 0) }
             }
 
-            pub fn from_array(inner: $crate::message::util::Array<B, $t, $inner<&'a [u8]>>) -> Self {
+            pub fn from_array(inner: $crate::message::util::Array<B, $t, $($inner)::+<&'a [u8]>>) -> Self {
                 Self(inner)
             }
 
@@ -50,39 +50,39 @@ macro_rules! generate_array_wrapper {
         }
 
         impl<'a, B: std::io::Write> $name<'a, B> {
-            pub fn write_item(&mut self, item: &$inner<&[u8]>) -> $crate::message::Result<()> {
+            pub fn write_item(&mut self, item: &$($inner)::+<&[u8]>) -> $crate::message::Result<()> {
                 self.0.write_item(item)
             }
 
-            pub fn write_items(&mut self, items: &[$inner<&[u8]>]) -> $crate::message::Result<()> {
+            pub fn write_items(&mut self, items: &[$($inner)::+<&[u8]>]) -> $crate::message::Result<()> {
                 self.0.write_items(items)
             }
         }
 
         impl<'a, B: AsRef<[u8]>> $name<'a, B> {
-            pub fn to_ref(&self) -> $crate::message::util::Array<&[u8], $t, $inner<&[u8]>> {
+            pub fn to_ref(&self) -> $crate::message::util::Array<&[u8], $t, $($inner)::+<&[u8]>> {
                 self.0.to_ref()
             }
 
             pub fn from_parts(data: B, len: usize) -> Option<Self> {
-                $crate::message::util::Array::<B, $t, $inner<&'a [u8]>>::from_parts(data, len).map(Self)
+                $crate::message::util::Array::<B, $t, $($inner)::+<&'a [u8]>>::from_parts(data, len).map(Self)
             }
 
-            pub fn get(&self, index: usize) -> $inner<&[u8]> {
+            pub fn get(&self, index: usize) -> $($inner)::+<&[u8]> {
                 self.0.get(index)
             }
 
-            pub fn iter<'b>(&'b self) -> $crate::message::util::array::Iter<'b, $inner<&[u8]>> {
+            pub fn iter<'b>(&'b self) -> $crate::message::util::array::Iter<'b, $($inner)::+<&[u8]>> {
                 self.0.iter()
             }
         }
 
         impl<'a, B: AsMut<[u8]>> $name<'a, B> {
-            pub fn get_mut(&mut self, index: usize) -> $inner<&mut [u8]> {
+            pub fn get_mut(&mut self, index: usize) -> $($inner)::+<&mut [u8]> {
                 self.0.get_mut(index)
             }
 
-            pub fn iter_mut<'b>(&'b mut self) -> $crate::message::util::array::IterMut<'b, $inner<&mut [u8]>> {
+            pub fn iter_mut<'b>(&'b mut self) -> $crate::message::util::array::IterMut<'b, $($inner)::+<&mut [u8]>> {
                 self.0.iter_mut()
             }
         }
-- 
2.43.0


From 715f5170bbba7fa9ce100b972c343e19470c256a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 32/57] fix: an item which fails to write leaves its first
 bytes in the list

---
 runtime/src/message/util/list_base.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtime/src/message/util/list_base.rs b/runtime/src/message/util/list_base.rs
index 5fa1d05..9707657 100644
--- a/runtime/src/message/util/list_base.rs
+++ b/runtime/src/message/util/list_base.rs
@@ -60,6 +60,8 @@ macro_rules! impl_list_base {
 
         impl<B: std::io::Write, T, I> $t<B, T, I> {
             pub fn write_item<Item: WriteTo<Input = Item>>(&mut self, item: &Item) -> Result<(), Error> {
+                //Check that the item can be written, to not leave a part of it in the list otherwise.
+                Item::write_to(item, std::io::sink())?;
                 Item::write_to(item, &mut self.data)?;
                 self.len += 1;
                 Ok(())
-- 
2.43.0


From 655e92a717d344600198e120bcd83a4456048154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 33/57] fix: message fields named like a local of the generated
 code do not compile

For instance a field named offsets, slice or byte_offset.
---
 .../src/gen/rust/message.from_slice.template  | 24 +++++------
 .../src/gen/rust/message.offsets.template     | 40 +++++++++----------
 2 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/compiler/src/gen/rust/message.from_slice.template b/compiler/src/gen/rust/message.from_slice.template
index e085f32..b9ebfca 100644
--- a/compiler/src/gen/rust/message.from_slice.template
+++ b/compiler/src/gen/rust/message.from_slice.template
@@ -2,23 +2,23 @@
 impl<'a> bp3d_proto::message::FromSlice<'a> for {msg_name}{generics} {{
     type Output = Self;
 
-    fn from_slice(slice: &'a [u8]) -> bp3d_proto::message::Result<bp3d_proto::message::Message<Self>> {{
-        let mut byte_offset: usize = 0;
+    fn from_slice(__slice: &'a [u8]) -> bp3d_proto::message::Result<bp3d_proto::message::Message<Self>> {{
+        let mut __byte_offset: usize = 0;
 {fields}
 #fragment push field
-        let {name}_msg = {type}::from_slice(&slice[byte_offset..])?;
-        byte_offset += {name}_msg.size();
-        let {name} = {name}_msg.into_inner();
+        let __{name}_msg = {type}::from_slice(&__slice[__byte_offset..])?;
+        __byte_offset += __{name}_msg.size();
+        let {name} = __{name}_msg.into_inner();
 #fragment pop
 #fragment push field_msg
-        let {name}_msg = {type}::from_slice(&slice[byte_offset..])?;
-        byte_offset += {name}_msg.size();
-        let {name} = {name}_msg.into_inner();
+        let __{name}_msg = {type}::from_slice(&__slice[__byte_offset..])?;
+        __byte_offset += __{name}_msg.size();
+        let {name} = __{name}_msg.into_inner();
 #fragment pop
 #fragment push field_union
-        let {name}_msg = {type}::from_slice(&slice[byte_offset..], &{on_name})?;
-        byte_offset += {name}_msg.size();
-        let {name} = {name}_msg.into_inner();
+        let __{name}_msg = {type}::from_slice(&__slice[__byte_offset..], &{on_name})?;
+        __byte_offset += __{name}_msg.size();
+        let {name} = __{name}_msg.into_inner();
 #fragment pop
         let data = {msg_name} {{
 {field_names}
@@ -26,7 +26,7 @@ impl<'a> bp3d_proto::message::FromSlice<'a> for {msg_name}{generics} {{
             {name},
 #fragment pop
         }};
-        Ok(bp3d_proto::message::Message::new(byte_offset, data))
+        Ok(bp3d_proto::message::Message::new(__byte_offset, data))
     }}
 }}
 #fragment pop
diff --git a/compiler/src/gen/rust/message.offsets.template b/compiler/src/gen/rust/message.offsets.template
index 9075d38..eef164e 100644
--- a/compiler/src/gen/rust/message.offsets.template
+++ b/compiler/src/gen/rust/message.offsets.template
@@ -18,32 +18,32 @@ pub struct {msg_name}Offsets {{
 impl<'a> bp3d_proto::message::FromSliceWithOffsets<'a> for {msg_name}{generics} {{
     type Offsets = {msg_name}Offsets;
 
-    fn from_slice_with_offsets(slice: &'a [u8]) -> bp3d_proto::message::Result<bp3d_proto::message::Message<(Self, Self::Offsets)>> {{
+    fn from_slice_with_offsets(__slice: &'a [u8]) -> bp3d_proto::message::Result<bp3d_proto::message::Message<(Self, Self::Offsets)>> {{
         use bp3d_proto::message::FromSlice;
-        let mut offsets = Self::Offsets::default();
-        let mut byte_offset: usize = 0;
+        let mut __offsets = Self::Offsets::default();
+        let mut __byte_offset: usize = 0;
 {fields}
 #fragment push field
-        let {name}_msg = {type}::from_slice(&slice[byte_offset..])?;
-        offsets.{name}.start = byte_offset;
-        byte_offset += {name}_msg.size();
-        offsets.{name}.end = byte_offset;
-        let {name} = {name}_msg.into_inner();
+        let __{name}_msg = {type}::from_slice(&__slice[__byte_offset..])?;
+        __offsets.{name}.start = __byte_offset;
+        __byte_offset += __{name}_msg.size();
+        __offsets.{name}.end = __byte_offset;
+        let {name} = __{name}_msg.into_inner();
 #fragment pop
 #fragment push field_msg
-        let {name}_msg = {type}::from_slice_with_offsets(&slice[byte_offset..])?;
-        offsets.{name}.start = byte_offset;
-        byte_offset += {name}_msg.size();
-        offsets.{name}.end = byte_offset;
-        let ({name}, {name}_offsets) = {name}_msg.into_inner();
-        offsets.{name}_offsets = {name}_offsets;
+        let __{name}_msg = {type}::from_slice_with_offsets(&__slice[__byte_offset..])?;
+        __offsets.{name}.start = __byte_offset;
+        __byte_offset += __{name}_msg.size();
+        __offsets.{name}.end = __byte_offset;
+        let ({name}, {name}_offsets) = __{name}_msg.into_inner();
+        __offsets.{name}_offsets = {name}_offsets;
 #fragment pop
 #fragment push field_union
-        let {name}_msg = {type}::from_slice(&slice[byte_offset..], &{on_name})?;
-        offsets.{name}.start = byte_offset;
-        byte_offset += {name}_msg.size();
-        offsets.{name}.end = byte_offset;
-        let {name} = {name}_msg.into_inner();
+        let __{name}_msg = {type}::from_slice(&__slice[__byte_offset..], &{on_name})?;
+        __offsets.{name}.start = __byte_offset;
+        __byte_offset += __{name}_msg.size();
+        __offsets.{name}.end = __byte_offset;
+        let {name} = __{name}_msg.into_inner();
 #fragment pop
         let data = {msg_name} {{
 {field_names}
@@ -51,7 +51,7 @@ impl<'a> bp3d_proto::message::FromSliceWithOffsets<'a> for {msg_name}{generics}
             {name},
 #fragment pop
         }};
-        Ok(bp3d_proto::message::Message::new(byte_offset, (data, offsets)))
+        Ok(bp3d_proto::message::Message::new(__byte_offset, (data, __offsets)))
     }}
 }}
 #fragment pop
-- 
2.43.0


From 27a7af1c273f90d22a046000f7c317cd8bfbbe50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 34/57] fix: references to messages and unions without lifetime
 do not compile

A message of scalars only, or a union without borrowed content, is declared
without lifetime but was referenced with one.
---
 compiler/src/gen/base/message.rs           | 11 +++----
 compiler/src/gen/rust/message.ext.template |  2 +-
 compiler/src/gen/rust/message.rs           |  6 ++--
 compiler/src/gen/rust/message.template     |  2 +-
 compiler/src/gen/rust/union.rs             | 20 +++++--------
 compiler/src/gen/rust/union.template       |  4 +--
 compiler/src/gen/rust/util.rs              | 34 +++++++++++++++++-----
 7 files changed, 48 insertions(+), 31 deletions(-)

diff --git a/compiler/src/gen/base/message.rs b/compiler/src/gen/base/message.rs
index 213cca9..e628af2 100644
--- a/compiler/src/gen/base/message.rs
+++ b/compiler/src/gen/base/message.rs
@@ -29,6 +29,7 @@
 use itertools::Itertools;
 use crate::compiler::message::{Field, FieldType, Message, Referenced};
 use crate::compiler::structure::FixedFieldType;
+use crate::compiler::union::Union;
 use crate::compiler::util::TypePathMap;
 use crate::gen::template::Template;
 use crate::model::protocol::Endianness;
@@ -50,8 +51,8 @@ pub trait Utilities: crate::gen::base::structure::Utilities {
     fn get_payload_type() -> &'static str;
     fn get_payload_type_inline() -> &'static str;
     fn gen_struct_ref_type(type_name: &str) -> String;
-    fn gen_message_ref_type(type_name: &str) -> String;
-    fn gen_union_ref_type(type_name: &str) -> String;
+    fn gen_message_ref_type(type_name: &str, msg: &Message) -> String;
+    fn gen_union_ref_type(type_name: &str, u: &Union) -> String;
 }
 
 fn gen_field_decl<U: Utilities>(field: &Field, template: &Template, type_path_by_name: &TypePathMap) -> String {
@@ -59,7 +60,7 @@ fn gen_field_decl<U: Utilities>(field: &Field, template: &Template, type_path_by
         FieldType::Fixed(ty) => U::get_field_type(ty.ty).into(),
         FieldType::Ref(v) => match v {
             Referenced::Struct(v) => U::gen_struct_ref_type(type_path_by_name.get(&v.name)),
-            Referenced::Message(v) => U::gen_message_ref_type(type_path_by_name.get(&v.name)),
+            Referenced::Message(v) => U::gen_message_ref_type(type_path_by_name.get(&v.name), v),
         },
         FieldType::NullTerminatedString => U::get_string_type(StringType::NullTerminated).into(),
         FieldType::VarcharString(_) => U::get_string_type(StringType::Varchar).into(),
@@ -67,10 +68,10 @@ fn gen_field_decl<U: Utilities>(field: &Field, template: &Template, type_path_by
             .var("codec", U::get_value_type(field.endianness, v.ty))
             .var("type_name", type_path_by_name.get(&v.item_type.name))
             .render("", &["array"]).unwrap(),
-        FieldType::Union(v) => U::gen_union_ref_type(type_path_by_name.get(&v.r.name)),
+        FieldType::Union(v) => U::gen_union_ref_type(type_path_by_name.get(&v.r.name), &v.r),
         FieldType::List(v) => template.scope()
             .var("codec", U::get_value_type(field.endianness, v.ty))
-            .var("type_name", type_path_by_name.get(&v.item_type.name))
+            .var("type_name", U::gen_message_ref_type(type_path_by_name.get(&v.item_type.name), &v.item_type))
             .render("", &["list"]).unwrap(),
         FieldType::Payload => U::get_payload_type().into()
     };
diff --git a/compiler/src/gen/rust/message.ext.template b/compiler/src/gen/rust/message.ext.template
index 2cb28fe..42300fb 100644
--- a/compiler/src/gen/rust/message.ext.template
+++ b/compiler/src/gen/rust/message.ext.template
@@ -3,5 +3,5 @@ bp3d_proto::generate_array_wrapper!({msg_name}{name:capitalize}, {item_type}, {c
 #fragment pop
 
 #fragment push decl_list
-pub type {msg_name}{name:capitalize}<'a, T> = bp3d_proto::message::util::List<T, {codec}, {item_type}<'a>>;
+pub type {msg_name}{name:capitalize}<{lifetime}T> = bp3d_proto::message::util::List<T, {codec}, {item_type}>;
 #fragment pop
diff --git a/compiler/src/gen/rust/message.rs b/compiler/src/gen/rust/message.rs
index aa78ddc..de0697f 100644
--- a/compiler/src/gen/rust/message.rs
+++ b/compiler/src/gen/rust/message.rs
@@ -30,7 +30,7 @@ use itertools::Itertools;
 use crate::compiler::message::{FieldType, Message};
 use crate::compiler::util::TypePathMap;
 use crate::gen::base::message::{generate, Utilities};
-use crate::gen::rust::util::RustUtils;
+use crate::gen::rust::util::{Generics, RustUtils};
 use crate::gen::template::Template;
 
 const TEMPLATE: &[u8] = include_bytes!("./message.template");
@@ -45,7 +45,9 @@ fn gen_message_array_type_decls(msg: &Message, type_path_by_name: &TypePathMap)
             FieldType::Array(v) => Some(template.var("item_type", type_path_by_name.get(&v.item_type.name))
                 .var("codec", RustUtils::get_value_type(field.endianness, v.ty))
                 .render("", &["decl_array"]).unwrap()),
-            FieldType::List(v) => Some(template.var("item_type", type_path_by_name.get(&v.item_type.name))
+            FieldType::List(v) => Some(template
+                .var("item_type", RustUtils::gen_message_ref_type(type_path_by_name.get(&v.item_type.name), &v.item_type))
+                .var("lifetime", if Generics::from_message(&v.item_type).has_lifetime { "'a, " } else { "" })
                 .var("codec", RustUtils::get_value_type(field.endianness, v.ty))
                 .render("", &["decl_list"]).unwrap()),
             _ => None
diff --git a/compiler/src/gen/rust/message.template b/compiler/src/gen/rust/message.template
index cfd510c..34d6512 100644
--- a/compiler/src/gen/rust/message.template
+++ b/compiler/src/gen/rust/message.template
@@ -13,5 +13,5 @@ bp3d_proto::message::util::Array::<&'a [u8], {codec}, {type_name}<&'a [u8]>>
 #fragment pop
 
 #fragment push list
-bp3d_proto::message::util::List::<&'a [u8], {codec}, {type_name}<'a>>
+bp3d_proto::message::util::List::<&'a [u8], {codec}, {type_name}>
 #fragment pop
diff --git a/compiler/src/gen/rust/union.rs b/compiler/src/gen/rust/union.rs
index a135a91..9511f8c 100644
--- a/compiler/src/gen/rust/union.rs
+++ b/compiler/src/gen/rust/union.rs
@@ -30,16 +30,13 @@ use itertools::Itertools;
 use crate::compiler::message::Referenced;
 use crate::compiler::union::Union;
 use crate::compiler::util::TypePathMap;
+use crate::gen::rust::util::Generics;
 use crate::gen::template::Template;
 
 const TEMPLATE: &[u8] = include_bytes!("./union.template");
 
-fn get_generics(u: &Union) -> &str {
-    if u.cases.iter().any(|v| v.item_type.is_some()) {
-        "<'a>"
-    } else {
-        ""
-    }
+fn has_content(u: &Union) -> bool {
+    u.cases.iter().any(|v| v.item_type.is_some())
 }
 
 fn get_discriminant_path(u: &Union) -> String {
@@ -70,8 +67,7 @@ fn gen_union_from_slice_impl(u: &Union, template: &Template, type_path_by_name:
     }).join("");
     let mut scope = template.scope();
     scope.var("cases", cases);
-    let generics = get_generics(u);
-    if generics != "" {
+    if has_content(u) {
         scope.render_to_var("from_slice", &["generics"], "fragment").unwrap();
     } else {
         scope.render_to_var("from_slice", &["none"], "fragment").unwrap();
@@ -80,7 +76,6 @@ fn gen_union_from_slice_impl(u: &Union, template: &Template, type_path_by_name:
 }
 
 fn gen_union_write_to_impl(u: &Union, template: &Template, type_path_by_name: &TypePathMap) -> String {
-    let generics = get_generics(u);
     let mut scope = template.scope();
     let cases = u.cases.iter().map(|case| {
         let mut scope = template.scope();
@@ -92,7 +87,7 @@ fn gen_union_write_to_impl(u: &Union, template: &Template, type_path_by_name: &T
         }
     }).join("");
     scope.var("cases", cases);
-    if generics != "" {
+    if has_content(u) {
         scope.render_to_var("write_to", &["generics"], "fragment").unwrap();
     } else {
         scope.render_to_var("write_to", &["none"], "fragment").unwrap();
@@ -120,6 +115,7 @@ fn gen_union_as_getters(u: &Union, template: &Template, type_path_by_name: &Type
             Some(Referenced::Struct(v)) => scope.var("type_name", type_path_by_name.get(&v.name))
                 .render("getters", &["struct"]).unwrap(),
             Some(Referenced::Message(v)) => scope.var("type_name", type_path_by_name.get(&v.name))
+                .var("type_generics", Generics::from_message(v).to_code())
                 .render("getters", &["message"]).unwrap(),
             None => scope.render("getters", &["none"]).unwrap()
         }
@@ -129,8 +125,7 @@ fn gen_union_as_getters(u: &Union, template: &Template, type_path_by_name: &Type
 
 pub fn gen_union_decl(u: &Union, type_path_by_name: &TypePathMap) -> String {
     let mut template = Template::compile(TEMPLATE).unwrap();
-    let generics = get_generics(u);
-    template.var("union_name", &u.name).var("generics", generics)
+    template.var("union_name", &u.name).var("generics", Generics::from_union(u).to_code())
         .var("discriminant_path_mut", get_discriminant_path_mut(u))
         .var("discriminant_path", get_discriminant_path(u))
         .var("discriminant_type", type_path_by_name.get(&u.discriminant.root.name));
@@ -141,6 +136,7 @@ pub fn gen_union_decl(u: &Union, type_path_by_name: &TypePathMap) -> String {
             .render("decl", &["struct"]).unwrap(),
         Some(Referenced::Message(v)) => template.scope()
             .var("name", &case.name).var("type_name", type_path_by_name.get(&v.name))
+            .var("type_generics", Generics::from_message(v).to_code())
             .render("decl", &["message"]).unwrap()
     }).join("");
     let mut code = template.scope().var("cases", cases).render("", &["decl"]).unwrap();
diff --git a/compiler/src/gen/rust/union.template b/compiler/src/gen/rust/union.template
index 14b049c..d2e887b 100644
--- a/compiler/src/gen/rust/union.template
+++ b/compiler/src/gen/rust/union.template
@@ -6,7 +6,7 @@ pub enum {union_name}{generics} {{
     {name}({type_name}<&'a [u8]>),
 #fragment pop
 #fragment push message
-    {name}({type_name}<'a>),
+    {name}({type_name}{type_generics}),
 #fragment pop
 #fragment push none
     {name},
@@ -26,7 +26,7 @@ impl{generics} {union_name}{generics} {{
     }}
 #fragment pop
 #fragment push message
-    pub fn as_{name_lower}(&self) -> Option<&{type_name}<'a>> {{
+    pub fn as_{name_lower}(&self) -> Option<&{type_name}{type_generics}> {{
         match self {{
             Self::{name}(v) => Some(v),
             _ => None
diff --git a/compiler/src/gen/rust/util.rs b/compiler/src/gen/rust/util.rs
index 95a4fae..9386796 100644
--- a/compiler/src/gen/rust/util.rs
+++ b/compiler/src/gen/rust/util.rs
@@ -26,8 +26,9 @@
 // NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 // SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
-use crate::compiler::message::{FieldType, Message};
+use crate::compiler::message::{FieldType, Message, Referenced};
 use crate::compiler::structure::{FixedField, FixedFieldType};
+use crate::compiler::union::Union;
 use crate::gen::base::message::StringType;
 use crate::model::protocol::Endianness;
 
@@ -37,12 +38,12 @@ pub struct Generics {
 
 impl Generics {
     pub fn from_message(msg: &Message) -> Self {
-        let has_lifetime = msg.fields.iter().any(|v| match v.ty {
-            FieldType::Ref(_) => true,
+        let has_lifetime = msg.fields.iter().any(|v| match &v.ty {
+            FieldType::Ref(v) => Self::from_referenced(v).has_lifetime,
             FieldType::NullTerminatedString => true,
             FieldType::VarcharString(_) => true,
             FieldType::Array(_) => true,
-            FieldType::Union(_) => true,
+            FieldType::Union(v) => Self::from_union(&v.r).has_lifetime,
             FieldType::List(_) => true,
             FieldType::Payload => true,
             _ => false
@@ -52,6 +53,23 @@ impl Generics {
         }
     }
 
+    pub fn from_union(u: &Union) -> Self {
+        let has_lifetime = u.cases.iter().filter_map(|v| v.item_type.as_ref())
+            .any(|v| Self::from_referenced(v).has_lifetime);
+        Generics {
+            has_lifetime
+        }
+    }
+
+    fn from_referenced(r: &Referenced) -> Self {
+        match r {
+            Referenced::Struct(_) => Generics {
+                has_lifetime: true
+            },
+            Referenced::Message(v) => Self::from_message(v)
+        }
+    }
+
     pub fn to_vec(&self) -> Vec<&'static str> {
         let mut generics = Vec::new();
         if self.has_lifetime {
@@ -189,11 +207,11 @@ impl crate::gen::base::message::Utilities for RustUtils {
         format!("{}<&'a [u8]>", type_name)
     }
 
-    fn gen_message_ref_type(type_name: &str) -> String {
-        format!("{}<'a>", type_name)
+    fn gen_message_ref_type(type_name: &str, msg: &Message) -> String {
+        format!("{}{}", type_name, Generics::from_message(msg).to_code())
     }
 
-    fn gen_union_ref_type(type_name: &str) -> String {
-        format!("{}<'a>", type_name)
+    fn gen_union_ref_type(type_name: &str, u: &Union) -> String {
+        format!("{}{}", type_name, Generics::from_union(u).to_code())
     }
 }
-- 
2.43.0


From 13236ab14c4e14f0f17f6938fde88ba099691d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 35/57] fix: items of a structure with a single 24 bits field
 use 32 bits

A single field structure is only equivalent to a scalar when its width is the
one of the scalar; the bytes differed from those of the structure and the high
bits which do not fit the field were written.
---
 compiler/src/compiler/message.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/src/compiler/message.rs b/compiler/src/compiler/message.rs
index ad2a248..ba9639c 100644
--- a/compiler/src/compiler/message.rs
+++ b/compiler/src/compiler/message.rs
@@ -133,7 +133,7 @@ impl Field {
                     Referenced::Struct(r) => {
                         if r.fields.len() == 1 && r.fields[0].as_fixed().is_some()
                             && r.fields[0].as_fixed().map(|v| v.view.is_transmute()).unwrap_or_default()
-                            && r.fields[0].as_fixed().map(|v| v.loc.bit_size % 8 == 0).unwrap_or_default() {
+                            && r.fields[0].as_fixed().map(|v| v.loc.bit_size == v.ty.get_byte_size() * 8).unwrap_or_default() {
                             let fixed = unsafe { r.fields[0].as_fixed().unwrap_unchecked() };
                             Ok(Field {
                                 name: value.name,
-- 
2.43.0


From 29d510a632203940210e1f7a57a2e9387dcd13b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 36/57] fix: items of an imported scalar structure lose its
 endianness

---
 compiler/src/compiler/message.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/src/compiler/message.rs b/compiler/src/compiler/message.rs
index ba9639c..897f057 100644
--- a/compiler/src/compiler/message.rs
+++ b/compiler/src/compiler/message.rs
@@ -145,7 +145,7 @@ impl Field {
                                     is_dyn_sized: false,
                                     is_element_dyn_sized: false
                                 },
-                                endianness: proto.endianness
+                                endianness: fixed.endianness
                             })
                         } else {
                             Ok(Field {
-- 
2.43.0


From fc01f9178cf7d7770c045f93301c33f3ae8896f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 37/57] fix: unions on an optional discriminant are accepted
 but do not compile

---
 compiler/src/compiler/message.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compiler/src/compiler/message.rs b/compiler/src/compiler/message.rs
index 897f057..7289bf5 100644
--- a/compiler/src/compiler/message.rs
+++ b/compiler/src/compiler/message.rs
@@ -246,6 +246,9 @@ impl Field {
                         None
                     }).ok_or_else(|| Error::UndefinedReference(on))?;
                 let r = proto.unions_by_name.get(&item_type).ok_or_else(|| Error::UndefinedReference(item_type))?;
+                if on_field.optional {
+                    return Err(Error::UnionTypeMismatch);
+                }
                 match &on_field.ty {
                     FieldType::Ref(v) => match v {
                         Referenced::Struct(v) => {
-- 
2.43.0


From f21816650dd9bb0f752583476fc5c5b15af7eef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 38/57] fix: fields after a payload and lists of payloads are
 accepted

A payload extends to the end of the input: what follows it is never read.
---
 compiler/src/compiler/error.rs   |  2 ++
 compiler/src/compiler/message.rs | 23 +++++++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/compiler/src/compiler/error.rs b/compiler/src/compiler/error.rs
index 6ed0f69..d78bdf0 100644
--- a/compiler/src/compiler/error.rs
+++ b/compiler/src/compiler/error.rs
@@ -33,6 +33,8 @@ simple_error! {
     pub Error {
         MultiPayload => "message has more than 1 payload",
         VarsizeAfterPayload => "message has 1 or more variable sized fields after the payload",
+        FieldAfterPayload => "message has 1 or more fields after the payload",
+        PayloadInList => "list items cannot have a payload",
         UnsupportedBitSize(usize) => "unsupported bit size for fixed field ({}), maximum is 64",
         UnsupportedType(StructFieldType) => "unsupported field type in struct: {:?}",
         UnsupportedViewType(SimpleType) => "unsupported view for type: {:?}",
diff --git a/compiler/src/compiler/message.rs b/compiler/src/compiler/message.rs
index 7289bf5..6dbed7c 100644
--- a/compiler/src/compiler/message.rs
+++ b/compiler/src/compiler/message.rs
@@ -98,6 +98,19 @@ pub enum FieldType {
 }
 
 impl FieldType {
+    /// Returns true if reading this field consumes the rest of the input whatever it is.
+    fn has_payload(&self) -> bool {
+        match self {
+            FieldType::Payload => true,
+            FieldType::Ref(Referenced::Message(v)) => v.has_payload(),
+            FieldType::Union(v) => v.r.cases.iter().any(|v| match &v.item_type {
+                Some(Referenced::Message(v)) => v.has_payload(),
+                _ => false
+            }),
+            _ => false
+        }
+    }
+
     pub fn is_message_reference(&self) -> bool {
         match self {
             FieldType::Ref(v) => match v {
@@ -191,6 +204,9 @@ impl Field {
                         })
                     },
                     Referenced::Message(item_type) => {
+                        if item_type.has_payload() {
+                            return Err(Error::PayloadInList);
+                        }
                         item_type.embedded.set(true);
                         Ok(Field {
                             name: value.name,
@@ -299,6 +315,10 @@ pub struct Message {
 }
 
 impl Message {
+    fn has_payload(&self) -> bool {
+        self.fields.iter().any(|v| v.ty.has_payload())
+    }
+
     pub fn is_embedded(&self) -> bool {
         self.embedded.get()
     }
@@ -309,6 +329,9 @@ impl Message {
         let mut is_dyn_sized = false;
         for v in value.fields {
             let field = Field::from_model(proto, &fields, v)?;
+            if fields.last().map(|v: &Field| v.ty.has_payload()).unwrap_or_default() {
+                return Err(Error::FieldAfterPayload);
+            }
             if field.size.is_dyn_sized {
                 is_dyn_sized = true;
             }
-- 
2.43.0


From 87bd26fea0db5f2303c47f68b3b62306e4a9846a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 39/57] fix: lists which do not end the input swallow what
 follows them

Only lists directly in the items of another list were read up to their last
item. Those nested deeper, or followed by a field, extended to the end of the
input, so that the fields or items after them were lost.
---
 compiler/src/compiler/message.rs            | 28 ++++++++++++++++++++-
 compiler/src/gen/base/message_from_slice.rs |  2 +-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/compiler/src/compiler/message.rs b/compiler/src/compiler/message.rs
index 6dbed7c..d61ca27 100644
--- a/compiler/src/compiler/message.rs
+++ b/compiler/src/compiler/message.rs
@@ -98,6 +98,17 @@ pub enum FieldType {
 }
 
 impl FieldType {
+    /// Marks the messages read by this field as embedded: something follows them in the input.
+    fn set_embedded(&self) {
+        match self {
+            FieldType::Ref(Referenced::Message(v)) => v.set_embedded(),
+            FieldType::Union(v) => v.r.cases.iter().for_each(|v| if let Some(Referenced::Message(v)) = &v.item_type {
+                v.set_embedded()
+            }),
+            _ => ()
+        }
+    }
+
     /// Returns true if reading this field consumes the rest of the input whatever it is.
     fn has_payload(&self) -> bool {
         match self {
@@ -207,7 +218,7 @@ impl Field {
                         if item_type.has_payload() {
                             return Err(Error::PayloadInList);
                         }
-                        item_type.embedded.set(true);
+                        item_type.set_embedded();
                         Ok(Field {
                             name: value.name,
                             ty: FieldType::List(ListField {
@@ -323,6 +334,18 @@ impl Message {
         self.embedded.get()
     }
 
+    fn set_embedded(&self) {
+        if !self.embedded.replace(true) {
+            self.fields.iter().for_each(|v| v.ty.set_embedded());
+        }
+    }
+
+    /// Returns true if a list field must be read up to its last item, otherwise it is read lazily
+    /// as it extends to the end of the input.
+    pub fn is_list_sized(&self, field: &Field) -> bool {
+        self.is_embedded() || self.fields.last().map(|v| v.name != field.name).unwrap_or_default()
+    }
+
     pub fn from_model(proto: &Protocol, value: crate::model::message::Message) -> Result<Message, Error> {
         let mut fields = Vec::with_capacity(value.fields.len());
         let mut dyn_sized_elem_count = 0;
@@ -344,6 +367,9 @@ impl Message {
             if dyn_sized_elem_count > 1 {
                 return Err(Error::MultiPayload)
             }
+            if let Some(v) = fields.last() {
+                v.ty.set_embedded();
+            }
             fields.push(field);
         }
         Ok(Message {
diff --git a/compiler/src/gen/base/message_from_slice.rs b/compiler/src/gen/base/message_from_slice.rs
index 65138d4..756a744 100644
--- a/compiler/src/gen/base/message_from_slice.rs
+++ b/compiler/src/gen/base/message_from_slice.rs
@@ -69,7 +69,7 @@ pub fn generate_field_type_inline<'a, U: Utilities>(msg: &Message, field: &'a Fi
             gen_optional::<U>(field.optional, type_path_by_name.get(&v.r.name))
         },
         FieldType::List(v) => {
-            match msg.is_embedded() {
+            match msg.is_list_sized(field) {
                 false => gen_optional::<U>(field.optional, template.scope()
                     .var("codec", U::get_value_type(field.endianness, v.ty))
                     .var("type_name", type_path_by_name.get(&v.item_type.name))
-- 
2.43.0


From 616a8a46ece1557d06d198a8619c23d12b0dcc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 40/57] fix: capitalizing a name which does not start with an
 ASCII character panics

---
 compiler/src/gen/template.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/compiler/src/gen/template.rs b/compiler/src/gen/template.rs
index b1afce5..412e86b 100644
--- a/compiler/src/gen/template.rs
+++ b/compiler/src/gen/template.rs
@@ -132,13 +132,14 @@ pub struct FunctionMap<'fragment> {
 }
 
 fn capitalize(value: &str) -> Cow<str> {
-    if value.len() == 0 {
-        return value.into();
-    }
+    let first_len = match value.chars().next() {
+        Some(v) => v.len_utf8(),
+        None => return value.into()
+    };
     if value.as_bytes()[0] >= b'A' && value.as_bytes()[0] <= b'Z' {
         value.into()
     } else {
-        (value[..1].to_ascii_uppercase() + &value[1..]).into()
+        (value[..first_len].to_ascii_uppercase() + &value[first_len..]).into()
     }
 }
 
-- 
2.43.0


From 59adceb45d36a2eab969c9a01dc449654badbc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 41/57] fix: blank lines of templates with CRLF line endings
 are not skipped

Between fragments, they failed the compilation of the template.
---
 compiler/src/gen/template.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/compiler/src/gen/template.rs b/compiler/src/gen/template.rs
index 412e86b..aec6e01 100644
--- a/compiler/src/gen/template.rs
+++ b/compiler/src/gen/template.rs
@@ -189,14 +189,10 @@ impl<'fragment, 'variable> Template<'fragment, 'variable> {
         let mut frag_stack = Vec::new();
         let lines = data.split(|v| *v == b'\n');
         for line in lines {
+            let line = line.strip_suffix(b"\r").unwrap_or(line);
             if line.is_empty() {
                 continue;
             }
-            let line = if line[line.len() - 1] == b'\r' {
-                &line[..line.len() - 1]
-            } else {
-                line
-            };
             if line.starts_with(b"#fragment push ") {
                 let name = std::str::from_utf8(&line[15..]).map_err(|_| Error::InvalidUTF8)?;
                 frag_stack.push(Fragment {
-- 
2.43.0


From 80c79a3c67b58bd3538feec892e6e37ddbd86f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 42/57] fix: lists of empty structures are accepted but panic
 when iterated

---
 compiler/src/compiler/error.rs   | 1 +
 compiler/src/compiler/message.rs | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/compiler/src/compiler/error.rs b/compiler/src/compiler/error.rs
index d78bdf0..b74d9d3 100644
--- a/compiler/src/compiler/error.rs
+++ b/compiler/src/compiler/error.rs
@@ -34,6 +34,7 @@ simple_error! {
         MultiPayload => "message has more than 1 payload",
         VarsizeAfterPayload => "message has 1 or more variable sized fields after the payload",
         FieldAfterPayload => "message has 1 or more fields after the payload",
+        ZeroSizedItem => "list items cannot be structures without fields",
         PayloadInList => "list items cannot have a payload",
         UnsupportedBitSize(usize) => "unsupported bit size for fixed field ({}), maximum is 64",
         UnsupportedType(StructFieldType) => "unsupported field type in struct: {:?}",
diff --git a/compiler/src/compiler/message.rs b/compiler/src/compiler/message.rs
index d61ca27..8df9476 100644
--- a/compiler/src/compiler/message.rs
+++ b/compiler/src/compiler/message.rs
@@ -200,6 +200,9 @@ impl Field {
                 let ty = FixedFieldType::from_max_value(max_len)?;
                 match r {
                     Referenced::Struct(item_type) => {
+                        if item_type.byte_size == 0 {
+                            return Err(Error::ZeroSizedItem);
+                        }
                         Ok(Field {
                             name: value.name,
                             ty: FieldType::Array(ArrayField {
-- 
2.43.0


From 61795a263d3fdec10eaa4dcafa244d885702fd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 43/57] fix: items of signed arrays narrower than their type
 lose their sign

---
 compiler/src/compiler/structure.rs |  7 +++++
 compiler/src/gen/base/structure.rs |  8 ++---
 compiler/src/gen/rust/util.rs      | 13 +++++---
 compiler/src/gen/swift/util.rs     |  6 ++--
 runtime/src/codec/bytes.rs         | 49 ++++++++++++++++++++++++++++++
 5 files changed, 71 insertions(+), 12 deletions(-)

diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index 1ccc4d5..684031d 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -74,6 +74,13 @@ impl FixedFieldType {
         }
     }
 
+    pub fn is_signed(&self) -> bool {
+        match self {
+            FixedFieldType::Int8 | FixedFieldType::Int16 | FixedFieldType::Int32 | FixedFieldType::Int64 => true,
+            _ => false
+        }
+    }
+
     pub fn is_float(&self) -> bool {
         match self {
             FixedFieldType::Float32 | FixedFieldType::Float64 => true,
diff --git a/compiler/src/gen/base/structure.rs b/compiler/src/gen/base/structure.rs
index a8459f7..31581e3 100644
--- a/compiler/src/gen/base/structure.rs
+++ b/compiler/src/gen/base/structure.rs
@@ -27,7 +27,7 @@
 // SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 use itertools::Itertools;
-use crate::compiler::structure::{Field, FieldView, FixedField, FixedFieldType, Structure};
+use crate::compiler::structure::{Field, FixedArrayField, FieldView, FixedField, FixedFieldType, Structure};
 use crate::compiler::util::TypePathMap;
 use crate::gen::template::{Scope, Template};
 use crate::model::protocol::Endianness;
@@ -38,7 +38,7 @@ pub trait Utilities {
     fn get_function_name_mut(field: &FixedField) -> &'static str;
     fn get_bit_codec_inline(endianness: Endianness) -> &'static str;
     fn get_byte_codec_inline(endianness: Endianness) -> &'static str;
-    fn get_byte_codec(endianness: Endianness) -> &'static str;
+    fn get_array_codec(field: &FixedArrayField) -> &'static str;
 }
 
 fn gen_field_getter<U: Utilities>(field: &Field, template: &Template, type_path_by_name: &TypePathMap) -> String {
@@ -66,7 +66,7 @@ fn gen_field_getter<U: Utilities>(field: &Field, template: &Template, type_path_
             code
         }
         Field::Array(v) => scope.var("raw_type", U::get_field_type(v.ty))
-            .var("codec", U::get_byte_codec(v.endianness)).var_d("bit_size", v.item_bit_size())
+            .var("codec", U::get_array_codec(v)).var_d("bit_size", v.item_bit_size())
             .render("getters", &["array"]).unwrap(),
         Field::Struct(v) => scope.var("type_name", type_path_by_name.get(&v.r.name))
             .render("getters", &["struct"]).unwrap()
@@ -98,7 +98,7 @@ fn gen_field_setter<U: Utilities>(field: &Field, template: &Template, type_path_
             code
         }
         Field::Array(v) => scope.var("raw_type", U::get_field_type(v.ty))
-            .var("codec", U::get_byte_codec(v.endianness)).var_d("bit_size", v.item_bit_size())
+            .var("codec", U::get_array_codec(v)).var_d("bit_size", v.item_bit_size())
             .render("setters", &["array"]).unwrap(),
         Field::Struct(v) => scope.var("type_name", type_path_by_name.get(&v.r.name))
             .render("setters", &["struct"]).unwrap()
diff --git a/compiler/src/gen/rust/util.rs b/compiler/src/gen/rust/util.rs
index 9386796..e8fe5e4 100644
--- a/compiler/src/gen/rust/util.rs
+++ b/compiler/src/gen/rust/util.rs
@@ -27,7 +27,7 @@
 // SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 use crate::compiler::message::{FieldType, Message, Referenced};
-use crate::compiler::structure::{FixedField, FixedFieldType};
+use crate::compiler::structure::{FixedArrayField, FixedField, FixedFieldType};
 use crate::compiler::union::Union;
 use crate::gen::base::message::StringType;
 use crate::model::protocol::Endianness;
@@ -145,10 +145,13 @@ impl crate::gen::base::structure::Utilities for RustUtils {
         }
     }
 
-    fn get_byte_codec(endianness: Endianness) -> &'static str {
-        match endianness {
-            Endianness::Little => "bp3d_proto::codec::ByteCodecLE",
-            Endianness::Big => "bp3d_proto::codec::ByteCodecBE"
+    fn get_array_codec(field: &FixedArrayField) -> &'static str {
+        let is_sign_extended = field.ty.is_signed() && field.item_bit_size() != field.ty.get_byte_size() * 8;
+        match (field.endianness, is_sign_extended) {
+            (Endianness::Little, false) => "bp3d_proto::codec::ByteCodecLE",
+            (Endianness::Big, false) => "bp3d_proto::codec::ByteCodecBE",
+            (Endianness::Little, true) => "bp3d_proto::codec::SignedByteCodecLE",
+            (Endianness::Big, true) => "bp3d_proto::codec::SignedByteCodecBE"
         }
     }
 }
diff --git a/compiler/src/gen/swift/util.rs b/compiler/src/gen/swift/util.rs
index 400dc64..d84016c 100644
--- a/compiler/src/gen/swift/util.rs
+++ b/compiler/src/gen/swift/util.rs
@@ -26,7 +26,7 @@
 // NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 // SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
-use crate::compiler::structure::{FixedField, FixedFieldType};
+use crate::compiler::structure::{FixedArrayField, FixedField, FixedFieldType};
 use crate::model::protocol::Endianness;
 
 macro_rules! gen_value_type {
@@ -86,8 +86,8 @@ impl crate::gen::base::structure::Utilities for SwiftUtils {
         }
     }
 
-    fn get_byte_codec(endianness: Endianness) -> &'static str {
-        match endianness {
+    fn get_array_codec(field: &FixedArrayField) -> &'static str {
+        match field.endianness {
             Endianness::Little => "BP3DProto.ByteCodecLE",
             Endianness::Big => "BP3DProto.ByteCodecBE"
         }
diff --git a/runtime/src/codec/bytes.rs b/runtime/src/codec/bytes.rs
index bccf345..bf03e76 100644
--- a/runtime/src/codec/bytes.rs
+++ b/runtime/src/codec/bytes.rs
@@ -100,6 +100,55 @@ impl ByteCodec for ByteCodecBE {
     }
 }
 
+/// A [ByteCodecLE] which extends the sign of values narrower than their type.
+pub struct SignedByteCodecLE;
+
+/// A [ByteCodecBE] which extends the sign of values narrower than their type.
+pub struct SignedByteCodecBE;
+
+fn sign_fill(most_significant: Option<&u8>) -> u8 {
+    match most_significant {
+        Some(v) if v & 0x80 != 0 => 0xFF,
+        _ => 0
+    }
+}
+
+impl ByteCodec for SignedByteCodecLE {
+    unsafe fn read_aligned<T: ReadBytes>(buffer: &[u8]) -> T {
+        ByteCodecLE::read_aligned(buffer)
+    }
+
+    unsafe fn read_unaligned<T: ReadBytes>(buffer: &[u8]) -> T {
+        let mut data = [sign_fill(buffer.last()); 8];
+        data[..buffer.len()].copy_from_slice(buffer);
+        Self::read_aligned::<T>(&data)
+    }
+
+    unsafe fn write_aligned<T: WriteBytes>(buffer: &mut [u8], value: T) {
+        ByteCodecLE::write_aligned(buffer, value);
+    }
+}
+
+impl ByteCodec for SignedByteCodecBE {
+    unsafe fn read_aligned<T: ReadBytes>(buffer: &[u8]) -> T {
+        ByteCodecBE::read_aligned(buffer)
+    }
+
+    unsafe fn read_unaligned<T: ReadBytes>(buffer: &[u8]) -> T {
+        let mut data = [sign_fill(buffer.first()); 8];
+        data[8 - buffer.len()..].copy_from_slice(buffer);
+        Self::read_aligned::<T>(&data[8 - size_of::<T>()..])
+    }
+
+    unsafe fn write_aligned<T: WriteBytes>(buffer: &mut [u8], value: T) {
+        ByteCodecBE::write_aligned(buffer, value);
+    }
+
+    unsafe fn write_unaligned<T: WriteBytes>(buffer: &mut [u8], value: T) {
+        ByteCodecBE::write_unaligned(buffer, value);
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use crate::codec::{ByteCodec, ByteCodecLE};
-- 
2.43.0


From 010dead895b3de42f908a34581a60cbb569da203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 44/57] fix: field sharing a byte with a nested structure of
 the other bit order overlaps it

---
 compiler/src/compiler/structure.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index 684031d..374ba12 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -326,6 +326,15 @@ impl Field {
         }
     }
 
+    /// Returns the bit order of the last bits of this field.
+    fn trailing_endianness(&self) -> Option<Endianness> {
+        match self {
+            Field::Fixed(v) => Some(v.endianness),
+            Field::Array(v) => Some(v.endianness),
+            Field::Struct(v) => v.r.fields.iter().filter_map(|v| v.trailing_endianness()).last()
+        }
+    }
+
     fn from_model(proto: &Protocol, last_bit_offset: usize, value: crate::model::structure::StructField) -> Result<(Self, usize), Error> {
         match value.info {
             StructFieldType::Struct { item_type } => {
@@ -398,10 +407,16 @@ pub struct Structure {
 impl Structure {
     pub fn from_model(proto: &Protocol, value: crate::model::structure::Structure) -> Result<Structure, Error> {
         let mut last_bit_offset = 0;
+        let mut last_endianness = proto.endianness;
         let fields = value.fields.into_iter().map(|v| {
+            if last_bit_offset % 8 != 0 && last_endianness != proto.endianness {
+                //The first bits of this field would be the last bits of the previous one.
+                return Err(Error::UnalignedStructure);
+            }
             let res = Field::from_model(proto, last_bit_offset, v);
-            if let Ok((_, new_offset)) = res {
-                last_bit_offset = new_offset
+            if let Ok((field, new_offset)) = &res {
+                last_bit_offset = *new_offset;
+                last_endianness = field.trailing_endianness().unwrap_or(last_endianness);
             }
             res.map(|(field, _)| field)
         });
-- 
2.43.0


From c0d6673316c21daeb9e0f073c6f6d5d5ab5a6aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 45/57] fix: types imported through a protocol which itself
 imports them get a wrong path

---
 compiler/src/compiler/protocol.rs | 18 +++++++++++++-----
 compiler/src/compiler/util.rs     |  4 ++++
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/compiler/src/compiler/protocol.rs b/compiler/src/compiler/protocol.rs
index e53245a..768ac20 100644
--- a/compiler/src/compiler/protocol.rs
+++ b/compiler/src/compiler/protocol.rs
@@ -34,7 +34,7 @@ use crate::compiler::r#enum::Enum;
 use crate::compiler::structure::Structure;
 use crate::compiler::union::Union;
 use crate::compiler::util::{ImportResolver, TypePathMap};
-use crate::model::protocol::Endianness;
+use crate::model::protocol::{Endianness, Import};
 
 #[derive(Clone, Debug)]
 pub struct Protocol {
@@ -51,6 +51,14 @@ pub struct Protocol {
     pub unions: Vec<Rc<Union>>
 }
 
+fn type_path<T: ImportResolver>(solver: &T, r: &Protocol, import: &Import) -> Result<String, Error> {
+    match r.type_path_by_name.get_imported(&import.type_name) {
+        //The type is not declared in the imported protocol, which itself imports it.
+        Some(v) => Ok(v.into()),
+        None => solver.get_full_type_path(&import.protocol, &import.type_name).ok_or(Error::SolverError)
+    }
+}
+
 impl Protocol {
     pub fn from_model<T: ImportResolver>(value: crate::model::Protocol, solver: &T) -> Result<Self, Error> {
         let mut proto = Protocol {
@@ -79,27 +87,27 @@ impl Protocol {
                             None => {
                                 match r.unions_by_name.get(&v.type_name) {
                                     Some(vv) => {
-                                        let type_path = solver.get_full_type_path(&v.protocol, &v.type_name).ok_or(Error::SolverError)?;
+                                        let type_path = type_path(solver, r, &v)?;
                                         proto.unions_by_name.insert(v.type_name, vv.clone());
                                         proto.type_path_by_name.add(vv.name.clone(), type_path);
                                     },
                                     None => {
                                         let msg = r.messages_by_name.get(&v.type_name).ok_or(Error::UndefinedReference(format!("{}::{}", v.protocol, v.type_name)))?;
-                                        let type_path = solver.get_full_type_path(&v.protocol, &v.type_name).ok_or(Error::SolverError)?;
+                                        let type_path = type_path(solver, r, &v)?;
                                         proto.messages_by_name.insert(v.type_name, msg.clone());
                                         proto.type_path_by_name.add(msg.name.clone(), type_path);
                                     }
                                 }
                             },
                             Some(vv) => {
-                                let type_path = solver.get_full_type_path(&v.protocol, &v.type_name).ok_or(Error::SolverError)?;
+                                let type_path = type_path(solver, r, &v)?;
                                 proto.enums_by_name.insert(v.type_name, vv.clone());
                                 proto.type_path_by_name.add(vv.name.clone(), type_path);
                             }
                         }
                     },
                     Some(vv) => {
-                        let type_path = solver.get_full_type_path(&v.protocol, &v.type_name).ok_or(Error::SolverError)?;
+                        let type_path = type_path(solver, r, &v)?;
                         proto.structs_by_name.insert(v.type_name, vv.clone());
                         proto.type_path_by_name.add(vv.name.clone(), type_path);
                     }
diff --git a/compiler/src/compiler/util.rs b/compiler/src/compiler/util.rs
index 87f2a14..adfd796 100644
--- a/compiler/src/compiler/util.rs
+++ b/compiler/src/compiler/util.rs
@@ -51,6 +51,10 @@ impl TypePathMap {
         self.type_path_by_name.insert(name, type_path);
     }
 
+    pub fn get_imported(&self, item_type: &str) -> Option<&str> {
+        self.type_path_by_name.get(item_type).map(|v| &**v)
+    }
+
     pub fn get<'a>(&'a self, item_type: &'a str) -> &'a str {
         match self.type_path_by_name.get(item_type) {
             None => item_type,
-- 
2.43.0


From 7ee52ee743efb864094b8262a6a3bbd4306c3d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:47 +0000
Subject: [PATCH 46/57] fix: optional structures do not compile

---
 compiler/src/gen/base/message_from_slice.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/src/gen/base/message_from_slice.rs b/compiler/src/gen/base/message_from_slice.rs
index 756a744..011a2ee 100644
--- a/compiler/src/gen/base/message_from_slice.rs
+++ b/compiler/src/gen/base/message_from_slice.rs
@@ -54,7 +54,8 @@ pub fn generate_field_type_inline<'a, U: Utilities>(msg: &Message, field: &'a Fi
     let msg_type = match &field.ty {
         FieldType::Fixed(ty) => gen_optional::<U>(field.optional, U::get_value_type_inline(field.endianness, ty.ty)),
         FieldType::Ref(v) => match v {
-            Referenced::Struct(v) => gen_optional::<U>(field.optional, type_path_by_name.get(&v.name)),
+            Referenced::Struct(v) if field.optional => U::gen_option_type_inline(&U::gen_struct_ref_type(type_path_by_name.get(&v.name))).into(),
+            Referenced::Struct(v) => type_path_by_name.get(&v.name).into(),
             Referenced::Message(v) => gen_optional::<U>(field.optional, type_path_by_name.get(&v.name))
         }
         FieldType::NullTerminatedString => gen_optional_ref::<U>(field.optional, U::get_string_type_inline(StringType::NullTerminated)),
-- 
2.43.0


From 16b065f80abdfcec3a099f3c00fcbacfd4cf850a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:21 +0000
Subject: [PATCH 47/57] fix: template variable followed by a doubled brace is
 not replaced

---
 compiler/src/gen/template.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/compiler/src/gen/template.rs b/compiler/src/gen/template.rs
index aec6e01..ef7ac57 100644
--- a/compiler/src/gen/template.rs
+++ b/compiler/src/gen/template.rs
@@ -210,16 +210,18 @@ impl<'fragment, 'variable> Template<'fragment, 'variable> {
             } else {
                 let cur_fragment = frag_stack.last_mut().ok_or(Error::NoFragment)?;
                 let mut token = Token::new(line);
+                let mut in_variable = false;
                 while token.has_next() {
                     if token.cur() == b'{' {
-                        if token.next() == Some(b'{') {
+                        in_variable = token.next() != Some(b'{');
+                        if !in_variable {
                             token.inc();
                         }
                         if let Some(component) = token.pop()?.map(Component::Constant) {
                             cur_fragment.content.push(component);
                         }
                     } else if token.cur() == b'}' {
-                        if token.next() == Some(b'}') {
+                        if !in_variable && token.next() == Some(b'}') {
                             token.inc();
                             if let Some(component) = token.pop()?.map(Component::Constant) {
                                 cur_fragment.content.push(component);
@@ -228,6 +230,7 @@ impl<'fragment, 'variable> Template<'fragment, 'variable> {
                             if let Some(component) = token.pop()?.map(|v| Component::parse_variable(&function_map, v)) {
                                 cur_fragment.content.push(component?);
                             }
+                            in_variable = false;
                         }
                     }
                     token.inc()
-- 
2.43.0


From 3e3b1e6e17e175ffd2306fe5a69d8f33acb28476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:54 +0000
Subject: [PATCH 48/57] fix: union field named after a case of its union does
 not compile

---
 compiler/src/gen/rust/message.from_slice.template | 1 +
 compiler/src/gen/rust/message.offsets.template    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/compiler/src/gen/rust/message.from_slice.template b/compiler/src/gen/rust/message.from_slice.template
index b9ebfca..071e139 100644
--- a/compiler/src/gen/rust/message.from_slice.template
+++ b/compiler/src/gen/rust/message.from_slice.template
@@ -18,6 +18,7 @@ impl<'a> bp3d_proto::message::FromSlice<'a> for {msg_name}{generics} {{
 #fragment push field_union
         let __{name}_msg = {type}::from_slice(&__slice[__byte_offset..], &{on_name})?;
         __byte_offset += __{name}_msg.size();
+        #[allow(bindings_with_variant_name)]
         let {name} = __{name}_msg.into_inner();
 #fragment pop
         let data = {msg_name} {{
diff --git a/compiler/src/gen/rust/message.offsets.template b/compiler/src/gen/rust/message.offsets.template
index eef164e..5dc1f7d 100644
--- a/compiler/src/gen/rust/message.offsets.template
+++ b/compiler/src/gen/rust/message.offsets.template
@@ -43,6 +43,7 @@ impl<'a> bp3d_proto::message::FromSliceWithOffsets<'a> for {msg_name}{generics}
         __offsets.{name}.start = __byte_offset;
         __byte_offset += __{name}_msg.size();
         __offsets.{name}.end = __byte_offset;
+        #[allow(bindings_with_variant_name)]
         let {name} = __{name}_msg.into_inner();
 #fragment pop
         let data = {msg_name} {{
-- 
2.43.0


From 0751251af385bf62b942bffeb43c727e21b5a86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:17 +0000
Subject: [PATCH 49/57] fix: schema integers outside tagged types are rounded,
 truncated or saturated

---
 compiler/src/model/integer.rs   | 49 +++++++++++++++++++++++++++++++++
 compiler/src/model/mod.rs       |  1 +
 compiler/src/model/protocol.rs  |  2 ++
 compiler/src/model/structure.rs |  2 ++
 4 files changed, 54 insertions(+)
 create mode 100644 compiler/src/model/integer.rs

diff --git a/compiler/src/model/integer.rs b/compiler/src/model/integer.rs
new file mode 100644
index 0000000..5ebf105
--- /dev/null
+++ b/compiler/src/model/integer.rs
@@ -0,0 +1,49 @@
+// Copyright (c) 2024, BlockProject 3D
+//
+// All rights reserved.
+//
+// Redistribution and use in source and binary forms, with or without modification,
+// are permitted provided that the following conditions are met:
+//
+//     * Redistributions of source code must retain the above copyright notice,
+//       this list of conditions and the following disclaimer.
+//     * Redistributions in binary form must reproduce the above copyright notice,
+//       this list of conditions and the following disclaimer in the documentation
+//       and/or other materials provided with the distribution.
+//     * Neither the name of BlockProject 3D nor the names of its contributors
+//       may be used to endorse or promote products derived from this software
+//       without specific prior written permission.
+//
+// THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS
+// "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT
+// LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS FOR
+// A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL THE COPYRIGHT OWNER OR
+// CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT, INCIDENTAL, SPECIAL,
+// EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING, BUT NOT LIMITED TO,
+// PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES; LOSS OF USE, DATA, OR
+// PROFITS; OR BUSINESS INTERRUPTION) HOWEVER CAUSED AND ON ANY THEORY OF
+// LIABILITY, WHETHER IN CONTRACT, STRICT LIABILITY, OR TORT (INCLUDING
+// NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
+// SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
+
+use std::collections::HashMap;
+use serde::{Deserialize, Deserializer};
+
+//The JSON5 parser reads numbers as f64 when asked for an integer: large integers are rounded, and
+//numbers which aren't integers are truncated or saturated. The type of the number is only checked
+//when it is not told what to expect.
+#[derive(Deserialize)]
+#[serde(untagged)]
+enum Integer {
+    Value(usize)
+}
+
+pub fn deserialize_option<'de, D: Deserializer<'de>>(deserializer: D) -> Result<Option<usize>, D::Error> {
+    let value: Option<Integer> = Deserialize::deserialize(deserializer)?;
+    Ok(value.map(|Integer::Value(v)| v))
+}
+
+pub fn deserialize_map<'de, D: Deserializer<'de>>(deserializer: D) -> Result<HashMap<String, usize>, D::Error> {
+    let map: HashMap<String, Integer> = Deserialize::deserialize(deserializer)?;
+    Ok(map.into_iter().map(|(k, Integer::Value(v))| (k, v)).collect())
+}
diff --git a/compiler/src/model/mod.rs b/compiler/src/model/mod.rs
index 27d121b..cbfc25d 100644
--- a/compiler/src/model/mod.rs
+++ b/compiler/src/model/mod.rs
@@ -28,6 +28,7 @@
 
 //TODO: Support for static sized unions in structures
 
+mod integer;
 pub mod message;
 pub mod structure;
 pub mod protocol;
diff --git a/compiler/src/model/protocol.rs b/compiler/src/model/protocol.rs
index e5932ae..d9115b6 100644
--- a/compiler/src/model/protocol.rs
+++ b/compiler/src/model/protocol.rs
@@ -28,6 +28,7 @@
 
 use std::collections::HashMap;
 use serde::Deserialize;
+use crate::model::integer;
 use crate::model::message::Message;
 use crate::model::structure::Structure;
 use crate::model::union::Union;
@@ -49,6 +50,7 @@ pub struct Import {
 #[derive(Clone, Debug, Deserialize)]
 pub struct Enum {
     pub name: String,
+    #[serde(deserialize_with = "integer::deserialize_map")]
     pub variants: HashMap<String, usize>
 }
 
diff --git a/compiler/src/model/structure.rs b/compiler/src/model/structure.rs
index e7394bd..2e513f1 100644
--- a/compiler/src/model/structure.rs
+++ b/compiler/src/model/structure.rs
@@ -27,6 +27,7 @@
 // SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 use serde::Deserialize;
+use crate::model::integer;
 
 #[derive(Clone, Debug, Deserialize)]
 #[serde(rename_all = "kebab-case")]
@@ -101,6 +102,7 @@ pub struct StructField {
     pub name: String,
     pub info: StructFieldType,
     pub view: Option<StructFieldView>,
+    #[serde(default, deserialize_with = "integer::deserialize_option")]
     pub array_len: Option<usize>
 }
 
-- 
2.43.0


From 77e4d985fbde9e04116856e659dd4b498ee17533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:48 +0000
Subject: [PATCH 50/57] fix: payload and bit order detection takes exponential
 time on nested types

---
 compiler/src/compiler/message.rs   | 12 +++++-------
 compiler/src/compiler/structure.rs | 13 ++++++++-----
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/compiler/src/compiler/message.rs b/compiler/src/compiler/message.rs
index 8df9476..87223d6 100644
--- a/compiler/src/compiler/message.rs
+++ b/compiler/src/compiler/message.rs
@@ -113,9 +113,9 @@ impl FieldType {
     fn has_payload(&self) -> bool {
         match self {
             FieldType::Payload => true,
-            FieldType::Ref(Referenced::Message(v)) => v.has_payload(),
+            FieldType::Ref(Referenced::Message(v)) => v.has_payload,
             FieldType::Union(v) => v.r.cases.iter().any(|v| match &v.item_type {
-                Some(Referenced::Message(v)) => v.has_payload(),
+                Some(Referenced::Message(v)) => v.has_payload,
                 _ => false
             }),
             _ => false
@@ -218,7 +218,7 @@ impl Field {
                         })
                     },
                     Referenced::Message(item_type) => {
-                        if item_type.has_payload() {
+                        if item_type.has_payload {
                             return Err(Error::PayloadInList);
                         }
                         item_type.set_embedded();
@@ -325,14 +325,11 @@ pub struct Message {
     pub name: String,
     pub fields: Vec<Field>,
     pub size: SizeInfo,
+    has_payload: bool,
     embedded: Cell<bool>
 }
 
 impl Message {
-    fn has_payload(&self) -> bool {
-        self.fields.iter().any(|v| v.ty.has_payload())
-    }
-
     pub fn is_embedded(&self) -> bool {
         self.embedded.get()
     }
@@ -377,6 +374,7 @@ impl Message {
         }
         Ok(Message {
             name: value.name,
+            has_payload: fields.iter().any(|v| v.ty.has_payload()),
             fields,
             size: SizeInfo {
                 is_dyn_sized,
diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index 374ba12..6a92042 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -331,7 +331,7 @@ impl Field {
         match self {
             Field::Fixed(v) => Some(v.endianness),
             Field::Array(v) => Some(v.endianness),
-            Field::Struct(v) => v.r.fields.iter().filter_map(|v| v.trailing_endianness()).last()
+            Field::Struct(v) => v.r.trailing_endianness
         }
     }
 
@@ -401,14 +401,15 @@ pub struct Structure {
     pub name: String,
     pub fields: Vec<Field>,
     pub byte_size: usize,
-    pub bit_size: usize
+    pub bit_size: usize,
+    trailing_endianness: Option<Endianness>
 }
 
 impl Structure {
     pub fn from_model(proto: &Protocol, value: crate::model::structure::Structure) -> Result<Structure, Error> {
         let mut last_bit_offset = 0;
         let mut last_endianness = proto.endianness;
-        let fields = value.fields.into_iter().map(|v| {
+        let fields: Result<Vec<Field>, Error> = value.fields.into_iter().map(|v| {
             if last_bit_offset % 8 != 0 && last_endianness != proto.endianness {
                 //The first bits of this field would be the last bits of the previous one.
                 return Err(Error::UnalignedStructure);
@@ -419,10 +420,12 @@ impl Structure {
                 last_endianness = field.trailing_endianness().unwrap_or(last_endianness);
             }
             res.map(|(field, _)| field)
-        });
+        }).collect();
+        let fields = fields?;
         Ok(Structure {
             name: value.name,
-            fields: fields.collect::<Result<Vec<Field>, Error>>()?,
+            trailing_endianness: fields.iter().rev().find_map(|v| v.trailing_endianness()),
+            fields,
             bit_size: last_bit_offset,
             byte_size: if last_bit_offset % 8 != 0 {
                 (last_bit_offset / 8) + 1
-- 
2.43.0


From 749375b6154052cd3bbab0eabb506921978fd0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:20 +0000
Subject: [PATCH 51/57] fix: lifetime detection takes exponential time on
 nested messages

---
 compiler/src/compiler/message.rs | 20 ++++++++++++++++++++
 compiler/src/compiler/union.rs   |  5 +++++
 compiler/src/gen/rust/util.rs    | 27 +++------------------------
 3 files changed, 28 insertions(+), 24 deletions(-)

diff --git a/compiler/src/compiler/message.rs b/compiler/src/compiler/message.rs
index 87223d6..8f7ff80 100644
--- a/compiler/src/compiler/message.rs
+++ b/compiler/src/compiler/message.rs
@@ -49,6 +49,14 @@ impl Referenced {
         }
     }
 
+    /// Returns true if the value of this type borrows from the input.
+    pub fn is_borrowed(&self) -> bool {
+        match self {
+            Referenced::Struct(_) => true,
+            Referenced::Message(v) => v.is_borrowed
+        }
+    }
+
     pub fn lookup(proto: &Protocol, reference_name: &str) -> Option<Self> {
         proto.structs_by_name.get(reference_name)
             .map(|v| Referenced::Struct(v.clone()))
@@ -122,6 +130,16 @@ impl FieldType {
         }
     }
 
+    /// Returns true if the value of this field borrows from the input.
+    fn is_borrowed(&self) -> bool {
+        match self {
+            FieldType::Fixed(_) => false,
+            FieldType::Ref(v) => v.is_borrowed(),
+            FieldType::Union(v) => v.r.is_borrowed(),
+            _ => true
+        }
+    }
+
     pub fn is_message_reference(&self) -> bool {
         match self {
             FieldType::Ref(v) => match v {
@@ -325,6 +343,7 @@ pub struct Message {
     pub name: String,
     pub fields: Vec<Field>,
     pub size: SizeInfo,
+    pub is_borrowed: bool,
     has_payload: bool,
     embedded: Cell<bool>
 }
@@ -374,6 +393,7 @@ impl Message {
         }
         Ok(Message {
             name: value.name,
+            is_borrowed: fields.iter().any(|v| v.ty.is_borrowed()),
             has_payload: fields.iter().any(|v| v.ty.has_payload()),
             fields,
             size: SizeInfo {
diff --git a/compiler/src/compiler/union.rs b/compiler/src/compiler/union.rs
index b971d4f..ddfeadd 100644
--- a/compiler/src/compiler/union.rs
+++ b/compiler/src/compiler/union.rs
@@ -154,6 +154,11 @@ pub struct Union  {
 }
 
 impl Union {
+    /// Returns true if the value of this union borrows from the input.
+    pub fn is_borrowed(&self) -> bool {
+        self.cases.iter().filter_map(|v| v.item_type.as_ref()).any(|v| v.is_borrowed())
+    }
+
     pub fn from_model(proto: &Protocol, value: crate::model::union::Union) -> Result<Self, Error> {
         let discriminant = DiscriminantField::from_model(proto, value.discriminant)?;
         let cases = value.cases.into_iter().map(|v| UnionField::from_model(proto, discriminant.get_leaf(), v))
diff --git a/compiler/src/gen/rust/util.rs b/compiler/src/gen/rust/util.rs
index e8fe5e4..91b6e7a 100644
--- a/compiler/src/gen/rust/util.rs
+++ b/compiler/src/gen/rust/util.rs
@@ -26,7 +26,7 @@
 // NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 // SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
-use crate::compiler::message::{FieldType, Message, Referenced};
+use crate::compiler::message::Message;
 use crate::compiler::structure::{FixedArrayField, FixedField, FixedFieldType};
 use crate::compiler::union::Union;
 use crate::gen::base::message::StringType;
@@ -38,35 +38,14 @@ pub struct Generics {
 
 impl Generics {
     pub fn from_message(msg: &Message) -> Self {
-        let has_lifetime = msg.fields.iter().any(|v| match &v.ty {
-            FieldType::Ref(v) => Self::from_referenced(v).has_lifetime,
-            FieldType::NullTerminatedString => true,
-            FieldType::VarcharString(_) => true,
-            FieldType::Array(_) => true,
-            FieldType::Union(v) => Self::from_union(&v.r).has_lifetime,
-            FieldType::List(_) => true,
-            FieldType::Payload => true,
-            _ => false
-        });
         Generics {
-            has_lifetime
+            has_lifetime: msg.is_borrowed
         }
     }
 
     pub fn from_union(u: &Union) -> Self {
-        let has_lifetime = u.cases.iter().filter_map(|v| v.item_type.as_ref())
-            .any(|v| Self::from_referenced(v).has_lifetime);
         Generics {
-            has_lifetime
-        }
-    }
-
-    fn from_referenced(r: &Referenced) -> Self {
-        match r {
-            Referenced::Struct(_) => Generics {
-                has_lifetime: true
-            },
-            Referenced::Message(v) => Self::from_message(v)
+            has_lifetime: u.is_borrowed()
         }
     }
 
-- 
2.43.0


From 4c0e9a2b8698398394b330728accc1a661491663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:23 +0000
Subject: [PATCH 52/57] fix: entry file includes wrong paths when the output
 directory is relative

---
 compiler/src/interface.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/src/interface.rs b/compiler/src/interface.rs
index 6855294..7025084 100644
--- a/compiler/src/interface.rs
+++ b/compiler/src/interface.rs
@@ -154,7 +154,8 @@ impl Protoc {
             let iter = files_iter.into_iter().map(|v| v.write(&out_path))
                 .filter_map(|v| match v {
                     Ok(o) => match o {
-                        Some(o) => Some(Ok(o)),
+                        //A relative path would be looked up from the directory of the umbrella file.
+                        Some(o) => Some(std::path::absolute(o)),
                         None => None
                     },
                     Err(e) => Some(Err(e))
-- 
2.43.0


From be751920881f12785a5f013dbc913ba04a7b1455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:48 +0000
Subject: [PATCH 53/57] fix: a deeply nested schema overflows the stack when
 loaded

---
 compiler/src/interface.rs | 53 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 51 insertions(+), 2 deletions(-)

diff --git a/compiler/src/interface.rs b/compiler/src/interface.rs
index 7025084..896089e 100644
--- a/compiler/src/interface.rs
+++ b/compiler/src/interface.rs
@@ -40,6 +40,55 @@ pub struct Loader {
     imported_models: Vec<(String, model::Protocol)>
 }
 
+//The parser recurses once per level of nesting: refuse what could overflow the stack.
+const MAX_NESTING: usize = 128;
+
+fn nesting(content: &str) -> usize {
+    let mut chars = content.chars().peekable();
+    let mut depth: usize = 0;
+    let mut max = 0;
+    while let Some(c) = chars.next() {
+        match c {
+            '{' | '[' => {
+                depth += 1;
+                max = max.max(depth);
+            },
+            '}' | ']' => depth = depth.saturating_sub(1),
+            '"' | '\'' => while let Some(v) = chars.next() {
+                match v {
+                    '\\' => {
+                        chars.next();
+                    },
+                    v if v == c => break,
+                    _ => ()
+                }
+            },
+            '/' if chars.peek() == Some(&'/') => {
+                //Same line terminators as the parser.
+                chars.find(|v| matches!(v, '\n' | '\r' | '\u{2028}' | '\u{2029}'));
+            },
+            '/' if chars.peek() == Some(&'*') => {
+                chars.next();
+                while let Some(v) = chars.next() {
+                    if v == '*' && chars.peek() == Some(&'/') {
+                        chars.next();
+                        break;
+                    }
+                }
+            },
+            _ => ()
+        }
+    }
+    max
+}
+
+fn parse_model(content: &str) -> Result<model::Protocol, Error> {
+    if nesting(content) > MAX_NESTING {
+        return Err(Error::Model(serde::de::Error::custom("too many levels of nesting")));
+    }
+    json5::from_str(content).map_err(Error::Model)
+}
+
 impl Loader {
     pub fn new() -> Self {
         Self {
@@ -50,14 +99,14 @@ impl Loader {
 
     pub fn load(&mut self, path: impl AsRef<Path>) -> Result<(), Error> {
         let content = std::fs::read_to_string(path).map_err(Error::Io)?;
-        let model: model::Protocol = json5::from_str(&content).map_err(Error::Model)?;
+        let model: model::Protocol = parse_model(&content)?;
         self.models.push(model);
         Ok(())
     }
 
     pub fn import(&mut self, path: impl AsRef<Path>, import_path: impl Into<String>) -> Result<(), Error> {
         let content = std::fs::read_to_string(path).map_err(Error::Io)?;
-        let model: model::Protocol = json5::from_str(&content).map_err(Error::Model)?;
+        let model: model::Protocol = parse_model(&content)?;
         self.imported_models.push((import_path.into(), model));
         Ok(())
     }
-- 
2.43.0


From 9f7b2616f3748d2d79326e4f37a2390dcdda9d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:35 +0000
Subject: [PATCH 54/57] fix: items of boolean arrays wider than one byte are
 misread

---
 compiler/src/gen/rust/util.rs |  6 ++++++
 runtime/src/codec/bytes.rs    | 34 ++++++++++++++++++++++++++++++++++
 2 files changed, 40 insertions(+)

diff --git a/compiler/src/gen/rust/util.rs b/compiler/src/gen/rust/util.rs
index 91b6e7a..e4a0da1 100644
--- a/compiler/src/gen/rust/util.rs
+++ b/compiler/src/gen/rust/util.rs
@@ -125,6 +125,12 @@ impl crate::gen::base::structure::Utilities for RustUtils {
     }
 
     fn get_array_codec(field: &FixedArrayField) -> &'static str {
+        if field.ty == FixedFieldType::Bool && field.item_bit_size() != 8 {
+            return match field.endianness {
+                Endianness::Little => "bp3d_proto::codec::BoolByteCodecLE",
+                Endianness::Big => "bp3d_proto::codec::BoolByteCodecBE"
+            };
+        }
         let is_sign_extended = field.ty.is_signed() && field.item_bit_size() != field.ty.get_byte_size() * 8;
         match (field.endianness, is_sign_extended) {
             (Endianness::Little, false) => "bp3d_proto::codec::ByteCodecLE",
diff --git a/runtime/src/codec/bytes.rs b/runtime/src/codec/bytes.rs
index bf03e76..eee0c33 100644
--- a/runtime/src/codec/bytes.rs
+++ b/runtime/src/codec/bytes.rs
@@ -149,6 +149,40 @@ impl ByteCodec for SignedByteCodecBE {
     }
 }
 
+/// A [ByteCodecLE] for booleans wider than one byte.
+pub struct BoolByteCodecLE;
+
+/// A [ByteCodecBE] for booleans wider than one byte.
+pub struct BoolByteCodecBE;
+
+macro_rules! impl_bool_codec {
+    ($name: ident: $base: ident) => {
+        impl ByteCodec for $name {
+            unsafe fn read_aligned<T: ReadBytes>(buffer: &[u8]) -> T {
+                $base::read_aligned(buffer)
+            }
+
+            unsafe fn read_unaligned<T: ReadBytes>(buffer: &[u8]) -> T {
+                //Any bit makes the value true.
+                let value = buffer.iter().fold(0, |a, b| a | b);
+                $base::read_unaligned(&[value])
+            }
+
+            unsafe fn write_aligned<T: WriteBytes>(buffer: &mut [u8], value: T) {
+                $base::write_aligned(buffer, value);
+            }
+
+            unsafe fn write_unaligned<T: WriteBytes>(buffer: &mut [u8], value: T) {
+                buffer.fill(0);
+                $base::write_unaligned(buffer, value);
+            }
+        }
+    };
+}
+
+impl_bool_codec!(BoolByteCodecLE: ByteCodecLE);
+impl_bool_codec!(BoolByteCodecBE: ByteCodecBE);
+
 #[cfg(test)]
 mod tests {
     use crate::codec::{ByteCodec, ByteCodecLE};
-- 
2.43.0


From 86cf4b1977b5919d8ef5869d08476bbff436f1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:52 +0000
Subject: [PATCH 55/57] fix: unions of messages do not compile unless messages
 are both read and written

---
 compiler/src/gen/rust/mod.rs   |  8 ++++++--
 compiler/src/gen/rust/union.rs | 37 +++++++++++++++++++++++++++++++---
 2 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/compiler/src/gen/rust/mod.rs b/compiler/src/gen/rust/mod.rs
index a4d315d..abd3df8 100644
--- a/compiler/src/gen/rust/mod.rs
+++ b/compiler/src/gen/rust/mod.rs
@@ -46,7 +46,7 @@ use crate::gen::rust::message_offsets::gen_message_offsets_decl;
 use crate::gen::rust::message_write::gen_message_write_impl;
 use crate::gen::rust::r#enum::gen_enum_decl;
 use crate::gen::rust::structure::gen_structure_decl;
-use crate::gen::rust::union::gen_union_decl;
+use crate::gen::rust::union::{gen_union_decl, gen_union_from_slice, gen_union_write};
 
 simple_error! {
     pub Error {
@@ -66,6 +66,8 @@ impl Generator for GeneratorRust {
         let decl_structures = proto.structs.iter().map(|v| gen_structure_decl(v, &proto.type_path_by_name)).join("\n");
         let decl_enums = proto.enums.iter().map(|v| gen_enum_decl(v)).join("\n");
         let decl_unions = proto.unions.iter().map(|v| gen_union_decl(v, &proto.type_path_by_name)).join("\n");
+        let impl_from_slice_unions = proto.unions.iter().map(|v| gen_union_from_slice(v, &proto.type_path_by_name)).join("");
+        let impl_write_unions = proto.unions.iter().map(|v| gen_union_write(v, &proto.type_path_by_name)).join("");
         let decl_messages_code_offsets = proto.messages.iter().map(|v| gen_message_offsets_decl(v, &proto.type_path_by_name)).join("\n");
         Ok(vec![
             File::new(FileType::Message, "messages.rs", decl_messages_code),
@@ -74,7 +76,9 @@ impl Generator for GeneratorRust {
             File::new(FileType::MessageReading, "messages_offsets.rs", decl_messages_code_offsets),
             File::new(FileType::Structure, "structures.rs", decl_structures),
             File::new(FileType::Enum, "enums.rs", decl_enums),
-            File::new(FileType::Union, "unions.rs", decl_unions)
+            File::new(FileType::Union, "unions.rs", decl_unions),
+            File::new(FileType::MessageReading, "unions_from_slice.rs", impl_from_slice_unions),
+            File::new(FileType::MessageWriting, "unions_write.rs", impl_write_unions)
         ])
     }
 
diff --git a/compiler/src/gen/rust/union.rs b/compiler/src/gen/rust/union.rs
index 9511f8c..77ae4de 100644
--- a/compiler/src/gen/rust/union.rs
+++ b/compiler/src/gen/rust/union.rs
@@ -123,12 +123,41 @@ fn gen_union_as_getters(u: &Union, template: &Template, type_path_by_name: &Type
     template.scope().var("cases", cases).render("", &["getters"]).unwrap()
 }
 
-pub fn gen_union_decl(u: &Union, type_path_by_name: &TypePathMap) -> String {
+/// Returns true if reading and writing this union reads and writes messages.
+fn has_message(u: &Union) -> bool {
+    u.cases.iter().any(|v| match v.item_type {
+        Some(Referenced::Message(_)) => true,
+        _ => false
+    })
+}
+
+fn compile_template<'a>(u: &'a Union, type_path_by_name: &'a TypePathMap) -> Template<'static, 'a> {
     let mut template = Template::compile(TEMPLATE).unwrap();
     template.var("union_name", &u.name).var("generics", Generics::from_union(u).to_code())
         .var("discriminant_path_mut", get_discriminant_path_mut(u))
         .var("discriminant_path", get_discriminant_path(u))
         .var("discriminant_type", type_path_by_name.get(&u.discriminant.root.name));
+    template
+}
+
+/// Generates the reading part of a union of messages, only available when messages can be read.
+pub fn gen_union_from_slice(u: &Union, type_path_by_name: &TypePathMap) -> String {
+    if !has_message(u) {
+        return String::new();
+    }
+    gen_union_from_slice_impl(u, &compile_template(u, type_path_by_name), type_path_by_name)
+}
+
+/// Generates the writing part of a union of messages, only available when messages can be written.
+pub fn gen_union_write(u: &Union, type_path_by_name: &TypePathMap) -> String {
+    if !has_message(u) {
+        return String::new();
+    }
+    gen_union_write_to_impl(u, &compile_template(u, type_path_by_name), type_path_by_name)
+}
+
+pub fn gen_union_decl(u: &Union, type_path_by_name: &TypePathMap) -> String {
+    let template = compile_template(u, type_path_by_name);
     let cases = u.cases.iter().map(|case| match &case.item_type {
         None => template.scope().var("name", &case.name).render("decl", &["none"]).unwrap(),
         Some(Referenced::Struct(v)) => template.scope()
@@ -140,8 +169,10 @@ pub fn gen_union_decl(u: &Union, type_path_by_name: &TypePathMap) -> String {
             .render("decl", &["message"]).unwrap()
     }).join("");
     let mut code = template.scope().var("cases", cases).render("", &["decl"]).unwrap();
-    code += &gen_union_from_slice_impl(u, &template, type_path_by_name);
-    code += &gen_union_write_to_impl(u, &template, type_path_by_name);
+    if !has_message(u) {
+        code += &gen_union_from_slice_impl(u, &template, type_path_by_name);
+        code += &gen_union_write_to_impl(u, &template, type_path_by_name);
+    }
     code += &gen_union_set_discriminant(u, &template);
     code += &gen_union_as_getters(u, &template, type_path_by_name);
     code
-- 
2.43.0


From a56f226163636afc4cb3280bf82df1bb12edb8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:24 +0000
Subject: [PATCH 56/57] fix: generating two files of a sub-folder, or twice,
 fails

The folder of a file was created alone and without looking whether it exists: the
second file of a sub-folder, any file two folders deep and generating again over an
existing output all failed.
---
 compiler/src/gen/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/src/gen/mod.rs b/compiler/src/gen/mod.rs
index b1015bd..dd4d9de 100644
--- a/compiler/src/gen/mod.rs
+++ b/compiler/src/gen/mod.rs
@@ -66,9 +66,9 @@ impl File {
 
     pub fn write(self, out_directory: &Path) -> std::io::Result<Option<PathBuf>> {
         if self.data.len() > 1 {
-            let sub_folder = self.name.find("/").map(|id| &self.name[..id]);
+            let sub_folder = self.name.rfind("/").map(|id| &self.name[..id]);
             if let Some(sub_folder) = sub_folder {
-                std::fs::create_dir(out_directory.join(sub_folder))?;
+                std::fs::create_dir_all(out_directory.join(sub_folder))?;
             }
             let path = out_directory.join(&*self.name);
             std::fs::write(&path, self.data)?;
-- 
2.43.0


From 979c73e4453c8b4771f45261ffe9d2359364af38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:25 +0000
Subject: [PATCH 57/57] fix: lists of empty messages take the time of their
 announced length

A few bytes announcing 2^64 items of a message without fields kept the reader
busy forever.
---
 runtime/src/message/util/list.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtime/src/message/util/list.rs b/runtime/src/message/util/list.rs
index 4966668..5119290 100644
--- a/runtime/src/message/util/list.rs
+++ b/runtime/src/message/util/list.rs
@@ -52,6 +52,10 @@ impl<'a, T: FromSlice<'a, Output: ToUsize>, Item: FromSlice<'a, Output = Item>>
         let mut total_size: usize = 0;
         for _ in 0..len {
             let msg = Item::from_slice(&data[total_size..])?;
+            if msg.size() == 0 {
+                //All following items are read from the same bytes, and are empty as well.
+                break;
+            }
             total_size += msg.size();
         }
         let data = &slice[control_size..control_size + total_size];
-- 
2.43.0

