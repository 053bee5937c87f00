From e997059f088c610570bfdcf633c32c5b9a88db8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:44 +0000
Subject: [PATCH 01/13] fix: do not overflow the shift when reading very long
 varints

---
 runtime/src/uleb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/uleb.rs b/runtime/src/uleb.rs
index d06211d..eb6aec6 100644
--- a/runtime/src/uleb.rs
+++ b/runtime/src/uleb.rs
@@ -10,7 +10,7 @@ pub(crate) fn decode_uleb<'i, I: CompactThriftInput<'i> + ?Sized>(input: &mut I)
 
         // overlong sequences are not treated as an error for performance reasons
         value |= ((byte & 0x7F) as u64).wrapping_shl(shift);
-        shift += 7;
+        shift = shift.wrapping_add(7);
 
         if (byte & 0x80) == 0 {
             return Ok(value);
-- 
2.43.0


From 7049d2d405fa3e5e92229b1570c3c225f6e85988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:44 +0000
Subject: [PATCH 02/13] fix: return an error instead of overflowing the field
 id in a field header

---
 runtime/src/protocol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index 9eaaeb5..80932e7 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -101,7 +101,7 @@ pub trait CompactThriftInput<'i> {
         let field_type = field_header & 0x0F;
         let field_delta = field_header >> 4;
         if field_delta != 0 {
-            *last_field_id += field_delta as i16;
+            *last_field_id = last_field_id.checked_add(field_delta as i16).ok_or(ThriftError::InvalidNumber)?;
         } else {
             *last_field_id = read_full_field_id(self)?;
         }
-- 
2.43.0


From 292677e481bc454cc7492e8fa203e8b0d79cc6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:44 +0000
Subject: [PATCH 03/13] fix: return an error instead of panicking when skipping
 a truncated integer

---
 runtime/src/protocol.rs | 2 +-
 runtime/src/uleb.rs     | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index 80932e7..19631b5 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -364,7 +364,7 @@ impl <'i> CompactThriftInput<'i> for CompactThriftInputSlice<'i> {
             self.0 = unsafe { skip_uleb_sse2(self.0) };
             Ok(())
         } else {
-            self.0 = skip_uleb_fallback(self.0);
+            self.0 = skip_uleb_fallback(self.0)?;
             Ok(())
         }
     }
diff --git a/runtime/src/uleb.rs b/runtime/src/uleb.rs
index eb6aec6..e3fb57b 100644
--- a/runtime/src/uleb.rs
+++ b/runtime/src/uleb.rs
@@ -1,3 +1,5 @@
+use std::io::ErrorKind;
+
 use crate::CompactThriftInput;
 use crate::CompactThriftOutput;
 use crate::ThriftError;
@@ -31,12 +33,12 @@ pub(crate) unsafe fn skip_uleb_sse2(input: &[u8]) -> &[u8] {
 }
 
 #[inline(never)]
-pub(crate) fn skip_uleb_fallback(input: &[u8]) -> &[u8] {
+pub(crate) fn skip_uleb_fallback(input: &[u8]) -> Result<&[u8], ThriftError> {
     let mut i = 0_usize;
     while i < input.len() && (input[i] & 0x80) != 0 {
         i += 1;
     }
-    &input[i+1..]
+    input.get(i+1..).ok_or(ThriftError::from(ErrorKind::UnexpectedEof))
 }
 
 pub(crate) fn encode_uleb<O: CompactThriftOutput + ?Sized>(output: &mut O, mut value: u64) -> Result<(), ThriftError> {
-- 
2.43.0


From 429c9a6606217ff450b0f9bbe748110e8b63b2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:45 +0000
Subject: [PATCH 04/13] fix: do not read past the buffer when skipping an
 integer of more than 16 bytes

---
 runtime/src/protocol.rs | 12 +++++++-----
 runtime/src/uleb.rs     |  5 +++++
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index 19631b5..6abe532 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -361,12 +361,14 @@ impl <'i> CompactThriftInput<'i> for CompactThriftInputSlice<'i> {
     #[cfg(target_feature = "sse2")]
     fn skip_integer(&mut self) -> Result<(), ThriftError> {
         if self.0.len() >= 16 {
-            self.0 = unsafe { skip_uleb_sse2(self.0) };
-            Ok(())
-        } else {
-            self.0 = skip_uleb_fallback(self.0)?;
-            Ok(())
+            let rest = unsafe { skip_uleb_sse2(self.0) };
+            if rest.len() < self.0.len() {
+                self.0 = rest;
+                return Ok(())
+            }
         }
+        self.0 = skip_uleb_fallback(self.0)?;
+        Ok(())
     }
 
     fn skip_binary(&mut self) -> Result<(), ThriftError> {
diff --git a/runtime/src/uleb.rs b/runtime/src/uleb.rs
index e3fb57b..6fc74ca 100644
--- a/runtime/src/uleb.rs
+++ b/runtime/src/uleb.rs
@@ -20,6 +20,8 @@ pub(crate) fn decode_uleb<'i, I: CompactThriftInput<'i> + ?Sized>(input: &mut I)
     }
 }
 
+/// Returns `input` unchanged if the integer does not end within the first 16 bytes.
+///
 /// Safety: `input` needs to contain at least 16 bytes
 #[cfg(target_feature = "sse2")]
 #[inline]
@@ -29,6 +31,9 @@ pub(crate) unsafe fn skip_uleb_sse2(input: &[u8]) -> &[u8] {
     let chunk = _mm_loadu_si128(input.as_ptr().cast());
     let mask = !_mm_movemask_epi8(chunk);
     let len = (mask << 1).trailing_zeros() as usize;
+    if len > 16 {
+        return input;
+    }
     input.get_unchecked(len..)
 }
 
-- 
2.43.0


From 3b500cd0227fca69aca3dcd6531d5590d26a7a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:06 +0000
Subject: [PATCH 05/13] fix: limit the nesting depth when skipping unknown
 fields

---
 runtime/src/protocol.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index 6abe532..21f452a 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -12,6 +12,8 @@ use crate::uleb::*;
 
 pub const MAX_BINARY_LEN: usize = 16*1024*1024;
 pub const MAX_COLLECTION_LEN: usize = 10_000_000;
+/// Maximum nesting of collections and structs inside a skipped field.
+const MAX_SKIP_DEPTH: usize = 64;
 
 #[inline(never)] // full field ids are uncommon and inlining this bloats the code
 fn read_full_field_id<'i, I: CompactThriftInput<'i> + ?Sized>(input: &mut I) -> Result<i16, ThriftError> {
@@ -145,7 +147,8 @@ pub fn read_map_len_and_types<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mu
     Ok((len as u32, key_type, val_type))
 }
 
-fn skip_collection<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T) -> Result<(), ThriftError> {
+fn skip_collection<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T, depth: usize) -> Result<(), ThriftError> {
+    let depth = depth.checked_sub(1).ok_or(ThriftError::InvalidType)?;
     let (len, element_type) = read_collection_len_and_type(input)?;
     match element_type {
         1..=3 => {
@@ -176,18 +179,18 @@ fn skip_collection<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T) -> Res
         9 | 10 => {
             // list | set
             for _ in 0..len {
-                skip_collection(input)?;
+                skip_collection(input, depth)?;
             }
         }
         11 => {
             // map
             for _ in 0..len {
-                skip_map(input)?;
+                skip_map(input, depth)?;
             }
         }
         12 => {
             for _ in 0..len {
-                skip_field(input, 12, false)?;
+                skip_nested_field(input, 12, false, depth)?;
             }
         }
         _ => {
@@ -197,16 +200,21 @@ fn skip_collection<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T) -> Res
     Ok(())
 }
 
-fn skip_map<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T) -> Result<(), ThriftError> {
+fn skip_map<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T, depth: usize) -> Result<(), ThriftError> {
+    let depth = depth.checked_sub(1).ok_or(ThriftError::InvalidType)?;
     let (len, key_type, val_type) = read_map_len_and_types(input)?;
     for _ in 0..len {
-        skip_field(input, key_type, true)?;
-        skip_field(input, val_type, true)?;
+        skip_nested_field(input, key_type, true, depth)?;
+        skip_nested_field(input, val_type, true, depth)?;
     }
     Ok(())
 }
 
 pub(crate) fn skip_field<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T, field_type: u8, inside_collection: bool) -> Result<(), ThriftError> {
+    skip_nested_field(input, field_type, inside_collection, MAX_SKIP_DEPTH)
+}
+
+fn skip_nested_field<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T, field_type: u8, inside_collection: bool, depth: usize) -> Result<(), ThriftError> {
     match field_type {
         1..=2 => {
             // boolean stored inside the field header outside of collections
@@ -232,21 +240,22 @@ pub(crate) fn skip_field<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T,
         }
         9 | 10 => {
             // list | set
-            skip_collection(input)?;
+            skip_collection(input, depth)?;
         }
         11 => {
             // map
-            skip_map(input)?;
+            skip_map(input, depth)?;
         }
         12 => {
             // struct | union
+            let depth = depth.checked_sub(1).ok_or(ThriftError::InvalidType)?;
             let mut last_field_id = 0_i16;
             loop {
                 let field_type = input.read_field_header(&mut last_field_id)?;
                 if field_type == 0 {
                     break;
                 }
-                skip_field(input, field_type, false)?;
+                skip_nested_field(input, field_type, false, depth)?;
             }
         }
         _ => {
-- 
2.43.0


From 1126f397b597d4336ab851f6e37d25d186def309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:39 +0000
Subject: [PATCH 06/13] fix: check the wire type of a union's field against its
 variant

---
 runtime/src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/macros.rs b/runtime/src/macros.rs
index 7dce2bd..c5c918b 100644
--- a/runtime/src/macros.rs
+++ b/runtime/src/macros.rs
@@ -158,7 +158,7 @@ macro_rules! thrift_union {
                         *self = Self::$field_name(Default::default());
                         #[allow(unreachable_patterns)]
                         match self {
-                            Self::$field_name(inner) => inner.fill_thrift(input)?,
+                            Self::$field_name(inner) => inner.fill_thrift_field(input, field_type)?,
                             _ => unsafe { std::hint::unreachable_unchecked() },
                         }
                     }),*
-- 
2.43.0


From a14b93b7cc7bbc316fa9796d00c3f69de83cd49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:39 +0000
Subject: [PATCH 07/13] fix: name the union in the error for an unknown variant

---
 runtime/src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/macros.rs b/runtime/src/macros.rs
index c5c918b..f101ec5 100644
--- a/runtime/src/macros.rs
+++ b/runtime/src/macros.rs
@@ -163,7 +163,7 @@ macro_rules! thrift_union {
                         }
                     }),*
                     _ => {
-                        return Err($crate::ThriftError::MissingField(concat!(stringify!($struct_name), "\0").into()))
+                        return Err($crate::ThriftError::MissingField(concat!(stringify!($identifier), "\0").into()))
                     }
                 }
                 let stop = input.read_byte()?;
-- 
2.43.0


From f46e9ac0536adb90e773df5f599bc5bc637d7d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:29 +0000
Subject: [PATCH 08/13] fix: reject a boolean field with a non boolean wire
 type

---
 runtime/src/types.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/runtime/src/types.rs b/runtime/src/types.rs
index 76c05ac..8a488e2 100644
--- a/runtime/src/types.rs
+++ b/runtime/src/types.rs
@@ -33,7 +33,11 @@ impl <'i> CompactThriftProtocol<'i> for bool {
 
     #[inline]
     fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, _input: &mut T, field_type: u8) -> Result<(), ThriftError> {
-        *self = field_type == 1;
+        *self = match field_type {
+            1 => true,
+            2 => false,
+            _ => return Err(ThriftError::InvalidType),
+        };
         Ok(())
     }
 
-- 
2.43.0


From 5d900a649f11759618f61cd5df75635ec6087881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:01 +0000
Subject: [PATCH 09/13] fix: write the absolute field id in the long form of a
 field header

---
 runtime/src/protocol.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index 21f452a..b9aad78 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -267,11 +267,11 @@ fn skip_nested_field<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T, fiel
 
 #[inline]
 pub(crate) fn write_field_header<T: CompactThriftOutput>(output: &mut T, field_type: u8, field_id: i16, last_field_id: &mut i16) -> Result<(), ThriftError> {
-    let field_delta = field_id.wrapping_sub(*last_field_id);
+    let field_delta = field_id as i32 - *last_field_id as i32;
 
-    if field_delta > 15 {
+    if !(1..=15).contains(&field_delta) {
         output.write_byte(field_type)?;
-        output.write_i16(field_delta)?
+        output.write_i16(field_id)?
     } else {
         output.write_byte(field_type | ((field_delta as u8) << 4))?;
     }
-- 
2.43.0


From ae716544de8b40e312d4e68de4a41a14971f3d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:17 +0000
Subject: [PATCH 10/13] fix: encode boxed and reference counted booleans in the
 field header

---
 runtime/src/types.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/runtime/src/types.rs b/runtime/src/types.rs
index 8a488e2..4b8a9b6 100644
--- a/runtime/src/types.rs
+++ b/runtime/src/types.rs
@@ -292,10 +292,20 @@ impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for
         Box::as_mut(self).fill_thrift(input)
     }
 
+    #[inline]
+    fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, input: &mut T, field_type: u8) -> Result<(), ThriftError> {
+        Box::as_mut(self).fill_thrift_field(input, field_type)
+    }
+
     #[inline]
     fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> Result<(), ThriftError> {
         Box::as_ref(self).write_thrift(output)
     }
+
+    #[inline]
+    fn write_thrift_field<T: CompactThriftOutput>(&self, output: &mut T, field_id: i16, last_field_id: &mut i16) -> Result<(), ThriftError> {
+        Box::as_ref(self).write_thrift_field(output, field_id, last_field_id)
+    }
 }
 
 impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for Rc<P> {
@@ -306,10 +316,20 @@ impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for
         Rc::get_mut(self).ok_or(ThriftError::DuplicateField)?.fill_thrift(input)
     }
 
+    #[inline]
+    fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, input: &mut T, field_type: u8) -> Result<(), ThriftError> {
+        Rc::get_mut(self).ok_or(ThriftError::DuplicateField)?.fill_thrift_field(input, field_type)
+    }
+
     #[inline]
     fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> Result<(), ThriftError> {
         Rc::as_ref(self).write_thrift(output)
     }
+
+    #[inline]
+    fn write_thrift_field<T: CompactThriftOutput>(&self, output: &mut T, field_id: i16, last_field_id: &mut i16) -> Result<(), ThriftError> {
+        Rc::as_ref(self).write_thrift_field(output, field_id, last_field_id)
+    }
 }
 
 impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for Arc<P> {
@@ -320,10 +340,20 @@ impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for
         Arc::get_mut(self).ok_or(ThriftError::DuplicateField)?.fill_thrift(input)
     }
 
+    #[inline]
+    fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, input: &mut T, field_type: u8) -> Result<(), ThriftError> {
+        Arc::get_mut(self).ok_or(ThriftError::DuplicateField)?.fill_thrift_field(input, field_type)
+    }
+
     #[inline]
     fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> Result<(), ThriftError> {
         Arc::as_ref(self).write_thrift(output)
     }
+
+    #[inline]
+    fn write_thrift_field<T: CompactThriftOutput>(&self, output: &mut T, field_id: i16, last_field_id: &mut i16) -> Result<(), ThriftError> {
+        Arc::as_ref(self).write_thrift_field(output, field_id, last_field_id)
+    }
 }
 
 impl <'i> CompactThriftProtocol<'i> for Box<str> {
-- 
2.43.0


From 4deb1ca94dde83282150114686510749c0e5f7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:11 +0000
Subject: [PATCH 11/13] fix: return an error for page index ranges outside of
 the chunk instead of panicking

---
 parquet/src/lib.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/parquet/src/lib.rs b/parquet/src/lib.rs
index c90ee50..1015983 100644
--- a/parquet/src/lib.rs
+++ b/parquet/src/lib.rs
@@ -103,31 +103,35 @@ pub fn get_page_index_chunk<R: Read + Seek>(input: &mut R, file_metadata: &FileM
     }
 }
 
+/// Range of an index relative to a chunk that starts at the file offset `chunk_offset`
+fn index_range(chunk_offset: usize, offset: i64, length: i32) -> Result<Range<usize>, ParquetError> {
+    let length = usize::try_from(length).map_err(|_| ParquetError::InvalidOffset)?;
+    let start = usize::try_from(offset).ok().and_then(|offset| offset.checked_sub(chunk_offset)).ok_or(ParquetError::InvalidOffset)?;
+    let end = start.checked_add(length).ok_or(ParquetError::InvalidOffset)?;
+    Ok(start..end)
+}
+
 fn read_page_index_for_column_chunk(chunk: &[u8], chunk_offset: usize, column_chunks: &[ColumnChunk]) -> Result<Vec<Option<(OffsetIndex, ColumnIndex)>>, ParquetError> {
     column_chunks.iter().map(|cc| {
         let offset_index_range = if let (Some(offset), Some(length)) = (cc.offset_index_offset, cc.offset_index_length) {
-            assert!(offset as usize >= chunk_offset);
-            assert!(length > 0);
-            let start = offset as usize - chunk_offset;
-            start..start+length as usize
+            index_range(chunk_offset, offset, length)?
         } else {
             return Ok(None)
         };
         let column_index_range = if let (Some(offset), Some(length)) = (cc.column_index_offset, cc.column_index_length) {
-            assert!(offset as usize >= chunk_offset);
-            assert!(length > 0);
-            let start = offset as usize - chunk_offset;
-            start..start+length as usize
+            index_range(chunk_offset, offset, length)?
         } else {
             return Ok(None)
         };
+        let offset_index_chunk = chunk.get(offset_index_range).ok_or(ParquetError::InvalidOffset)?;
+        let column_index_chunk = chunk.get(column_index_range).ok_or(ParquetError::InvalidOffset)?;
 
         let mut res = Ok(Some((OffsetIndex::default(), ColumnIndex::default())));
 
         match &mut res {
             Ok(Some((offset_index, column_index))) => {
-                offset_index.fill_thrift(&mut CompactThriftInputSlice::new(&chunk[offset_index_range]))?;
-                column_index.fill_thrift(&mut CompactThriftInputSlice::new(&chunk[column_index_range]))?;
+                offset_index.fill_thrift(&mut CompactThriftInputSlice::new(offset_index_chunk))?;
+                column_index.fill_thrift(&mut CompactThriftInputSlice::new(column_index_chunk))?;
             }
             _ => unsafe { unreachable_unchecked() }
         }
-- 
2.43.0


From ae9661165c4e5001c502a51b267259dfe3afbe53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:11 +0000
Subject: [PATCH 12/13] fix: reject a page index range beyond the end of the
 file before reserving memory for it

---
 parquet/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parquet/src/lib.rs b/parquet/src/lib.rs
index 1015983..8f2e206 100644
--- a/parquet/src/lib.rs
+++ b/parquet/src/lib.rs
@@ -87,6 +87,12 @@ pub fn get_page_index_range(file_metadata: &FileMetaData) -> Result<Option<Range
 #[expect(clippy::type_complexity)]
 pub fn get_page_index_chunk<R: Read + Seek>(input: &mut R, file_metadata: &FileMetaData) -> Result<Option<(Vec<u8>, Range<usize>)>, ParquetError> {
     if let Some(range) = get_page_index_range(file_metadata)? {
+        // offsets and lengths are untrusted, the range has to be inside of the file before memory is reserved for it
+        let file_len = input.seek(SeekFrom::End(0))?;
+        if range.end as u64 > file_len {
+            return Err(ParquetError::InvalidOffset);
+        }
+
         input.seek(SeekFrom::Start(range.start as u64))?;
 
         let mut buf = Vec::with_capacity(range.len());
-- 
2.43.0


From 2696d81fe19c238a2bf526b7273741bd16363c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:17 +0000
Subject: [PATCH 13/13] fix: a repeated field contributes a definition level

The definition level of a field is the number of optional and repeated
fields on the path to it: for a repeated field, one level tells an empty
list from one with a value. Only optional fields were counted, so
def_level was too small for every field at or below a repeated one.
---
 parquet/src/bin/schema.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parquet/src/bin/schema.rs b/parquet/src/bin/schema.rs
index cfe36c9..e24f84b 100644
--- a/parquet/src/bin/schema.rs
+++ b/parquet/src/bin/schema.rs
@@ -556,7 +556,7 @@ fn convert_schema_inner<'schema>(
         .repetition_type
         .unwrap_or(FieldRepetitionType::REQUIRED);
     // cannot overflow because nesting level has a lower limit than u8::MAX
-    let def_level = def_level + (repetition_type == FieldRepetitionType::OPTIONAL) as u8;
+    let def_level = def_level + (repetition_type != FieldRepetitionType::REQUIRED) as u8;
     let rep_level = rep_level + (repetition_type == FieldRepetitionType::REPEATED) as u8;
 
     let mut current = field_from_schema_element(
-- 
2.43.0

