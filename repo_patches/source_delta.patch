From 41eb8deb0e807030e8a27ecc10cc91f18e823b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:07 +0000
Subject: [PATCH 01/82] fix: count the terminator in the size write_fstring
 returns for wide strings

---
 unreal_helpers/src/write_ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_helpers/src/write_ext.rs b/unreal_helpers/src/write_ext.rs
index 0879720..daca802 100644
--- a/unreal_helpers/src/write_ext.rs
+++ b/unreal_helpers/src/write_ext.rs
@@ -69,7 +69,7 @@ impl<W: Write> UnrealWriteExt for W {
                 self.write_all(aligned)?;
 
                 self.write_all(&[0u8; 2])?;
-                Ok(size_of::<i32>() + aligned.len())
+                Ok(size_of::<i32>() + aligned.len() + size_of::<u16>())
             } else {
                 self.write_i32::<LE>(string.len() as i32 + 1)?;
                 let bytes = string.as_bytes();
-- 
2.43.0


From 563db1c8eb73e9da140f156a528df35a41f5fd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:30 +0000
Subject: [PATCH 02/82] fix: reject out-of-range string lengths instead of
 overflowing or over-allocating

---
 unreal_helpers/src/read_ext.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unreal_helpers/src/read_ext.rs b/unreal_helpers/src/read_ext.rs
index dd55200..7ed058d 100644
--- a/unreal_helpers/src/read_ext.rs
+++ b/unreal_helpers/src/read_ext.rs
@@ -54,7 +54,7 @@ impl<R: Read + Seek> UnrealReadExt for R {
         let len = self.read_i32::<LE>()?;
 
         let (len, is_wide) = match len < 0 {
-            true => (-len, true),
+            true => (len.saturating_neg(), true),
             false => (len, false),
         };
         read_fstring_len(self, len, is_wide)
@@ -109,7 +109,7 @@ pub fn read_fstring_len_noterm<R: Read + Seek>(
     len: i32,
     is_wide: bool,
 ) -> Result<Option<String>, FStringError> {
-    if !(-131072..=131072).contains(&len) {
+    if !(0..=131072).contains(&len) {
         return Err(FStringError::InvalidStringSize(
             len,
             reader.stream_position()?,
-- 
2.43.0


From 73e394dfaf567ea6f5f520cc20ecc021b043ba75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:30 +0000
Subject: [PATCH 03/82] fix: don't let read_array allocate by or loop over an
 untrusted capacity

---
 unreal_helpers/src/read_ext.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/unreal_helpers/src/read_ext.rs b/unreal_helpers/src/read_ext.rs
index 7ed058d..cabcbf0 100644
--- a/unreal_helpers/src/read_ext.rs
+++ b/unreal_helpers/src/read_ext.rs
@@ -43,8 +43,10 @@ impl<R: Read + Seek> UnrealReadExt for R {
         &mut self,
         mut f: impl FnMut(&mut Self) -> io::Result<T>,
     ) -> io::Result<Vec<T>> {
-        let mut buf = Vec::with_capacity(self.read_u32::<LE>()? as usize);
-        for _ in 0..buf.capacity() {
+        let len = self.read_u32::<LE>()?;
+        // the length is untrusted, so don't allocate for more than a few elements up front
+        let mut buf = Vec::with_capacity(len.min(1024) as usize);
+        for _ in 0..len {
             buf.push(f(self)?);
         }
         Ok(buf)
-- 
2.43.0


From 60a463bc0e802fcac1a319e6de80c11cc2ab8a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:30 +0000
Subject: [PATCH 04/82] fix: reject negative array lengths and don't
 over-allocate for large ones

---
 .../unreal_asset_base/src/reader/archive_reader.rs        | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs b/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
index 14ba2a0..5cf1da7 100644
--- a/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
+++ b/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
@@ -196,7 +196,13 @@ pub trait ArchiveReader<Index: PackageIndexTrait>: ArchiveTrait<Index> + Read {
         length: i32,
         getter: impl Fn(&mut Self) -> Result<T, Error>,
     ) -> Result<Vec<T>, Error> {
-        let mut array = Vec::with_capacity(length as usize);
+        if length < 0 {
+            return Err(Error::invalid_file(format!(
+                "Invalid array length: {length}"
+            )));
+        }
+        // the length is untrusted, so don't allocate for more than a few elements up front
+        let mut array = Vec::with_capacity(length.min(1024) as usize);
         for _ in 0..length {
             array.push(getter(self)?);
         }
-- 
2.43.0


From f28275bdcc6ae436e41871b601259c6f38498339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:30 +0000
Subject: [PATCH 05/82] fix: reject non-hexadecimal text when parsing a Guid
 instead of panicking

---
 unreal_helpers/src/guid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_helpers/src/guid.rs b/unreal_helpers/src/guid.rs
index 71509a8..d821abc 100644
--- a/unreal_helpers/src/guid.rs
+++ b/unreal_helpers/src/guid.rs
@@ -214,7 +214,7 @@ impl FromStr for Guid {
             return Ok(Guid::new([0u8; 16]));
         }
 
-        if cleaned.len() != 32 {
+        if cleaned.len() != 32 || !cleaned.bytes().all(|b| b.is_ascii_hexdigit()) {
             Err(ParseGuidError)?;
         }
         let mut guid = Guid(Default::default());
-- 
2.43.0


From 99a5278811c9b224714d50997557d17a7c19ef5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:47 +0000
Subject: [PATCH 06/82] fix: write the timestamp that version 1 pak headers
 contain

---
 unreal_pak/src/header.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/unreal_pak/src/header.rs b/unreal_pak/src/header.rs
index 516f0d1..70d761d 100644
--- a/unreal_pak/src/header.rs
+++ b/unreal_pak/src/header.rs
@@ -180,6 +180,11 @@ impl Header {
         writer.write_u64::<LE>(header.decompressed_size)?;
         writer.write_u32::<LE>(header.compression_method.as_u32(pak_version, compression)?)?;
 
+        // timestamp
+        if pak_version <= PakVersion::Initial {
+            writer.write_u64::<LE>(0)?;
+        }
+
         writer.write_all(&header.hash)?;
 
         if pak_version >= PakVersion::CompressionEncryption {
-- 
2.43.0


From 2cf299677857f2671bb06b15e697842826b5b950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:47 +0000
Subject: [PATCH 07/82] fix: absolute compression block offsets in pak versions
 3 and 4

---
 unreal_pak/src/entry.rs  |  8 +++++++-
 unreal_pak/src/header.rs | 15 ++++++---------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/unreal_pak/src/entry.rs b/unreal_pak/src/entry.rs
index c54c72a..81b8f8e 100644
--- a/unreal_pak/src/entry.rs
+++ b/unreal_pak/src/entry.rs
@@ -102,6 +102,12 @@ where
             let block_count = (data.len() as f64 / block_size as f64).ceil() as usize;
             let mut compression_blocks_inner = Vec::with_capacity(block_count);
             let header_len = Header::calculate_header_len(pak_version, Some(block_count as u32));
+            // older versions use absolute offsets
+            let base = if pak_version < PakVersion::RelativeChunkOffsets {
+                offset + header_len
+            } else {
+                header_len
+            };
 
             for chunk in data.chunks(block_size as usize) {
                 let begin = compressed_data.len() as u64;
@@ -110,7 +116,7 @@ where
                 compressed_data.extend_from_slice(&block_compressed_data);
 
                 compression_blocks_inner.push(Block {
-                    start: begin + header_len,
+                    start: begin + base,
                     size: block_compressed_data.len() as u64,
                 });
             }
diff --git a/unreal_pak/src/header.rs b/unreal_pak/src/header.rs
index 70d761d..c95cabd 100644
--- a/unreal_pak/src/header.rs
+++ b/unreal_pak/src/header.rs
@@ -39,7 +39,8 @@ pub(crate) struct Header {
 /// One compression block
 #[derive(Debug, Clone)]
 pub(crate) struct Block {
-    /// Start offset relative to the start of the header of the entry
+    /// Start offset as stored, relative to the start of the header of the entry, or to the start of
+    /// the pak file in versions before [`PakVersion::RelativeChunkOffsets`]
     pub start: u64,
     /// size of the compressed block
     pub size: u64,
@@ -78,17 +79,13 @@ impl Header {
                 let mut compression_blocks_inner = Vec::with_capacity(block_count);
 
                 for _ in 0..block_count {
-                    // convert old absolute to relative offsets
-                    let start_offset = reader.read_u64::<LE>()?
-                        - if pak_version < PakVersion::RelativeChunkOffsets {
-                            offset
-                        } else {
-                            0
-                        };
+                    let start_offset = reader.read_u64::<LE>()?;
                     let end_offset = reader.read_u64::<LE>()?;
                     compression_blocks_inner.push(Block {
                         start: start_offset,
-                        size: end_offset - start_offset,
+                        size: end_offset
+                            .checked_sub(start_offset)
+                            .ok_or_else(PakError::entry_invalid)?,
                     });
                 }
                 compression_blocks = Some(compression_blocks_inner);
-- 
2.43.0


From 1e4cbd0c1eaf25edadf91c30903b769057f3c54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:10 +0000
Subject: [PATCH 08/82] fix: don't trust sizes and counts stored in a pak for
 allocations and position arithmetic

---
 unreal_pak/src/compression.rs |  2 +-
 unreal_pak/src/entry.rs       | 23 ++++++++++++++---------
 unreal_pak/src/header.rs      |  2 +-
 unreal_pak/src/index.rs       |  2 +-
 4 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/unreal_pak/src/compression.rs b/unreal_pak/src/compression.rs
index c6a2e21..1a5e4d8 100644
--- a/unreal_pak/src/compression.rs
+++ b/unreal_pak/src/compression.rs
@@ -155,7 +155,7 @@ impl CompressionMethods {
         // This is why first the length of the remaining stream is determined and then only
         // the existing bytes read.
         let old_pos = reader.stream_position()?;
-        let remaining_len = reader.seek(SeekFrom::End(0))? - old_pos;
+        let remaining_len = reader.seek(SeekFrom::End(0))?.saturating_sub(old_pos);
         reader.seek(SeekFrom::Start(old_pos))?;
 
         let mut methods = Self::default();
diff --git a/unreal_pak/src/entry.rs b/unreal_pak/src/entry.rs
index 81b8f8e..156c508 100644
--- a/unreal_pak/src/entry.rs
+++ b/unreal_pak/src/entry.rs
@@ -1,4 +1,4 @@
-use std::io::{Read, Seek, SeekFrom, Write};
+use std::io::{self, Read, Seek, SeekFrom, Write};
 
 use crate::compression::CompressionMethods;
 use crate::error::PakError;
@@ -28,13 +28,9 @@ where
     let header = Header::read(reader, pak_version, compression)?;
 
     match header.compression_method {
-        Compression::None => {
-            let mut data = vec![0u8; header.decompressed_size as usize];
-            reader.read_exact(data.as_mut_slice())?;
-            Ok(data)
-        }
+        Compression::None => read_data(reader, header.decompressed_size),
         Compression::Known(_) => {
-            let mut data = Vec::with_capacity(header.decompressed_size as usize);
+            let mut data = Vec::new();
 
             let compression_blocks = header
                 .compression_blocks
@@ -42,8 +38,7 @@ where
                 .ok_or_else(PakError::entry_invalid)?;
             for block in compression_blocks {
                 // we do not need to seek here because the reader is at the end of the header and compression blocks are continuous
-                let mut compressed_data = vec![0u8; block.size as usize];
-                reader.read_exact(&mut compressed_data)?;
+                let compressed_data = read_data(reader, block.size)?;
                 header
                     .compression_method
                     .decompress(&mut data, compressed_data.as_slice())?;
@@ -55,6 +50,16 @@ where
     }
 }
 
+/// Read `len` bytes without trusting `len` for the allocation
+fn read_data<R: Read>(reader: &mut R, len: u64) -> Result<Vec<u8>, PakError> {
+    let mut data = Vec::new();
+    reader.take(len).read_to_end(&mut data)?;
+    if data.len() as u64 != len {
+        return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+    }
+    Ok(data)
+}
+
 /// Write an entry with Header at the position the write is at
 ///
 /// # Arguments
diff --git a/unreal_pak/src/header.rs b/unreal_pak/src/header.rs
index c95cabd..a6e3f4a 100644
--- a/unreal_pak/src/header.rs
+++ b/unreal_pak/src/header.rs
@@ -76,7 +76,7 @@ impl Header {
         if pak_version >= PakVersion::CompressionEncryption {
             if !matches!(compression_method, Compression::None) {
                 let block_count = reader.read_u32::<LE>()? as usize;
-                let mut compression_blocks_inner = Vec::with_capacity(block_count);
+                let mut compression_blocks_inner = Vec::new();
 
                 for _ in 0..block_count {
                     let start_offset = reader.read_u64::<LE>()?;
diff --git a/unreal_pak/src/index.rs b/unreal_pak/src/index.rs
index 2f7d197..b8d1f4d 100644
--- a/unreal_pak/src/index.rs
+++ b/unreal_pak/src/index.rs
@@ -28,7 +28,7 @@ impl Index {
         let mut path_hash_seed = None;
 
         let entry_count = reader.read_u32::<LE>()?;
-        let mut entries = Vec::with_capacity(entry_count as usize);
+        let mut entries = Vec::new();
 
         if footer.pak_version < PakVersion::PathHashIndex {
             for _ in 0..entry_count {
-- 
2.43.0


From 98ed22257d1c1131c0676a5b6ab0b8309c131c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:10 +0000
Subject: [PATCH 09/82] fix: find the footer of short pak files and don't
 mistake data in front of it for one

---
 unreal_pak/src/index.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/unreal_pak/src/index.rs b/unreal_pak/src/index.rs
index b8d1f4d..c86e077 100644
--- a/unreal_pak/src/index.rs
+++ b/unreal_pak/src/index.rs
@@ -158,13 +158,19 @@ pub(crate) struct Footer {
 impl Footer {
     pub(crate) fn read<R: Read + Seek>(reader: &mut R) -> Result<Self, PakError> {
         // magic offset (from bottom) can only be 0x2C (v2-v7), 0xAC (v8a), 0xCC (v8b,v11), 0xCD (v9)
-        let possible_offsets = vec![-0x2C, -0xAC, -0xCC, -0xCD];
+        let possible_offsets = [-0x2Ci64, -0xAC, -0xCC, -0xCD];
 
+        let file_len = reader.seek(SeekFrom::End(0))?;
         let mut magic_offset = None;
         for offset in possible_offsets {
+            // the file may be too short for the larger footers
+            if file_len < -offset as u64 {
+                continue;
+            }
             reader.seek(SeekFrom::End(offset))?;
             if reader.read_u32::<BE>()? == PAK_MAGIC {
                 magic_offset = Some(offset);
+                break;
             }
         }
         let magic_offset = magic_offset.ok_or_else(PakError::pak_invalid)?;
-- 
2.43.0


From 0ecc30bda306ed26420ef71f18a7eeabb194a77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:10 +0000
Subject: [PATCH 10/82] fix: store the compression method names in version 8a
 paks

---
 unreal_pak/src/compression.rs | 13 ++++++++-----
 unreal_pak/src/index.rs       |  7 ++++---
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/unreal_pak/src/compression.rs b/unreal_pak/src/compression.rs
index 1a5e4d8..9d25b94 100644
--- a/unreal_pak/src/compression.rs
+++ b/unreal_pak/src/compression.rs
@@ -47,7 +47,7 @@ impl Compression {
         pak_version: PakVersion,
         compression: &CompressionMethods,
     ) -> Self {
-        if pak_version >= PakVersion::FnameBasedCompressionMethod {
+        if pak_version >= PakVersion::FnameBasedCompressionMethodInitial {
             if compression_method_num == 0 {
                 Compression::None
             } else if compression_method_num <= 5 {
@@ -72,7 +72,7 @@ impl Compression {
     ) -> Result<u32, PakError> {
         match self {
             Self::Known(method) => {
-                if pak_version >= PakVersion::FnameBasedCompressionMethod {
+                if pak_version >= PakVersion::FnameBasedCompressionMethodInitial {
                     match compression
                         .0
                         .iter()
@@ -169,9 +169,12 @@ impl CompressionMethods {
         Ok(methods)
     }
 
-    pub fn as_bytes(&self) -> Vec<u8> {
-        // TODO UE4.22 only add 4
-        let num_entries = 5usize;
+    pub fn as_bytes(&self, pak_version: PakVersion) -> Vec<u8> {
+        // UE4.22 only has 4
+        let num_entries = match pak_version {
+            PakVersion::FnameBasedCompressionMethodInitial => 4usize,
+            _ => 5usize,
+        };
 
         let mut buf = Vec::with_capacity(num_entries * 0x20);
         for i in 0..num_entries {
diff --git a/unreal_pak/src/index.rs b/unreal_pak/src/index.rs
index c86e077..7723053 100644
--- a/unreal_pak/src/index.rs
+++ b/unreal_pak/src/index.rs
@@ -194,7 +194,7 @@ impl Footer {
             reader.seek(SeekFrom::Current(1))?;
         }
 
-        let compression_methods = if pak_version >= PakVersion::FnameBasedCompressionMethod {
+        let compression_methods = if pak_version >= PakVersion::FnameBasedCompressionMethodInitial {
             CompressionMethods::from_reader(reader)?
         } else {
             CompressionMethods::default()
@@ -257,8 +257,9 @@ impl Footer {
         }
 
         // compression methods
-        if footer.pak_version >= PakVersion::FnameBasedCompressionMethod {
-            writer.write_all(footer.compression_methods.as_bytes().as_slice())?;
+        if footer.pak_version >= PakVersion::FnameBasedCompressionMethodInitial {
+            let methods = footer.compression_methods.as_bytes(footer.pak_version);
+            writer.write_all(methods.as_slice())?;
         }
 
         Ok(())
-- 
2.43.0


From d9a50b693647f26e926b4e5ae66e915a1c577c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:10 +0000
Subject: [PATCH 11/82] fix: refuse a zero compression block size instead of
 panicking

---
 unreal_pak/src/entry.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_pak/src/entry.rs b/unreal_pak/src/entry.rs
index 156c508..dac4638 100644
--- a/unreal_pak/src/entry.rs
+++ b/unreal_pak/src/entry.rs
@@ -100,7 +100,7 @@ where
     let mut compression_blocks = None;
     let data = match compression_method {
         Compression::Known(_) => {
-            if pak_version < PakVersion::CompressionEncryption {
+            if pak_version < PakVersion::CompressionEncryption || block_size == 0 {
                 return Err(PakError::configuration_invalid());
             }
 
-- 
2.43.0


From af1c32048c2653755911b9a0d5e61f9e58133f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:27 +0000
Subject: [PATCH 12/82] fix: seeking in a chained stream

Reads that crossed into the second part after seeking back into the first
continued at a stale position, and seeks before the start succeeded or
overflowed.
---
 .../unreal_asset_base/src/containers/chain.rs | 43 ++++++++++++-------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/containers/chain.rs b/unreal_asset/unreal_asset_base/src/containers/chain.rs
index 4652949..c3d5a29 100644
--- a/unreal_asset/unreal_asset_base/src/containers/chain.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/chain.rs
@@ -1,6 +1,6 @@
 //! Chain for chaining two `Read` + `Seek` implementations
 
-use std::io::{Read, Result, Seek, SeekFrom};
+use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom};
 
 /// Chain for chaining two `Read` + `Seek` implementations
 pub struct Chain<C: Read + Seek> {
@@ -77,23 +77,34 @@ impl<C: Read + Seek> Read for Chain<C> {
 impl<C: Read + Seek> Seek for Chain<C> {
     fn seek(&mut self, pos: SeekFrom) -> Result<u64> {
         match self.second.as_mut() {
-            Some(sec) => match pos {
-                SeekFrom::Start(offset) => {
-                    self.pos = match offset < self.first_len {
-                        true => self.first.seek(pos)?,
-                        false => {
-                            self.first_len + sec.seek(SeekFrom::Start(offset - self.first_len))?
-                        }
-                    };
-                    Ok(offset)
+            Some(sec) => {
+                let offset = match pos {
+                    SeekFrom::Start(offset) => Some(offset),
+                    SeekFrom::End(offset) => {
+                        (self.first_len + self.second_len).checked_add_signed(offset)
+                    }
+                    SeekFrom::Current(offset) => self.pos.checked_add_signed(offset),
                 }
-                SeekFrom::End(offset) => self.seek(SeekFrom::Start(
-                    ((self.first_len + self.second_len) as i64 + offset) as u64,
-                )),
-                SeekFrom::Current(offset) => {
-                    self.seek(SeekFrom::Start((self.pos as i64 + offset) as u64))
+                .ok_or_else(|| {
+                    Error::new(
+                        ErrorKind::InvalidInput,
+                        "invalid seek to a negative or overflowing position",
+                    )
+                })?;
+
+                match offset < self.first_len {
+                    true => {
+                        self.first.seek(SeekFrom::Start(offset))?;
+                        // reads that cross the boundary continue at the start of the second part
+                        sec.rewind()?;
+                    }
+                    false => {
+                        sec.seek(SeekFrom::Start(offset - self.first_len))?;
+                    }
                 }
-            },
+                self.pos = offset;
+                Ok(offset)
+            }
             None => self.first.seek(pos),
         }
     }
-- 
2.43.0


From 28e0470713bd6c156f5fd9151224c2efc2ba921b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:25 +0000
Subject: [PATCH 13/82] fix: keep the positions of an IndexedMap consistent
 after removals

---
 .../src/containers/indexed_map/mod.rs         | 31 ++++++++++++++-----
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
index 0a6d807..7495081 100644
--- a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
@@ -162,7 +162,11 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         let index = self.index_iter.next()?;
         let value = &self.store[*index];
-        Some((*index, value.key_map_index.0.as_ref(), &value.value))
+        Some((
+            value.index_map_index,
+            value.key_map_index.0.as_ref(),
+            &value.value,
+        ))
     }
 }
 
@@ -173,7 +177,11 @@ where
     fn next_back(&mut self) -> Option<Self::Item> {
         let index = self.index_iter.next_back()?;
         let value = &self.store[*index];
-        Some((*index, value.key_map_index.0.as_ref(), &value.value))
+        Some((
+            value.index_map_index,
+            value.key_map_index.0.as_ref(),
+            &value.value,
+        ))
     }
 }
 
@@ -222,10 +230,11 @@ where
         // SAFETY:
         // This is safe because a mutable reference to the same field is never returned twice,
         // e.g. we never visit the same element twice.
+        let insertion_index = value.index_map_index;
         let key = value.key_map_index.0.as_ref() as *const K;
         let value = &mut value.value as *mut V;
 
-        Some((*index, unsafe { key.as_ref().unwrap() }, unsafe {
+        Some((insertion_index, unsafe { key.as_ref().unwrap() }, unsafe {
             value.as_mut().unwrap()
         }))
     }
@@ -242,10 +251,11 @@ where
         // SAFETY:
         // This is safe because a mutable reference to the same field is never returned twice,
         // e.g. we never visit the same element twice.
+        let insertion_index = value.index_map_index;
         let key = value.key_map_index.0.as_ref() as *const K;
         let value = &mut value.value as *mut V;
 
-        Some((*index, unsafe { key.as_ref().unwrap() }, unsafe {
+        Some((insertion_index, unsafe { key.as_ref().unwrap() }, unsafe {
             value.as_mut().unwrap()
         }))
     }
@@ -282,7 +292,7 @@ where
         let value = self.store.remove(index);
 
         Some((
-            index,
+            value.index_map_index,
             Rc::try_unwrap(value.key_map_index.0).ok().unwrap(),
             value.value,
         ))
@@ -298,7 +308,7 @@ where
         let value = self.store.remove(index);
 
         Some((
-            index,
+            value.index_map_index,
             Rc::try_unwrap(value.key_map_index.0).ok().unwrap(),
             value.value,
         ))
@@ -569,16 +579,18 @@ where
         }
 
         let key_rc = KeyItem(Rc::new(key));
+        // removals leave gaps, so the number of entries could be the index of an existing one
+        let index = self.index_map.keys().next_back().map_or(0, |e| *e + 1);
         let indexed_value = IndexedValue {
             value,
             key_map_index: key_rc.rc_clone(),
-            index_map_index: self.key_map.len(),
+            index_map_index: index,
             index_iter_map_index: self.index_iter_map.len(),
         };
         let store_place = self.store.insert(indexed_value);
 
         self.key_map.insert(key_rc, store_place);
-        self.index_map.insert(self.key_map.len() - 1, store_place);
+        self.index_map.insert(index, store_place);
         self.index_iter_map.push(store_place);
         &mut self.store[store_place]
     }
@@ -680,6 +692,9 @@ where
         let value = self.store.remove(store_place);
 
         self.index_iter_map.remove(value.index_iter_map_index);
+        for store_place in &self.index_iter_map[value.index_iter_map_index..] {
+            self.store[*store_place].index_iter_map_index -= 1;
+        }
         self.index_map.remove(&value.index_map_index);
         self.key_map.remove(value.key_map_index.0.as_ref());
 
-- 
2.43.0


From 743905c066d1d0ff2e77120ed9014bfbeaef6749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:25 +0000
Subject: [PATCH 14/82] fix: compare the values of IndexedMaps, not only the
 keys

---
 .../src/containers/indexed_map/mod.rs          | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
index 7495081..90f2b27 100644
--- a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
@@ -769,15 +769,25 @@ where
 impl<K, V> PartialEq for IndexedMap<K, V>
 where
     K: Eq + Hash,
+    V: PartialEq,
 {
     fn eq(&self, other: &Self) -> bool {
-        self.key_map == other.key_map
-            && self.index_map == other.index_map
-            && self.index_iter_map == other.index_iter_map
+        self.len() == other.len()
+            && self
+                .iter()
+                .zip(other.iter())
+                .all(|((_, key, value), (_, other_key, other_value))| {
+                    key == other_key && value == other_value
+                })
     }
 }
 
-impl<K, V> Eq for IndexedMap<K, V> where K: Eq + Hash {}
+impl<K, V> Eq for IndexedMap<K, V>
+where
+    K: Eq + Hash,
+    V: Eq,
+{
+}
 
 impl<K, V> Clone for IndexedMap<K, V>
 where
-- 
2.43.0


From bb4295b311e17339c295817644b79b7a743fae34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:40 +0000
Subject: [PATCH 15/82] fix: don't panic on encrypted assets shorter than their
 magic

---
 unreal_asset/src/ac7.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/src/ac7.rs b/unreal_asset/src/ac7.rs
index 8f5e40d..f669c14 100644
--- a/unreal_asset/src/ac7.rs
+++ b/unreal_asset/src/ac7.rs
@@ -130,7 +130,9 @@ pub fn decrypt(uasset: &[u8], uexp: &[u8], mut key: AC7XorKey) -> (Vec<u8>, Vec<
 /// Decrypt a uasset file using a given key
 pub fn decrypt_uasset(uasset: &[u8], key: &mut AC7XorKey) -> Vec<u8> {
     let mut decrypted = vec![0u8; uasset.len()];
-    decrypted[..4].copy_from_slice(&u32::to_be_bytes(UE4_ASSET_MAGIC)); // todo: replace with constant
+    // inputs shorter than the magic only get as much of it as fits
+    let magic_len = uasset.len().min(4);
+    decrypted[..magic_len].copy_from_slice(&u32::to_be_bytes(UE4_ASSET_MAGIC)[..magic_len]); // todo: replace with constant
 
     for i in 4..uasset.len() {
         decrypted[i] = key.xor_byte(uasset[i]);
@@ -163,7 +165,8 @@ const AC7_ASSET_MAGIC: u32 = 0x37454341;
 /// Encrypt a uasset file using a given key
 pub fn encrypt_uasset(uasset: &[u8], key: &mut AC7XorKey) -> Vec<u8> {
     let mut encrypted = vec![0u8; uasset.len()];
-    encrypted[..4].copy_from_slice(&u32::to_le_bytes(AC7_ASSET_MAGIC));
+    let magic_len = uasset.len().min(4);
+    encrypted[..magic_len].copy_from_slice(&u32::to_le_bytes(AC7_ASSET_MAGIC)[..magic_len]);
 
     for i in 4..uasset.len() {
         encrypted[i] = key.xor_byte(uasset[i]);
-- 
2.43.0


From b7e29d4681aeb2f7073c768ce7529075abdfb9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:40 +0000
Subject: [PATCH 16/82] fix: keep repeated names of a name batch at their
 positions

---
 unreal_asset/unreal_asset_base/src/containers/name_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/containers/name_map.rs b/unreal_asset/unreal_asset_base/src/containers/name_map.rs
index c70f46e..c678716 100644
--- a/unreal_asset/unreal_asset_base/src/containers/name_map.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/name_map.rs
@@ -36,7 +36,7 @@ impl NameMap {
         name_map.get_mut().name_map_index_list = Vec::with_capacity(name_batch.len());
 
         for name in name_batch {
-            name_map.get_mut().add_name_reference(name.clone(), false);
+            name_map.get_mut().add_name_reference(name.clone(), true);
         }
 
         name_map
-- 
2.43.0


From 911479e85ee7de91dc74e835eb55a64ea84af6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:22 +0000
Subject: [PATCH 17/82] fix: default custom versions include
 FAnimPhysObjectVersion

---
 unreal_asset/unreal_asset_base/src/custom_version.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/custom_version.rs b/unreal_asset/unreal_asset_base/src/custom_version.rs
index f5b3686..3ad6d97 100644
--- a/unreal_asset/unreal_asset_base/src/custom_version.rs
+++ b/unreal_asset/unreal_asset_base/src/custom_version.rs
@@ -48,7 +48,6 @@ lazy_static! {
         ( (0xD7296918, 0x1DD64BDD, 0x9DE264A8, 0x3CC13884).into(), (String::from("FVRObjectVersion"), None) ),
         ( (0xC2A15278, 0xBFE74AFE, 0x6C1790FF, 0x531DF755).into(), (String::from("FLoadTimesObjectVersion"), None) ),
         ( (0x6EACA3D4, 0x40EC4CC1, 0xB7868BED, 0x9428FC5).into(),  (String::from("FGeometryObjectVersion"), None) ),
-        ( (0x29E575DD, 0xE0A34627, 0x9D10D276, 0x232CDCEA).into(), (String::from("FAnimPhysObjectVersion"), None) ),
         ( (0xAF43A65D, 0x7FD34947, 0x98733E8E, 0xD9C1BB05).into(), (String::from("FAnimObjectVersion"), None) ),
         ( (0x6B266CEC, 0x1EC74B8F, 0xA30BE4D9, 0x0942FC07).into(), (String::from("FReflectionCaptureObjectVersion"), None) ),
         ( (0x0DF73D61, 0xA23F47EA, 0xB72789E9, 0x0C41499A).into(), (String::from("FAutomationObjectVersion"), None) ),
@@ -73,6 +72,7 @@ lazy_static! {
         ( (0xaafe32bd, 0x53954c14, 0xb66a5e25, 0x1032d1dd).into(), (String::from("FProceduralFoliageCustomVersion"), None) ),
         ( (0xab965196, 0x45d808fc, 0xb7d7228d, 0x78ad569e).into(), (String::from("FLiveLinkCustomVersion"), None) ),
 
+        ( FAnimPhysObjectVersion::GUID,                             (String::from(FAnimPhysObjectVersion::FRIENDLY_NAME), Some(FAnimPhysObjectVersion::VERSION_MAPPINGS)) ),
         ( FCoreObjectVersion::GUID,                                 (String::from(FCoreObjectVersion::FRIENDLY_NAME), Some(FCoreObjectVersion::VERSION_MAPPINGS)) ),
         ( FEditorObjectVersion::GUID,                               (String::from(FEditorObjectVersion::FRIENDLY_NAME), Some(FEditorObjectVersion::VERSION_MAPPINGS)) ),
         ( FFrameworkObjectVersion::GUID,                            (String::from(FFrameworkObjectVersion::FRIENDLY_NAME), Some(FFrameworkObjectVersion::VERSION_MAPPINGS)) ),
-- 
2.43.0


From f42144d2360c2a6376b1c9bcd08a73efdafe9fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:22 +0000
Subject: [PATCH 18/82] fix: guess the engine version from both object versions

---
 .../unreal_asset_base/src/engine_version.rs   | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/engine_version.rs b/unreal_asset/unreal_asset_base/src/engine_version.rs
index 9b311f2..709020b 100644
--- a/unreal_asset/unreal_asset_base/src/engine_version.rs
+++ b/unreal_asset/unreal_asset_base/src/engine_version.rs
@@ -240,23 +240,23 @@ pub fn get_possible_versions(
     object_version: ObjectVersion,
     object_version_ue5: ObjectVersionUE5,
 ) -> Vec<EngineVersion> {
-    let mut possible_versions = Vec::new();
-    if let Some(ue5_version) = OBJECT_VERSION_TO_ENGINE_VERSION_UE5
+    let candidates = OBJECT_VERSION_TO_ENGINE_VERSION
         .iter()
-        .find(|(version, _)| *version == object_version_ue5)
+        .filter(|(version, _)| *version == object_version)
         .map(|(_, engine_version)| *engine_version)
-    {
-        possible_versions.push(ue5_version);
-    }
+        .collect::<Vec<_>>();
 
-    possible_versions.extend(
-        OBJECT_VERSION_TO_ENGINE_VERSION
-            .iter()
-            .find(|(version, _)| *version == object_version)
-            .map(|(_, engine_version)| *engine_version),
-    );
+    // UE5 engines share their object version with 4.27, the UE5 object version tells them apart
+    let possible_versions = candidates
+        .iter()
+        .copied()
+        .filter(|e| get_object_versions(*e).1 == object_version_ue5)
+        .collect::<Vec<_>>();
 
-    possible_versions
+    match possible_versions.is_empty() {
+        true => candidates,
+        false => possible_versions,
+    }
 }
 
 /// Get object versions for a given engine version
@@ -305,7 +305,7 @@ pub fn guess_engine_version(
             .get_engine_version_from_version_number(custom_version.version)
             .unwrap_or(EngineVersion::UNKNOWN);
         let current_max_introduced = custom_version
-            .get_engine_version_from_version_number(custom_version.version + 1)
+            .get_engine_version_from_version_number(custom_version.version.saturating_add(1))
             .unwrap_or(EngineVersion::UNKNOWN);
 
         if current_min_introduced != EngineVersion::UNKNOWN
-- 
2.43.0


From 47a46542a8b1cd05c7095f932a3179206304e7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:46 +0000
Subject: [PATCH 19/82] fix: don't expand $ in the game name of a game path

---
 unreal_helpers/src/path.rs | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/unreal_helpers/src/path.rs b/unreal_helpers/src/path.rs
index 910416a..aed24bd 100644
--- a/unreal_helpers/src/path.rs
+++ b/unreal_helpers/src/path.rs
@@ -2,25 +2,13 @@
 
 use std::path::Path;
 
-use lazy_static::lazy_static;
-use regex::Regex;
-
-lazy_static! {
-    static ref GAME_REGEX: Regex = Regex::new(r"^/Game/").unwrap();
-}
-
 /// Turn an Unreal game path into an absolute path that can be used to access files on disk.
 /// Examples with game_name: TestGame
 /// /Game/Items/Conveyor -> /TestGame/Content/Items/Conveyor.uasset
 /// /Game/Maps/Planet.umap -> /TestGame/Content/Maps/Planet.umap
 pub fn game_to_absolute(game_name: &str, path: &str) -> Option<String> {
-    if !GAME_REGEX.is_match(path) {
-        return None;
-    }
-
-    let path_str = GAME_REGEX
-        .replace(path, String::from(game_name) + "/Content/")
-        .to_string();
+    let relative = path.strip_prefix("/Game/")?;
+    let path_str = String::from(game_name) + "/Content/" + relative;
     let path = Path::new(&path_str);
     match path.extension() {
         Some(_) => Some(path_str),
-- 
2.43.0


From 3fa1b4d53f4f317c76384c6cf542406a9d3d6153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:02 +0000
Subject: [PATCH 20/82] fix: count unversioned header fragments without
 overflow and find their non-zero values

---
 .../src/unversioned/header.rs                 | 28 +++++++++----------
 .../unreal_asset_properties/src/lib.rs        | 10 +++----
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/unversioned/header.rs b/unreal_asset/unreal_asset_base/src/unversioned/header.rs
index d234886..efca4c7 100644
--- a/unreal_asset/unreal_asset_base/src/unversioned/header.rs
+++ b/unreal_asset/unreal_asset_base/src/unversioned/header.rs
@@ -16,7 +16,7 @@ pub struct UnversionedHeaderFragment {
     /// Number of subsequent property values stured
     pub value_num: u8,
     /// First element index of this fragment
-    pub first_num: u8,
+    pub first_num: usize,
     /// Is this the last header fragment?
     pub is_last: bool,
     /// Has zeros
@@ -47,8 +47,8 @@ impl UnversionedHeaderFragment {
     const IS_LAST_MASK: u16 = 0x0100u16;
 
     /// Get last element index of this fragment
-    pub fn get_last_num(&self) -> u8 {
-        self.first_num + self.value_num - 1
+    pub fn get_last_num(&self) -> usize {
+        (self.first_num + self.value_num as usize).saturating_sub(1)
     }
 
     /// Read an `UnversionedHeaderFragment` from an asset
@@ -105,7 +105,7 @@ impl UnversionedHeader {
     /// Loads zero mask data from an asset
     fn load_zero_mask_data<Reader: ArchiveReader<impl PackageIndexTrait>>(
         asset: &mut Reader,
-        num_bits: u16,
+        num_bits: usize,
     ) -> Result<BitVec<u8, Lsb0>, Error> {
         if num_bits <= 8 {
             let mut data = [0u8; 1];
@@ -117,7 +117,7 @@ impl UnversionedHeader {
             Ok(BitVec::from_vec(data.to_vec()))
         } else {
             let num_bytes = ((num_bits + 31) / 32) * 4;
-            let mut data = Vec::with_capacity(num_bytes as usize);
+            let mut data = Vec::new();
             for _ in 0..num_bytes {
                 data.push(asset.read_u8()?);
             }
@@ -135,20 +135,20 @@ impl UnversionedHeader {
 
         let mut fragments = Vec::new();
 
-        let mut first_num = 0;
-        let mut zero_mask_num = 0u16;
-        let mut unmasked_num = 0u16;
+        let mut first_num = 0usize;
+        let mut zero_mask_num = 0usize;
+        let mut unmasked_num = 0usize;
 
         loop {
             let mut fragment = UnversionedHeaderFragment::read(asset)?;
-            fragment.first_num = first_num + fragment.skip_num;
-            first_num += fragment.skip_num + fragment.value_num;
+            fragment.first_num = first_num + fragment.skip_num as usize;
+            first_num = fragment.first_num + fragment.value_num as usize;
 
             fragments.push(fragment);
 
             match fragment.has_zeros {
-                true => zero_mask_num += fragment.value_num as u16,
-                false => unmasked_num += fragment.value_num as u16,
+                true => zero_mask_num += fragment.value_num as usize,
+                false => unmasked_num += fragment.value_num as usize,
             };
 
             if fragment.is_last {
@@ -159,7 +159,7 @@ impl UnversionedHeader {
         let (zero_mask, has_non_zero_values) = match zero_mask_num > 0 {
             true => {
                 let mask = UnversionedHeader::load_zero_mask_data(asset, zero_mask_num)?;
-                let has_non_zero_values = unmasked_num > 0 || mask.iter().all(|e| !*e);
+                let has_non_zero_values = unmasked_num > 0 || !mask[..zero_mask_num].all();
                 (mask, has_non_zero_values)
             }
             false => {
@@ -169,7 +169,7 @@ impl UnversionedHeader {
             }
         };
 
-        let unversioned_property_index = fragments[0].first_num as usize;
+        let unversioned_property_index = fragments[0].first_num;
         Ok(Some(UnversionedHeader {
             fragments,
             zero_mask,
diff --git a/unreal_asset/unreal_asset_properties/src/lib.rs b/unreal_asset/unreal_asset_properties/src/lib.rs
index 8025023..3915cba 100644
--- a/unreal_asset/unreal_asset_properties/src/lib.rs
+++ b/unreal_asset/unreal_asset_properties/src/lib.rs
@@ -540,13 +540,13 @@ impl Property {
 
             loop {
                 let current_fragment = header.fragments[header.current_fragment_index];
-                if header.unversioned_property_index > current_fragment.get_last_num() as usize {
+                if header.unversioned_property_index > current_fragment.get_last_num() {
                     break;
                 }
 
                 header.current_fragment_index += 1;
                 header.unversioned_property_index =
-                    header.fragments[header.current_fragment_index].first_num as usize;
+                    header.fragments[header.current_fragment_index].first_num;
             }
 
             let mut practicing_unversioned_property_index = header.unversioned_property_index;
@@ -1571,7 +1571,7 @@ pub fn generate_unversioned_header<W: ArchiveWriter<impl PackageIndexTrait>>(
             let fragment = UnversionedHeaderFragment {
                 skip_num: skip_num as u8,
                 value_num: value_num as u8,
-                first_num: start_index as u8,
+                first_num: start_index as usize,
                 is_last: false,
                 has_zeros,
             };
@@ -1597,7 +1597,7 @@ pub fn generate_unversioned_header<W: ArchiveWriter<impl PackageIndexTrait>>(
     let mut zero_mask = BitVec::<u8, Lsb0>::new();
 
     for fragment in fragments.iter().filter(|e| e.has_zeros) {
-        for i in 0..fragment.value_num {
+        for i in 0..fragment.value_num as usize {
             let is_zero = zero_properties.contains(&((fragment.first_num + i) as u32));
             if !is_zero {
                 has_non_zero_values = true;
@@ -1607,7 +1607,7 @@ pub fn generate_unversioned_header<W: ArchiveWriter<impl PackageIndexTrait>>(
     }
 
     let unversioned_property_index =
-        fragments.first().map(|e| e.first_num).unwrap_or_default() as usize;
+        fragments.first().map(|e| e.first_num).unwrap_or_default();
 
     let header = UnversionedHeader {
         fragments,
-- 
2.43.0


From 194f754f237e2c29be91a3748ed73d3fbf95bde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:52 +0000
Subject: [PATCH 21/82] fix: reject malformed usmap files and key their
 properties by array index

---
 .../unreal_asset_base/src/unversioned/mod.rs  | 34 ++++++++++++++-----
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
index af9e4f6..de39d0d 100644
--- a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
@@ -109,10 +109,13 @@ impl UsmapSchema {
             for j in 0..property.array_size {
                 let mut property = property.clone();
                 property.array_index = j as u16;
-                property.schema_index += j as u16;
+                property.schema_index =
+                    property.schema_index.checked_add(j as u16).ok_or_else(|| {
+                        Error::invalid_file("Schema index out of range".to_string())
+                    })?;
 
                 properties.insert(
-                    (property.name.clone(), property.schema_index as u32),
+                    (property.name.clone(), property.array_index as u32),
                     property,
                 );
             }
@@ -250,6 +253,8 @@ impl Usmap {
 
         let usmap_version = EUsmapVersion::try_from(reader.read_u8()?)?;
 
+        self.version = usmap_version;
+
         let mut has_versioning = usmap_version >= EUsmapVersion::PackageVersioning;
         if has_versioning {
             has_versioning = reader.read_bool()?;
@@ -267,6 +272,13 @@ impl Usmap {
         let compressed_size = reader.read_u32::<LE>()?;
         let decompressed_size = reader.read_u32::<LE>()?;
 
+        let remaining = reader.data_length()?.saturating_sub(reader.position());
+        if compressed_size as u64 > remaining {
+            return Err(Error::invalid_file(
+                "usmap data is longer than the file".to_string(),
+            ));
+        }
+
         let mut compressed_data = vec![0u8; compressed_size as usize];
         reader.read_exact(&mut compressed_data)?;
 
@@ -281,7 +293,7 @@ impl Usmap {
                 compressed_data
             }
             EUsmapCompressionMethod::Brotli => {
-                let mut decompressed_data = Cursor::new(vec![0u8; decompressed_size as usize]);
+                let mut decompressed_data = Cursor::new(Vec::new());
                 brotli::BrotliDecompress(
                     &mut Cursor::new(compressed_data),
                     &mut decompressed_data,
@@ -289,7 +301,7 @@ impl Usmap {
                 decompressed_data.into_inner()
             }
             EUsmapCompressionMethod::ZStandard => {
-                let mut decompressed_data = Cursor::new(vec![0u8; decompressed_size as usize]);
+                let mut decompressed_data = Cursor::new(Vec::new());
                 zstd::stream::copy_decode(
                     &mut Cursor::new(compressed_data),
                     &mut decompressed_data,
@@ -333,13 +345,16 @@ impl Usmap {
 
         self.name_map = reader.read_array(|reader| {
             let name_length = reader.read_u8()?;
-            let mut buf = vec![0u8; name_length as usize - 1];
+            let name_length = name_length
+                .checked_sub(1)
+                .ok_or_else(|| Error::invalid_file("Invalid name length".to_string()))?;
+            let mut buf = vec![0u8; name_length as usize];
             reader.read_exact(&mut buf)?;
             Ok(String::from_utf8(buf)?)
         })?;
 
         let enum_len = reader.read_u32::<LE>()?;
-        self.enum_map = IndexedMap::with_capacity(enum_len as usize);
+        self.enum_map = IndexedMap::new();
 
         let mut reader = UsmapReader::new(&mut reader, &self.name_map, &self.custom_versions);
 
@@ -357,7 +372,7 @@ impl Usmap {
         }
 
         let schemas_len = reader.read_u32::<LE>()?;
-        self.schemas = IndexedMap::with_capacity(schemas_len as usize);
+        self.schemas = IndexedMap::new();
 
         for _ in 0..schemas_len {
             let schema = UsmapSchema::read(&mut reader)?;
@@ -385,7 +400,10 @@ impl Usmap {
                         true => reader.read_u16::<LE>()?,
                         false => reader.read_u8()? as u16,
                     };
-                    schema.module_path = Some(module_paths[index as usize].clone());
+                    let module_path = module_paths.get(index as usize).ok_or_else(|| {
+                        Error::invalid_file("Module path index out of range".to_string())
+                    })?;
+                    schema.module_path = Some(module_path.clone());
                 }
             }
         }
-- 
2.43.0


From dd9347dce66a1868667f8749114d92a9762457b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:37 +0000
Subject: [PATCH 22/82] fix: argb color integers keep alpha in the top byte

---
 unreal_asset/unreal_asset_base/src/types/vector.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/types/vector.rs b/unreal_asset/unreal_asset_base/src/types/vector.rs
index d072bdd..bd307db 100644
--- a/unreal_asset/unreal_asset_base/src/types/vector.rs
+++ b/unreal_asset/unreal_asset_base/src/types/vector.rs
@@ -79,16 +79,16 @@ impl Color<u8> {
     /// Create a new `Color<u8>` instance from an argb int
     pub fn from_argb(argb: i32) -> Self {
         Color::new(
-            ((argb >> 24) & 0xff) as u8,
             ((argb >> 16) & 0xff) as u8,
             ((argb >> 8) & 0xff) as u8,
             (argb & 0xff) as u8,
+            ((argb >> 24) & 0xff) as u8,
         )
     }
 
     /// Convert to argb int
     pub fn to_argb(&self) -> i32 {
-        ((self.r as i32) << 24) | ((self.g as i32) << 16) | ((self.b as i32) << 8) | self.a as i32
+        ((self.a as i32) << 24) | ((self.r as i32) << 16) | ((self.g as i32) << 8) | self.b as i32
     }
 }
 
-- 
2.43.0


From 1044ea4f1647f1dc73ae9d9ae38cf11ee6381423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:37 +0000
Subject: [PATCH 23/82] fix: write box corners without a property guid, as they
 are read

---
 unreal_asset/unreal_asset_properties/src/vector_property.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/vector_property.rs b/unreal_asset/unreal_asset_properties/src/vector_property.rs
index 54bd823..5b1148a 100644
--- a/unreal_asset/unreal_asset_properties/src/vector_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/vector_property.rs
@@ -549,7 +549,7 @@ impl PropertyTrait for BoxProperty {
     ) -> Result<usize, Error> {
         optional_guid_write!(self, asset, include_header);
         let total_size =
-            self.v1.write(asset, include_header)? + self.v2.write(asset, include_header)?;
+            self.v1.write(asset, false)? + self.v2.write(asset, false)?;
         asset.write_bool(self.is_valid)?;
         Ok(total_size + size_of::<bool>())
     }
@@ -588,7 +588,7 @@ impl PropertyTrait for Box2DProperty {
         optional_guid_write!(self, asset, include_header);
 
         let total_size =
-            self.v1.write(asset, include_header)? + self.v2.write(asset, include_header)?;
+            self.v1.write(asset, false)? + self.v2.write(asset, false)?;
 
         asset.write_bool(self.is_valid)?;
         Ok(total_size + size_of::<bool>())
-- 
2.43.0


From f2bb75835c253a9438aff83f2d47f60af4db9a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:37 +0000
Subject: [PATCH 24/82] fix: write the weight of a cloth vertex once

---
 .../unreal_asset_properties/src/cloth_lod_property.rs  | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs b/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
index cb94c9b..1741ad1 100644
--- a/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
@@ -89,13 +89,13 @@ impl MeshToMeshVertData {
                 false => asset.write_u16::<LE>(0),
             }?;
             size += size_of::<u16>();
-
-            asset.write_f32::<LE>(self.weight.0)?;
-            size += size_of::<f32>();
-            asset.write_u32::<LE>(0)?;
-            size += size_of::<u32>();
         }
 
+        asset.write_f32::<LE>(self.weight.0)?;
+        size += size_of::<f32>();
+        asset.write_u32::<LE>(0)?;
+        size += size_of::<u32>();
+
         Ok(size)
     }
 }
-- 
2.43.0


From 3ba9fd66de8665493b470c7ec96c3782894609be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:37 +0000
Subject: [PATCH 25/82] fix: leave room for the length of a unique net id

---
 .../src/game_framework/unique_net_id_property.rs                 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unreal_asset/unreal_asset_properties/src/game_framework/unique_net_id_property.rs b/unreal_asset/unreal_asset_properties/src/game_framework/unique_net_id_property.rs
index 75764b6..91e4fca 100644
--- a/unreal_asset/unreal_asset_properties/src/game_framework/unique_net_id_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/game_framework/unique_net_id_property.rs
@@ -71,6 +71,7 @@ impl PropertyTrait for UniqueNetIdProperty {
         match &self.value {
             Some(value) => {
                 let mut length = 3 * size_of::<i32>();
+                asset.write_i32::<LE>(0)?;
                 asset.write_fname(&value.ty)?;
                 length += asset.write_fstring(value.contents.as_deref())?;
 
-- 
2.43.0


From ba16da18ce20a3ea31af80d2659091e6b973678b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:51 +0000
Subject: [PATCH 26/82] fix: write the sub face index of font data

---
 .../src/slate_core/font_data_property.rs                      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unreal_asset/unreal_asset_properties/src/slate_core/font_data_property.rs b/unreal_asset/unreal_asset_properties/src/slate_core/font_data_property.rs
index c829ac8..17c87c3 100644
--- a/unreal_asset/unreal_asset_properties/src/slate_core/font_data_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/slate_core/font_data_property.rs
@@ -121,6 +121,10 @@ impl FontData {
                     PropertyError::property_field_none("loading_policy", "Some(ELoadingPolicy)")
                 })? as u8)?;
             }
+
+            asset.write_i32::<LE>(self.sub_face_index.ok_or_else(|| {
+                PropertyError::property_field_none("sub_face_index", "Some(i32)")
+            })?)?;
         }
         Ok(())
     }
-- 
2.43.0


From 7419f9c881fe2c891e8b260a0b2b3103c2795650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:52 +0000
Subject: [PATCH 27/82] fix: keep the use-constant flag of material inputs

---
 .../src/material_input_property.rs            | 35 +++++++++++++------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/material_input_property.rs b/unreal_asset/unreal_asset_properties/src/material_input_property.rs
index aba95b2..54ad726 100644
--- a/unreal_asset/unreal_asset_properties/src/material_input_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/material_input_property.rs
@@ -32,6 +32,8 @@ pub struct ColorMaterialInputProperty {
     pub duplication_index: i32,
     /// Material expression
     pub material_expression: MaterialExpression,
+    /// Is the constant value used instead of the expression
+    pub use_constant: bool,
     /// Color value
     pub value: ColorProperty,
 }
@@ -50,6 +52,8 @@ pub struct ScalarMaterialInputProperty {
     pub duplication_index: i32,
     /// Material expression
     pub material_expression: MaterialExpression,
+    /// Is the constant value used instead of the expression
+    pub use_constant: bool,
     /// Scalar value
     pub value: OrderedFloat<f32>,
 }
@@ -68,6 +72,8 @@ pub struct ShadingModelMaterialInputProperty {
     pub duplication_index: i32,
     /// Material expression
     pub material_expression: MaterialExpression,
+    /// Is the constant value used instead of the expression
+    pub use_constant: bool,
     /// Shading model value
     pub value: u32,
 }
@@ -86,6 +92,8 @@ pub struct VectorMaterialInputProperty {
     pub duplication_index: i32,
     /// Material expression
     pub material_expression: MaterialExpression,
+    /// Is the constant value used instead of the expression
+    pub use_constant: bool,
     /// Vector value
     pub value: VectorProperty,
 }
@@ -104,6 +112,8 @@ pub struct Vector2MaterialInputProperty {
     pub duplication_index: i32,
     /// Material expression
     pub material_expression: MaterialExpression,
+    /// Is the constant value used instead of the expression
+    pub use_constant: bool,
     /// Vector2D value
     pub value: Vector2DProperty,
 }
@@ -188,7 +198,7 @@ impl ColorMaterialInputProperty {
     ) -> Result<Self, Error> {
         let property_guid = optional_guid!(asset, include_header);
         let material_expression = MaterialExpression::new(asset, name.clone(), false)?;
-        asset.read_i32::<LE>()?;
+        let use_constant = asset.read_i32::<LE>()? != 0;
 
         let value = ColorProperty::new(
             asset,
@@ -204,6 +214,7 @@ impl ColorMaterialInputProperty {
             property_guid,
             duplication_index,
             material_expression,
+            use_constant,
             value,
         })
     }
@@ -217,7 +228,7 @@ impl PropertyTrait for ColorMaterialInputProperty {
     ) -> Result<usize, Error> {
         optional_guid_write!(self, asset, include_header);
         let exp_len = self.material_expression.write(asset, false)?;
-        asset.write_i32::<LE>(0)?;
+        asset.write_i32::<LE>(self.use_constant as i32)?;
         let value_len = self.value.write(asset, false)?;
         Ok(exp_len + value_len + size_of::<i32>())
     }
@@ -234,7 +245,7 @@ impl ScalarMaterialInputProperty {
     ) -> Result<Self, Error> {
         let property_guid = optional_guid!(asset, include_header);
         let material_expression = MaterialExpression::new(asset, name.clone(), false)?;
-        asset.read_i32::<LE>()?;
+        let use_constant = asset.read_i32::<LE>()? != 0;
 
         let value = asset.read_f32::<LE>()?;
 
@@ -244,6 +255,7 @@ impl ScalarMaterialInputProperty {
             property_guid,
             duplication_index,
             material_expression,
+            use_constant,
             value: OrderedFloat(value),
         })
     }
@@ -257,7 +269,7 @@ impl PropertyTrait for ScalarMaterialInputProperty {
     ) -> Result<usize, Error> {
         optional_guid_write!(self, asset, include_header);
         let exp_len = self.material_expression.write(asset, false)?;
-        asset.write_i32::<LE>(0)?;
+        asset.write_i32::<LE>(self.use_constant as i32)?;
         asset.write_f32::<LE>(self.value.0)?;
         Ok(exp_len + size_of::<f32>() + size_of::<i32>())
     }
@@ -275,7 +287,7 @@ impl ShadingModelMaterialInputProperty {
         let property_guid = optional_guid!(asset, include_header);
         let material_expression = MaterialExpression::new(asset, name.clone(), false)?;
 
-        asset.read_i32::<LE>()?;
+        let use_constant = asset.read_i32::<LE>()? != 0;
         let value = asset.read_u32::<LE>()?;
         Ok(ShadingModelMaterialInputProperty {
             name,
@@ -283,6 +295,7 @@ impl ShadingModelMaterialInputProperty {
             property_guid,
             duplication_index,
             material_expression,
+            use_constant,
             value,
         })
     }
@@ -296,7 +309,7 @@ impl PropertyTrait for ShadingModelMaterialInputProperty {
     ) -> Result<usize, Error> {
         optional_guid_write!(self, asset, include_header);
         let exp_len = self.material_expression.write(asset, false)?;
-        asset.write_i32::<LE>(0)?;
+        asset.write_i32::<LE>(self.use_constant as i32)?;
         asset.write_u32::<LE>(self.value)?;
         Ok(exp_len + size_of::<u32>() + size_of::<i32>())
     }
@@ -314,7 +327,7 @@ impl VectorMaterialInputProperty {
         let property_guid = optional_guid!(asset, include_header);
         let material_expression = MaterialExpression::new(asset, name.clone(), false)?;
 
-        asset.read_i32::<LE>()?;
+        let use_constant = asset.read_i32::<LE>()? != 0;
         let value = VectorProperty::new(
             asset,
             name.clone(),
@@ -328,6 +341,7 @@ impl VectorMaterialInputProperty {
             property_guid,
             duplication_index,
             material_expression,
+            use_constant,
             value,
         })
     }
@@ -341,7 +355,7 @@ impl PropertyTrait for VectorMaterialInputProperty {
     ) -> Result<usize, Error> {
         optional_guid_write!(self, asset, include_header);
         let exp_len = self.material_expression.write(asset, false)?;
-        asset.write_i32::<LE>(0)?;
+        asset.write_i32::<LE>(self.use_constant as i32)?;
         let value_len = self.value.write(asset, false)?;
         Ok(exp_len + value_len + size_of::<i32>())
     }
@@ -359,7 +373,7 @@ impl Vector2MaterialInputProperty {
         let property_guid = optional_guid!(asset, include_header);
         let material_expression = MaterialExpression::new(asset, name.clone(), false)?;
 
-        asset.read_i32::<LE>()?;
+        let use_constant = asset.read_i32::<LE>()? != 0;
         let value = Vector2DProperty::new(
             asset,
             name.clone(),
@@ -373,6 +387,7 @@ impl Vector2MaterialInputProperty {
             property_guid,
             duplication_index,
             material_expression,
+            use_constant,
             value,
         })
     }
@@ -386,7 +401,7 @@ impl PropertyTrait for Vector2MaterialInputProperty {
     ) -> Result<usize, Error> {
         optional_guid_write!(self, asset, include_header);
         let exp_len = self.material_expression.write(asset, false)?;
-        asset.write_i32::<LE>(0)?;
+        asset.write_i32::<LE>(self.use_constant as i32)?;
         let value_len = self.value.write(asset, false)?;
         Ok(exp_len + value_len + size_of::<i32>())
     }
-- 
2.43.0


From f6fd1e7d0f4e731e8d2cbf11a962f20ff3f2843c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:11 +0000
Subject: [PATCH 28/82] fix: read as many items of an evaluation tree as it
 has, not one per entry

---
 .../src/movies/movie_scene_evaluation.rs             | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs
index 9479bd0..66a92d1 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs
@@ -136,18 +136,10 @@ where
         item_reader: fn(&mut Reader) -> Result<T, Error>,
     ) -> Result<Self, Error> {
         let entries_amount = asset.read_i32::<LE>()?;
-        let mut entries = Vec::with_capacity(entries_amount as usize);
-
-        for _ in 0..entries_amount {
-            entries.push(FEntry::new(asset)?);
-        }
+        let entries = asset.read_array_with_length(entries_amount, |e| FEntry::new(e))?;
 
         let items_amount = asset.read_i32::<LE>()?;
-        let mut items = Vec::with_capacity(items_amount as usize);
-
-        for _ in 0..entries_amount {
-            items.push(item_reader(asset)?);
-        }
+        let items = asset.read_array_with_length(items_amount, item_reader)?;
 
         Ok(TEvaluationTreeEntryContainer { entries, items })
     }
-- 
2.43.0


From c1bed218b7af5aaee7bc2051f67e8aefe4b78d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:23 +0000
Subject: [PATCH 29/82] fix: reject property counts and lengths that don't fit
 the data instead of over-allocating

---
 .../src/reader/archive_reader.rs              | 17 ++++++++++++++++
 .../src/cloth_lod_property.rs                 | 15 ++++++--------
 .../src/delegate_property.rs                  | 13 ++++++------
 .../src/gameplay_tag_container_property.rs    |  5 +----
 .../movie_scene_event_parameters_property.rs  |  3 +--
 .../movie_scene_float_channel_property.rs     | 13 +++++-------
 .../movies/movie_scene_segment_property.rs    |  8 +++-----
 .../src/per_platform_property.rs              | 19 ++++--------------
 .../src/raw_struct_property.rs                |  3 +--
 .../src/sampler_property.rs                   | 20 ++++---------------
 .../src/unknown_property.rs                   |  3 +--
 .../src/world_tile_property.rs                |  9 +++------
 12 files changed, 52 insertions(+), 76 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs b/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
index 5cf1da7..2bdd1eb 100644
--- a/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
+++ b/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
@@ -220,6 +220,23 @@ pub trait ArchiveReader<Index: PackageIndexTrait>: ArchiveTrait<Index> + Read {
         self.read_array_with_length(length, getter)
     }
 
+    /// Read `length` bytes
+    ///
+    /// Fails if the length is negative or if the archive ends before that
+    fn read_bytes(&mut self, length: i64) -> Result<Vec<u8>, Error>
+    where
+        Self: Sized,
+    {
+        let length = u64::try_from(length)
+            .map_err(|_| Error::invalid_file(format!("Invalid data length: {length}")))?;
+        let mut data = Vec::new();
+        self.by_ref().take(length).read_to_end(&mut data)?;
+        if data.len() as u64 != length {
+            return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+        }
+        Ok(data)
+    }
+
     /// Read an FString
     fn read_fstring(&mut self) -> Result<Option<String>, Error>;
     /// Read an FString with a `SerializedNameHeader`
diff --git a/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs b/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
index 1741ad1..4118d0b 100644
--- a/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
@@ -133,17 +133,14 @@ impl ClothLodDataProperty {
         )?;
 
         let transition_up_skin_data_len = asset.read_i32::<LE>()?;
-        let mut transition_up_skin_data = Vec::with_capacity(transition_up_skin_data_len as usize);
-        for _ in 0..transition_up_skin_data_len {
-            transition_up_skin_data.push(MeshToMeshVertData::new(asset)?);
-        }
+        let transition_up_skin_data = asset
+            .read_array_with_length(transition_up_skin_data_len, |e| MeshToMeshVertData::new(e))?;
 
         let transition_down_skin_data_len = asset.read_i32::<LE>()?;
-        let mut transition_down_skin_data =
-            Vec::with_capacity(transition_down_skin_data_len as usize);
-        for _ in 0..transition_down_skin_data_len {
-            transition_down_skin_data.push(MeshToMeshVertData::new(asset)?);
-        }
+        let transition_down_skin_data = asset
+            .read_array_with_length(transition_down_skin_data_len, |e| {
+                MeshToMeshVertData::new(e)
+            })?;
 
         Ok(ClothLodDataProperty {
             struct_property,
diff --git a/unreal_asset/unreal_asset_properties/src/delegate_property.rs b/unreal_asset/unreal_asset_properties/src/delegate_property.rs
index a0934d7..09071f7 100644
--- a/unreal_asset/unreal_asset_properties/src/delegate_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/delegate_property.rs
@@ -106,13 +106,12 @@ macro_rules! impl_multicast {
                 let property_guid = optional_guid!(asset, include_header);
 
                 let length = asset.read_i32::<LE>()?;
-                let mut value = Vec::with_capacity(length as usize);
-                for _ in 0..length {
-                    value.push(Delegate::new(
-                        PackageIndex::new(asset.read_i32::<LE>()?),
-                        asset.read_fname()?,
-                    ));
-                }
+                let value = asset.read_array_with_length(length, |e| {
+                    Ok(Delegate::new(
+                        PackageIndex::new(e.read_i32::<LE>()?),
+                        e.read_fname()?,
+                    ))
+                })?;
 
                 Ok($property_name {
                     name,
diff --git a/unreal_asset/unreal_asset_properties/src/gameplay_tag_container_property.rs b/unreal_asset/unreal_asset_properties/src/gameplay_tag_container_property.rs
index e963d48..2585fa9 100644
--- a/unreal_asset/unreal_asset_properties/src/gameplay_tag_container_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/gameplay_tag_container_property.rs
@@ -31,10 +31,7 @@ impl GameplayTagContainerProperty {
         let property_guid = optional_guid!(asset, include_header);
 
         let length = asset.read_i32::<LE>()?;
-        let mut value = Vec::with_capacity(length as usize);
-        for _i in 0..length as usize {
-            value.push(asset.read_fname()?);
-        }
+        let value = asset.read_array_with_length(length, |e| e.read_fname())?;
 
         Ok(GameplayTagContainerProperty {
             name,
diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_event_parameters_property.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_event_parameters_property.rs
index ab178b6..c454d5e 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_event_parameters_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_event_parameters_property.rs
@@ -19,8 +19,7 @@ impl MovieSceneEventParameters {
         let struct_type = SoftObjectPath::new(asset)?;
 
         let struct_bytes_length = asset.read_i32::<LE>()?;
-        let mut struct_bytes = vec![0u8; struct_bytes_length as usize];
-        asset.read_exact(&mut struct_bytes)?;
+        let struct_bytes = asset.read_bytes(struct_bytes_length as i64)?;
 
         Ok(MovieSceneEventParameters {
             struct_type,
diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_float_channel_property.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_float_channel_property.rs
index 55ae5a1..9fc23a4 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_float_channel_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_float_channel_property.rs
@@ -46,19 +46,16 @@ impl MovieSceneFloatChannel {
         let times_struct_length = asset.read_i32::<LE>()?;
         let times_length = asset.read_i32::<LE>()?;
 
-        let mut times = Vec::with_capacity(times_length as usize);
-        for _ in 0..times_length {
-            times.push(FrameNumber::new(asset.read_i32::<LE>()?));
-        }
+        let times = asset
+            .read_array_with_length(times_length, |e| Ok(FrameNumber::new(e.read_i32::<LE>()?)))?;
 
         let values_struct_length = asset.read_i32::<LE>()?;
         let values_length = asset.read_i32::<LE>()?;
 
-        let mut values = Vec::with_capacity(values_length as usize);
-        for _ in 0..values_length {
+        let values = asset.read_array_with_length(values_length, |e| {
             //todo: clangwin64 is always false?
-            values.push(MovieSceneFloatValue::new(asset, false)?);
-        }
+            MovieSceneFloatValue::new(e, false)
+        })?;
 
         let default_value = asset.read_f32::<LE>()?;
         let has_default_value = asset.read_i32::<LE>()? == 1;
diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_segment_property.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_segment_property.rs
index 0a0e075..0a74e2e 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_segment_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_segment_property.rs
@@ -60,9 +60,7 @@ impl MovieSceneSegment {
         let allow_empty = asset.read_i32::<LE>()? != 0;
 
         let impls_length = asset.read_i32::<LE>()?;
-        let mut impls = Vec::with_capacity(impls_length as usize);
-
-        for _ in 0..impls_length {
+        let impls = asset.read_array_with_length(impls_length, |asset| {
             let mut properties_list = Vec::new();
             let mut unversioned_header = UnversionedHeader::new(asset)?;
             while let Some(property) =
@@ -71,8 +69,8 @@ impl MovieSceneSegment {
                 properties_list.push(property);
             }
 
-            impls.push(properties_list);
-        }
+            Ok(properties_list)
+        })?;
 
         Ok(MovieSceneSegment {
             name,
diff --git a/unreal_asset/unreal_asset_properties/src/per_platform_property.rs b/unreal_asset/unreal_asset_properties/src/per_platform_property.rs
index 615ac35..df6491f 100644
--- a/unreal_asset/unreal_asset_properties/src/per_platform_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/per_platform_property.rs
@@ -63,11 +63,7 @@ impl PerPlatformBoolProperty {
         let property_guid = optional_guid!(asset, include_header);
 
         let num_entries = asset.read_i32::<LE>()?;
-        let mut value = Vec::with_capacity(num_entries as usize);
-
-        for _i in 0..num_entries as usize {
-            value.push(asset.read_bool()?);
-        }
+        let value = asset.read_array_with_length(num_entries, |e| Ok(e.read_bool()?))?;
 
         Ok(PerPlatformBoolProperty {
             name,
@@ -107,11 +103,7 @@ impl PerPlatformIntProperty {
         let property_guid = optional_guid!(asset, include_header);
 
         let num_entries = asset.read_i32::<LE>()?;
-        let mut value = Vec::with_capacity(num_entries as usize);
-
-        for _i in 0..num_entries as usize {
-            value.push(asset.read_i32::<LE>()?);
-        }
+        let value = asset.read_array_with_length(num_entries, |e| Ok(e.read_i32::<LE>()?))?;
 
         Ok(PerPlatformIntProperty {
             name,
@@ -151,11 +143,8 @@ impl PerPlatformFloatProperty {
         let property_guid = optional_guid!(asset, include_header);
 
         let num_entries = asset.read_i32::<LE>()?;
-        let mut value = Vec::with_capacity(num_entries as usize);
-
-        for _i in 0..num_entries as usize {
-            value.push(OrderedFloat(asset.read_f32::<LE>()?));
-        }
+        let value =
+            asset.read_array_with_length(num_entries, |e| Ok(OrderedFloat(e.read_f32::<LE>()?)))?;
 
         Ok(PerPlatformFloatProperty {
             name,
diff --git a/unreal_asset/unreal_asset_properties/src/raw_struct_property.rs b/unreal_asset/unreal_asset_properties/src/raw_struct_property.rs
index 7aa89b2..e65ed90 100644
--- a/unreal_asset/unreal_asset_properties/src/raw_struct_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/raw_struct_property.rs
@@ -30,8 +30,7 @@ impl RawStructProperty {
     ) -> Result<Self, Error> {
         let property_guid = optional_guid!(asset, include_header);
 
-        let mut value = vec![0u8; length as usize];
-        asset.read_exact(&mut value)?;
+        let value = asset.read_bytes(length)?;
 
         Ok(RawStructProperty {
             name,
diff --git a/unreal_asset/unreal_asset_properties/src/sampler_property.rs b/unreal_asset/unreal_asset_properties/src/sampler_property.rs
index d54b6b3..1fc8039 100644
--- a/unreal_asset/unreal_asset_properties/src/sampler_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/sampler_property.rs
@@ -71,16 +71,10 @@ impl WeightedRandomSamplerProperty {
         let property_guid = optional_guid!(asset, include_header);
 
         let size = asset.read_i32::<LE>()?;
-        let mut prob = Vec::with_capacity(size as usize);
-        for _i in 0..size as usize {
-            prob.push(OrderedFloat(asset.read_f32::<LE>()?));
-        }
+        let prob = asset.read_array_with_length(size, |e| Ok(OrderedFloat(e.read_f32::<LE>()?)))?;
 
         let size = asset.read_i32::<LE>()?;
-        let mut alias = Vec::with_capacity(size as usize);
-        for _i in 0..size as usize {
-            alias.push(asset.read_i32::<LE>()?);
-        }
+        let alias = asset.read_array_with_length(size, |e| Ok(e.read_i32::<LE>()?))?;
 
         let total_weight = OrderedFloat(asset.read_f32::<LE>()?);
 
@@ -135,16 +129,10 @@ impl SkeletalMeshAreaWeightedTriangleSampler {
         let property_guid = optional_guid!(asset, include_header);
 
         let size = asset.read_i32::<LE>()?;
-        let mut prob = Vec::with_capacity(size as usize);
-        for _i in 0..size as usize {
-            prob.push(OrderedFloat(asset.read_f32::<LE>()?));
-        }
+        let prob = asset.read_array_with_length(size, |e| Ok(OrderedFloat(e.read_f32::<LE>()?)))?;
 
         let size = asset.read_i32::<LE>()?;
-        let mut alias = Vec::with_capacity(size as usize);
-        for _i in 0..size as usize {
-            alias.push(asset.read_i32::<LE>()?);
-        }
+        let alias = asset.read_array_with_length(size, |e| Ok(e.read_i32::<LE>()?))?;
 
         let total_weight = OrderedFloat(asset.read_f32::<LE>()?);
 
diff --git a/unreal_asset/unreal_asset_properties/src/unknown_property.rs b/unreal_asset/unreal_asset_properties/src/unknown_property.rs
index ade5731..0cfb9b2 100644
--- a/unreal_asset/unreal_asset_properties/src/unknown_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/unknown_property.rs
@@ -34,8 +34,7 @@ impl UnknownProperty {
         serialized_type: FName,
     ) -> Result<Self, Error> {
         let property_guid = optional_guid!(asset, include_header);
-        let mut value = vec![0u8; length as usize];
-        asset.read_exact(&mut value)?;
+        let value = asset.read_bytes(length)?;
 
         Ok(UnknownProperty {
             name,
diff --git a/unreal_asset/unreal_asset_properties/src/world_tile_property.rs b/unreal_asset/unreal_asset_properties/src/world_tile_property.rs
index 76d0d8f..777097f 100644
--- a/unreal_asset/unreal_asset_properties/src/world_tile_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/world_tile_property.rs
@@ -185,12 +185,9 @@ impl FWorldTileInfo {
 
         let mut lod_list = None;
         if object_version >= ObjectVersion::VER_UE4_WORLD_LEVEL_INFO_LOD_LIST {
-            let num_entries = asset.read_i32::<LE>()? as usize;
-            let mut list = Vec::with_capacity(num_entries);
-            for _i in 0..num_entries {
-                list.push(FWorldTileLODInfo::new(asset)?);
-            }
-            lod_list = Some(list);
+            let num_entries = asset.read_i32::<LE>()?;
+            lod_list =
+                Some(asset.read_array_with_length(num_entries, |e| FWorldTileLODInfo::new(e))?);
         }
 
         let z_order = match object_version >= ObjectVersion::VER_UE4_WORLD_LEVEL_INFO_ZORDER {
-- 
2.43.0


From 236ccbcda20522d2bff4f581cf37701a2b5ff1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:43 +0000
Subject: [PATCH 30/82] fix: don't keep the name map borrowed while reading a
 property

---
 unreal_asset/unreal_asset_properties/src/lib.rs          | 8 +++++---
 unreal_asset/unreal_asset_properties/src/map_property.rs | 5 +++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/lib.rs b/unreal_asset/unreal_asset_properties/src/lib.rs
index 3915cba..39d30bd 100644
--- a/unreal_asset/unreal_asset_properties/src/lib.rs
+++ b/unreal_asset/unreal_asset_properties/src/lib.rs
@@ -639,8 +639,10 @@ impl Property {
             return Ok(EmptyProperty::new(type_name.clone(), name, ancestry).into());
         }
 
-        type_name.get_content(|ty| {
-            Ok::<Property, Error>(match ty {
+        // reading some of the types adds names, so the name map can't stay borrowed here
+        let ty = type_name.get_owned_content();
+        {
+            Ok::<Property, Error>(match ty.as_str() {
                 "BoolProperty" => BoolProperty::new(
                     asset,
                     name,
@@ -1324,7 +1326,7 @@ impl Property {
                 )?
                 .into(),
             })
-        })
+        }
     }
 
     /// Writes a property to an ArchiveWriter
diff --git a/unreal_asset/unreal_asset_properties/src/map_property.rs b/unreal_asset/unreal_asset_properties/src/map_property.rs
index 7d6871a..e77e091 100644
--- a/unreal_asset/unreal_asset_properties/src/map_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/map_property.rs
@@ -51,7 +51,8 @@ impl MapProperty {
         is_key: bool,
     ) -> Result<Property, Error> {
         let new_ancestry = ancestry.with_parent(name.clone());
-        type_name.get_content(|ty| match ty {
+        // reading some of the types adds names, so the name map can't stay borrowed here
+        match type_name.get_owned_content().as_str() {
             "StructProperty" => {
                 let mut struct_type = None;
 
@@ -113,7 +114,7 @@ impl MapProperty {
                 0,
                 false,
             ),
-        })
+        }
     }
 
     /// Read a `MapProperty` from an asset
-- 
2.43.0


From f6afda9f12294eb7befa7d48b01ca174f2b9d9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:16 +0000
Subject: [PATCH 31/82] fix: write the empty type name of a null template
 pointer

---
 .../src/movies/movie_scene_eval_template_ptr_property.rs      | 4 ++++
 .../movies/movie_scene_track_implementation_ptr_property.rs   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs
index 1a43da5..1d2a9a5 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs
@@ -101,6 +101,10 @@ impl PropertyTrait for MovieSceneEvalTemplatePtrProperty {
             }
         }
 
+        if self.value.is_empty() {
+            asset.write_fstring(None)?;
+        }
+
         if had_typename && !asset.has_unversioned_properties() {
             let none_fname = asset.add_fname("None");
             asset.write_fname(&none_fname)?;
diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs
index c41ad45..f0b2721 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs
@@ -89,6 +89,10 @@ impl PropertyTrait for MovieSceneTrackImplementationPtrProperty {
             }
         }
 
+        if self.value.is_empty() {
+            asset.write_fstring(None)?;
+        }
+
         if had_typename {
             let none_fname = asset.add_fname("None");
             asset.write_fname(&none_fname)?;
-- 
2.43.0


From a974d32cf67cc00ce0ed7bec2c3e5031b5fbe991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:19 +0000
Subject: [PATCH 32/82] fix: write the struct guid of struct arrays

---
 unreal_asset/unreal_asset_properties/src/array_property.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_properties/src/array_property.rs b/unreal_asset/unreal_asset_properties/src/array_property.rs
index 5c62eb0..3b3ca9e 100644
--- a/unreal_asset/unreal_asset_properties/src/array_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/array_property.rs
@@ -286,7 +286,7 @@ impl ArrayProperty {
                 )?;
                 if asset.get_object_version() >= ObjectVersion::VER_UE4_STRUCT_GUID_IN_PROPERTY_TAG
                 {
-                    asset.write_guid(&property.property_guid.unwrap_or_default())?;
+                    asset.write_guid(&property.struct_guid.unwrap_or_default())?;
                 }
                 if asset.get_object_version()
                     >= ObjectVersion::VER_UE4_PROPERTY_GUID_IN_PROPERTY_TAG
-- 
2.43.0


From 8260036fe59bc9319661f30ef6691c77fa86c08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:19 +0000
Subject: [PATCH 33/82] fix: keep the name of a struct array apart from the
 name in its inner tag

---
 .../unreal_asset_properties/src/array_property.rs    | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/array_property.rs b/unreal_asset/unreal_asset_properties/src/array_property.rs
index 3b3ca9e..53496e5 100644
--- a/unreal_asset/unreal_asset_properties/src/array_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/array_property.rs
@@ -83,7 +83,6 @@ impl ArrayProperty {
     ) -> Result<Self, Error> {
         let num_entries = asset.read_i32::<LE>()?;
         let mut entries = Vec::new();
-        let mut name = name;
 
         let mut struct_length = 1;
         let mut struct_guid = None;
@@ -123,9 +122,10 @@ impl ArrayProperty {
             && !asset.has_unversioned_properties()
         {
             let mut full_type = FName::from_slice("Generic");
+            let mut struct_name = name.clone();
             if asset.get_object_version() >= ObjectVersion::VER_UE4_INNER_ARRAY_TAG_INFO {
-                name = asset.read_fname()?;
-                if name == "None" {
+                struct_name = asset.read_fname()?;
+                if struct_name == "None" {
                     return Ok(ArrayProperty::default());
                 }
 
@@ -160,8 +160,8 @@ impl ArrayProperty {
 
             if num_entries == 0 {
                 dummy_struct = Some(StructProperty::dummy(
-                    name.clone(),
-                    ancestry.with_parent(name.clone()),
+                    struct_name.clone(),
+                    ancestry.with_parent(struct_name.clone()),
                     full_type.clone(),
                     struct_guid,
                 ));
@@ -169,7 +169,7 @@ impl ArrayProperty {
             for _i in 0..num_entries {
                 let data = StructProperty::custom_header(
                     asset,
-                    name.clone(),
+                    struct_name.clone(),
                     new_ancestry.clone(),
                     struct_length,
                     0,
-- 
2.43.0


From c41af5107b29d580eaf7672c56bfe1872f20a528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:19 +0000
Subject: [PATCH 34/82] fix: the size in the inner tag of a struct array
 doesn't depend on the outer header

---
 .../unreal_asset_properties/src/array_property.rs    | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/array_property.rs b/unreal_asset/unreal_asset_properties/src/array_property.rs
index 53496e5..2fc1e86 100644
--- a/unreal_asset/unreal_asset_properties/src/array_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/array_property.rs
@@ -274,6 +274,7 @@ impl ArrayProperty {
             }?;
 
             let mut length_loc = None;
+            let mut data_loc = 0;
             if asset.get_object_version() >= ObjectVersion::VER_UE4_INNER_ARRAY_TAG_INFO {
                 asset.write_fname(&property.name)?;
                 asset.write_fname(&asset.get_name_map().get_mut().add_fname("StructProperty"))?;
@@ -293,6 +294,7 @@ impl ArrayProperty {
                 {
                     asset.write_u8(0)?;
                 }
+                data_loc = asset.position();
             }
 
             for property in &self.value {
@@ -308,17 +310,9 @@ impl ArrayProperty {
 
             if asset.get_object_version() >= ObjectVersion::VER_UE4_INNER_ARRAY_TAG_INFO {
                 let length_loc = length_loc.expect("Corrupted memory");
-                let full_len = asset.position() - length_loc;
                 let new_loc = asset.position();
                 asset.seek(SeekFrom::Start(length_loc))?;
-                let length = full_len
-                    - 32
-                    - match include_header {
-                        true => 1,
-                        false => 0,
-                    };
-
-                asset.write_i32::<LE>(length as i32)?;
+                asset.write_i32::<LE>((new_loc - data_loc) as i32)?;
                 asset.seek(SeekFrom::Start(new_loc))?;
             }
         } else {
-- 
2.43.0


From ffdd3ce045d69ca319ddc6261706c315e629fdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:19 +0000
Subject: [PATCH 35/82] fix: keep all removed keys of a map and reject negative
 container sizes

---
 .../src/array_property.rs                      |  5 +++++
 .../src/map_property.rs                        | 18 ++++++++++--------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/array_property.rs b/unreal_asset/unreal_asset_properties/src/array_property.rs
index 2fc1e86..ae160cf 100644
--- a/unreal_asset/unreal_asset_properties/src/array_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/array_property.rs
@@ -82,6 +82,11 @@ impl ArrayProperty {
         property_guid: Option<Guid>,
     ) -> Result<Self, Error> {
         let num_entries = asset.read_i32::<LE>()?;
+        if num_entries < 0 {
+            return Err(Error::invalid_file(format!(
+                "Invalid array length: {num_entries}"
+            )));
+        }
         let mut entries = Vec::new();
 
         let mut struct_length = 1;
diff --git a/unreal_asset/unreal_asset_properties/src/map_property.rs b/unreal_asset/unreal_asset_properties/src/map_property.rs
index e77e091..8272155 100644
--- a/unreal_asset/unreal_asset_properties/src/map_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/map_property.rs
@@ -151,14 +151,11 @@ impl MapProperty {
         }
 
         let num_keys_to_remove = asset.read_i32::<LE>()?;
-        let mut keys_to_remove = None;
-
         let type_1 = type_1.ok_or_else(|| Error::invalid_file("No type1".to_string()))?;
         let type_2 = type_2.ok_or_else(|| Error::invalid_file("No type2".to_string()))?;
 
-        for _ in 0..num_keys_to_remove as usize {
-            let mut vec = Vec::with_capacity(num_keys_to_remove as usize);
-            vec.push(MapProperty::map_type_to_class(
+        let keys_to_remove = asset.read_array_with_length(num_keys_to_remove, |asset| {
+            MapProperty::map_type_to_class(
                 asset,
                 type_1.clone(),
                 name.clone(),
@@ -166,11 +163,16 @@ impl MapProperty {
                 0,
                 false,
                 true,
-            )?);
-            keys_to_remove = Some(vec);
-        }
+            )
+        })?;
+        let keys_to_remove = (!keys_to_remove.is_empty()).then_some(keys_to_remove);
 
         let num_entries = asset.read_i32::<LE>()?;
+        if num_entries < 0 {
+            return Err(Error::invalid_file(format!(
+                "Invalid map length: {num_entries}"
+            )));
+        }
         let mut values: IndexedMap<Property, Property> = IndexedMap::new();
 
         for _ in 0..num_entries {
-- 
2.43.0


From 8074735af44854731ad92bd814be9dc951a91055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:19 +0000
Subject: [PATCH 36/82] fix: write empty structs of custom serialized types

---
 unreal_asset/unreal_asset_properties/src/struct_property.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/struct_property.rs b/unreal_asset/unreal_asset_properties/src/struct_property.rs
index 01de970..e77b3a4 100644
--- a/unreal_asset/unreal_asset_properties/src/struct_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/struct_property.rs
@@ -283,7 +283,9 @@ impl StructProperty {
             }
         }
 
-        if has_custom_serialization {
+        if self.value.is_empty() && !self.serialize_none {
+            Ok(0)
+        } else if has_custom_serialization {
             if self.value.len() != 1 {
                 return Err(PropertyError::invalid_struct(
                     struct_type
@@ -295,8 +297,6 @@ impl StructProperty {
                 .into());
             }
             self.value[0].write(asset, false)
-        } else if self.value.is_empty() && !self.serialize_none {
-            Ok(0)
         } else {
             let begin = asset.position();
 
-- 
2.43.0


From c8edbc862ec0e5390f82b5e5839524c903f8e0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:34 +0000
Subject: [PATCH 37/82] fix: estimate the size of set elements without the
 removed ones

---
 unreal_asset/unreal_asset_properties/src/set_property.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_properties/src/set_property.rs b/unreal_asset/unreal_asset_properties/src/set_property.rs
index 3e80fd5..c2c5298 100644
--- a/unreal_asset/unreal_asset_properties/src/set_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/set_property.rs
@@ -38,6 +38,7 @@ impl SetProperty {
             false => (None, None),
         };
 
+        let begin = asset.position();
         let removed_items = ArrayProperty::new_no_header(
             asset,
             name.clone(),
@@ -50,12 +51,13 @@ impl SetProperty {
             property_guid,
         )?;
 
+        let items_length = length - (asset.position() - begin) as i64;
         let items = ArrayProperty::new_no_header(
             asset,
             name.clone(),
             ancestry.clone(),
             false,
-            length,
+            items_length,
             0,
             false,
             array_type.clone(),
-- 
2.43.0


From 59ff10e77a32e2ad54a687924ff98c8031628534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:42 +0000
Subject: [PATCH 38/82] fix: size unknown elements of arrays without the
 array's length

---
 unreal_asset/unreal_asset_properties/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_properties/src/lib.rs b/unreal_asset/unreal_asset_properties/src/lib.rs
index 39d30bd..0c45d36 100644
--- a/unreal_asset/unreal_asset_properties/src/lib.rs
+++ b/unreal_asset/unreal_asset_properties/src/lib.rs
@@ -1320,7 +1320,11 @@ impl Property {
                     name,
                     ancestry,
                     include_header,
-                    length,
+                    // elements of an array have the array's size minus its length each
+                    match fallback_length {
+                        0 => length,
+                        fallback_length => fallback_length,
+                    },
                     duplication_index,
                     type_name.clone(),
                 )?
-- 
2.43.0


From 9522f8a94ce0d5113785836234a393b7d97a1cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:52 +0000
Subject: [PATCH 39/82] fix: count the line number of assert bytecode as two
 bytes

---
 unreal_asset/unreal_asset_kismet/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_kismet/src/lib.rs b/unreal_asset/unreal_asset_kismet/src/lib.rs
index 860d899..e6f33ec 100644
--- a/unreal_asset/unreal_asset_kismet/src/lib.rs
+++ b/unreal_asset/unreal_asset_kismet/src/lib.rs
@@ -1597,7 +1597,7 @@ impl KismetExpressionTrait for ExAssert {
     ) -> Result<usize, Error> {
         asset.write_u16::<LE>(self.line_number)?;
         asset.write_bool(self.debug_mode)?;
-        let offset = size_of::<u32>()
+        let offset = size_of::<u16>()
             + size_of::<bool>()
             + KismetExpression::write(self.assert_expression.as_ref(), asset)?;
         Ok(offset)
-- 
2.43.0


From 694804b1bf3d9f71e764e39ccce886512f00b5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:52 +0000
Subject: [PATCH 40/82] fix: count the name of inline instrumentation events
 like other names

---
 unreal_asset/unreal_asset_kismet/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_kismet/src/lib.rs b/unreal_asset/unreal_asset_kismet/src/lib.rs
index e6f33ec..25b42e5 100644
--- a/unreal_asset/unreal_asset_kismet/src/lib.rs
+++ b/unreal_asset/unreal_asset_kismet/src/lib.rs
@@ -3274,7 +3274,7 @@ impl KismetExpressionTrait for ExInstrumentationEvent {
             asset.write_fname(self.event_name.as_ref().ok_or_else(|| {
                 Error::no_data("event_type is InlineEvent but event_name is None".to_string())
             })?)?;
-            return Ok(1 + 2 * size_of::<i32>());
+            return Ok(1 + 12); // FScriptName's iCode offset
         }
 
         Ok(1)
-- 
2.43.0


From d389abb53067917d3c317f0e3aea852d54accc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:52 +0000
Subject: [PATCH 41/82] fix: reject negative lengths of property paths in
 bytecode

---
 unreal_asset/unreal_asset_kismet/src/lib.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/unreal_asset/unreal_asset_kismet/src/lib.rs b/unreal_asset/unreal_asset_kismet/src/lib.rs
index 25b42e5..1d4110d 100644
--- a/unreal_asset/unreal_asset_kismet/src/lib.rs
+++ b/unreal_asset/unreal_asset_kismet/src/lib.rs
@@ -761,11 +761,7 @@ impl KismetPropertyPointer {
         if asset.get_object_version()
             >= KismetPropertyPointer::XFER_PROP_POINTER_SWITCH_TO_SERIALIZING_AS_FIELD_PATH_VERSION
         {
-            let num_entries = asset.read_i32::<LE>()?;
-            let mut names = Vec::with_capacity(num_entries as usize);
-            for _i in 0..num_entries as usize {
-                names.push(asset.read_fname()?);
-            }
+            let names = asset.read_array(|asset| asset.read_fname())?;
             let owner = PackageIndex::new(asset.read_i32::<LE>()?);
             Ok(KismetPropertyPointer::from_new(FieldPath::new(
                 names, owner,
-- 
2.43.0


From f073d43c84cab516f7ac497c2590d87060c818b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:52 +0000
Subject: [PATCH 42/82] fix: count map entries in bytecode as key and value
 pairs

---
 unreal_asset/unreal_asset_kismet/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/unreal_asset_kismet/src/lib.rs b/unreal_asset/unreal_asset_kismet/src/lib.rs
index 1d4110d..4a9759d 100644
--- a/unreal_asset/unreal_asset_kismet/src/lib.rs
+++ b/unreal_asset/unreal_asset_kismet/src/lib.rs
@@ -2529,7 +2529,7 @@ impl KismetExpressionTrait for ExMapConst {
         let mut offset = size_of::<i32>();
         offset += self.key_property.write(asset)?;
         offset += self.value_property.write(asset)?;
-        asset.write_i32::<LE>(self.elements.len() as i32)?;
+        asset.write_i32::<LE>((self.elements.len() / 2) as i32)?; // key and value pairs
         for element in &self.elements {
             offset += KismetExpression::write(element, asset)?;
         }
@@ -2948,7 +2948,7 @@ impl KismetExpressionTrait for ExSetMap {
     ) -> Result<usize, Error> {
         let mut offset = size_of::<i32>();
         offset += KismetExpression::write(self.map_property.as_ref(), asset)?;
-        asset.write_i32::<LE>(self.elements.len() as i32)?;
+        asset.write_i32::<LE>((self.elements.len() / 2) as i32)?; // key and value pairs
         for element in &self.elements {
             offset += KismetExpression::write(element, asset)?;
         }
-- 
2.43.0


From da44eebdf56a99a2e78aaf7e7da8fc3f1be8e2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:12 +0000
Subject: [PATCH 43/82] fix: write the UE3 version exactly for the packages it
 is read from

---
 unreal_asset/src/asset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 8505604..2855c99 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -1006,7 +1006,7 @@ impl<'a, C: Read + Seek> Asset<C> {
         cursor.write_u32::<BE>(UE4_ASSET_MAGIC)?;
         cursor.write_i32::<LE>(self.legacy_file_version)?;
 
-        if self.legacy_file_version != 4 {
+        if self.legacy_file_version != -4 {
             match self.asset_data.summary.unversioned {
                 true => cursor.write_i32::<LE>(0)?,
                 false => cursor.write_i32::<LE>(864)?,
-- 
2.43.0


From cd29a3eae39e78535794d7bcf3331d5ffbc09cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:12 +0000
Subject: [PATCH 44/82] fix: write the compatible engine version of packages

---
 unreal_asset/src/asset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 2855c99..16484c0 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -1090,7 +1090,7 @@ impl<'a, C: Read + Seek> Asset<C> {
         if self.asset_data.object_version
             >= ObjectVersion::VER_UE4_PACKAGE_SUMMARY_HAS_COMPATIBLE_ENGINE_VERSION
         {
-            self.engine_version_recorded.write(cursor)?;
+            self.engine_version_compatible.write(cursor)?;
         }
 
         cursor.write_u32::<LE>(self.compression_flags)?;
-- 
2.43.0


From 5b7dec2ca7fe41469d8695a5fece09aa52fb14eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:12 +0000
Subject: [PATCH 45/82] fix: keep the earlier generations of packages

---
 unreal_asset/src/asset.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 16484c0..eb9fe50 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -1075,7 +1075,12 @@ impl<'a, C: Read + Seek> Asset<C> {
         cursor.write_guid(&self.package_guid)?;
         cursor.write_i32::<LE>(self.generations.len() as i32)?;
 
-        for _ in 0..self.generations.len() {
+        // the last generation describes this package, earlier ones are history
+        if let Some((_, earlier)) = self.generations.split_last() {
+            for generation in earlier {
+                cursor.write_i32::<LE>(generation.export_count)?;
+                cursor.write_i32::<LE>(generation.name_count)?;
+            }
             cursor.write_i32::<LE>(self.asset_data.exports.len() as i32)?;
             cursor
                 .write_i32::<LE>(self.name_map.get_ref().get_name_map_index_list().len() as i32)?;
-- 
2.43.0


From b58ed316b80401db203419d110717a59111fe585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:12 +0000
Subject: [PATCH 46/82] fix: read packages with a single chunk id

---
 unreal_asset/src/asset.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index eb9fe50..20e02a7 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -712,8 +712,7 @@ impl<'a, C: Read + Seek> Asset<C> {
         } else if self.asset_data.object_version
             >= ObjectVersion::VER_UE4_ADDED_CHUNKID_TO_ASSETDATA_AND_UPACKAGE
         {
-            self.chunk_ids = vec![];
-            self.chunk_ids[0] = self.read_i32::<LE>()?;
+            self.chunk_ids = vec![self.read_i32::<LE>()?];
         }
 
         if self.asset_data.object_version
@@ -1124,7 +1123,7 @@ impl<'a, C: Read + Seek> Asset<C> {
         } else if self.asset_data.object_version
             >= ObjectVersion::VER_UE4_ADDED_CHUNKID_TO_ASSETDATA_AND_UPACKAGE
         {
-            cursor.write_i32::<LE>(self.chunk_ids[0])?;
+            cursor.write_i32::<LE>(self.chunk_ids.first().copied().unwrap_or_default())?;
         }
 
         if self.asset_data.object_version
-- 
2.43.0


From 8c596f7f66cd75c559340da4d98d79aec0a04b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:12 +0000
Subject: [PATCH 47/82] fix: keep unusual name hashes of packages

---
 unreal_asset/src/asset.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 20e02a7..9656d04 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -865,9 +865,9 @@ impl<'a, C: Read + Seek> Asset<C> {
 
         for _ in 0..self.name_count {
             let (name, hash) = self.read_name_map_string(None)?;
-            if hash == 0 {
+            if hash != crc::generate_hash(&name) {
                 // todo: good FString type
-                self.override_name_map_hashes.insert(name.clone(), 0);
+                self.override_name_map_hashes.insert(name.clone(), hash);
             }
             self.add_name_reference(name, true);
         }
-- 
2.43.0


From 887ba423f49adc0d24e7ba4e92fce80d17203de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:12 +0000
Subject: [PATCH 48/82] fix: write no hash for empty names, which are read
 without one

---
 unreal_asset/src/asset.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 9656d04..4b75e55 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -1230,7 +1230,9 @@ impl<'a, C: Read + Seek> Asset<C> {
             // todo: case preserving FString
             serializer.write_fstring(Some(name))?;
 
-            if self.asset_data.object_version >= ObjectVersion::VER_UE4_NAME_HASHES_SERIALIZED {
+            if self.asset_data.object_version >= ObjectVersion::VER_UE4_NAME_HASHES_SERIALIZED
+                && !name.is_empty()
+            {
                 match self.override_name_map_hashes.get_by_key(name) {
                     Some(e) => serializer.write_u32::<LE>(*e)?,
                     None => serializer.write_u32::<LE>(crc::generate_hash(name))?,
-- 
2.43.0


From 1cf65d105e40ae25ea71fef0fa3c712700c3ea22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:12 +0000
Subject: [PATCH 49/82] fix: keep the depends offset of 4.14 and 4.15 packages

---
 unreal_asset/src/asset.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 4b75e55..27f258d 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -1273,9 +1273,10 @@ impl<'a, C: Read + Seek> Asset<C> {
             )?;
         }
 
+        // in 4.14-4.15 the depends offset is zero although the map is there
         let depends_offset = match self.depends_map {
-            Some(_) => serializer.position() as i32,
-            None => 0,
+            Some(_) if self.depends_offset > 0 => serializer.position() as i32,
+            _ => 0,
         };
 
         if let Some(ref map) = self.depends_map {
-- 
2.43.0


From 348944d2855c07267af86e855d35d151775533ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:12 +0000
Subject: [PATCH 50/82] fix: keep empty soft package references

---
 unreal_asset/src/asset.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 27f258d..213a9ac 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -445,7 +445,7 @@ pub struct Asset<C: Read + Seek> {
     depends_map: Option<Vec<Vec<i32>>>,
     /// Soft package reference list
     #[container_ignore]
-    soft_package_reference_list: Option<Vec<String>>,
+    soft_package_reference_list: Option<Vec<Option<String>>>,
 
     /// Parent class
     parent_class: Option<ParentClassInfo>,
@@ -935,9 +935,7 @@ impl<'a, C: Read + Seek> Asset<C> {
             self.seek(SeekFrom::Start(self.soft_package_reference_offset as u64))?;
 
             for _i in 0..self.soft_package_reference_count as usize {
-                if let Some(reference) = self.read_fstring()? {
-                    soft_package_reference_list.push(reference);
-                }
+                soft_package_reference_list.push(self.read_fstring()?);
             }
             self.soft_package_reference_list = Some(soft_package_reference_list);
         }
@@ -1300,7 +1298,7 @@ impl<'a, C: Read + Seek> Asset<C> {
 
         if let Some(ref package_references) = self.soft_package_reference_list {
             for reference in package_references {
-                serializer.write_fstring(Some(reference))?;
+                serializer.write_fstring(reference.as_deref())?;
             }
         }
 
-- 
2.43.0


From f696948a64bbc14423928050749e5b8501c5270a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:12 +0000
Subject: [PATCH 51/82] fix: use the versions stored in a package for its raw
 reader

---
 unreal_asset/src/asset.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 213a9ac..f795613 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -581,6 +581,9 @@ impl<'a, C: Read + Seek> Asset<C> {
             }
         }
 
+        self.raw_reader.object_version = self.asset_data.object_version;
+        self.raw_reader.object_version_ue5 = self.asset_data.object_version_ue5;
+
         // read file license version
         self.asset_data.summary.file_licensee_version = self.read_i32::<LE>()?;
 
-- 
2.43.0


From 7897bf6981995b55ce381aca21c613514b379ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:12 +0000
Subject: [PATCH 52/82] fix: write the header size of packages without exports

---
 unreal_asset/src/asset.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index f795613..ff81145 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -1358,10 +1358,7 @@ impl<'a, C: Read + Seek> Asset<C> {
             preload_dependency_count = -1;
         }
 
-        let header_offset = match !self.asset_data.exports.is_empty() {
-            true => serializer.position() as i32,
-            false => 0,
-        };
+        let header_offset = serializer.position() as i32;
 
         let mut category_starts = Vec::with_capacity(self.asset_data.exports.len());
 
-- 
2.43.0


From 87b3f2eced59f17c0e1e0b31d99175f6107c0f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:12 +0000
Subject: [PATCH 53/82] fix: don't write custom versions a package doesn't
 store

---
 unreal_asset/src/asset.rs                              |  6 ++++--
 unreal_asset/unreal_asset_base/src/custom_version.rs   |  5 +++++
 .../unreal_asset_base/src/reader/archive_reader.rs     | 10 ++++++++--
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index ff81145..bca5bbc 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -1030,8 +1030,10 @@ impl<'a, C: Read + Seek> Asset<C> {
             match self.asset_data.summary.unversioned {
                 true => cursor.write_i32::<LE>(0)?,
                 false => {
-                    cursor.write_i32::<LE>(self.asset_data.summary.custom_versions.len() as i32)?;
-                    for custom_version in &self.asset_data.summary.custom_versions {
+                    let custom_versions = &self.asset_data.summary.custom_versions;
+                    let serialized = custom_versions.iter().filter(|e| e.is_serialized);
+                    cursor.write_i32::<LE>(serialized.clone().count() as i32)?;
+                    for custom_version in serialized {
                         cursor.write_guid(&custom_version.guid)?;
                         cursor.write_i32::<LE>(custom_version.version)?;
                     }
diff --git a/unreal_asset/unreal_asset_base/src/custom_version.rs b/unreal_asset/unreal_asset_base/src/custom_version.rs
index 3ad6d97..fabcd45 100644
--- a/unreal_asset/unreal_asset_base/src/custom_version.rs
+++ b/unreal_asset/unreal_asset_base/src/custom_version.rs
@@ -29,6 +29,8 @@ pub struct CustomVersion {
     /// UE4_27 -> 13
     /// UE4_23 -> 12
     pub version_mappings: &'static [(EngineVersion, i32)],
+    /// Whether this version is stored in the file, as opposed to being assumed for it
+    pub is_serialized: bool,
 }
 
 type VersionInfo = (String, Option<&'static [(EngineVersion, i32)]>);
@@ -91,6 +93,7 @@ impl CustomVersion {
             friendly_name: version_info.as_ref().map(|e| e.0.clone()),
             version,
             version_mappings: version_info.and_then(|e| e.1).unwrap_or_default(),
+            is_serialized: true,
         }
     }
 
@@ -107,6 +110,7 @@ impl CustomVersion {
             friendly_name: version_info.as_ref().map(|e| e.0.clone()),
             version,
             version_mappings: version_info.and_then(|e| e.1).unwrap_or_default(),
+            is_serialized: true,
         })
     }
 
@@ -130,6 +134,7 @@ impl CustomVersion {
             friendly_name: Some(T::FRIENDLY_NAME.to_string()),
             version: version.into(),
             version_mappings: T::VERSION_MAPPINGS,
+            is_serialized: true,
         }
     }
 
diff --git a/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs b/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
index 2bdd1eb..437b7d9 100644
--- a/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
+++ b/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
@@ -82,7 +82,10 @@ pub trait ArchiveReader<Index: PackageIndexTrait>: ArchiveTrait<Index> + Read {
         {
             for custom_version in custom_version_container {
                 if !existing_versions.contains(&custom_version.guid) {
-                    new_container.push(custom_version.clone());
+                    new_container.push(CustomVersion {
+                        is_serialized: false,
+                        ..custom_version.clone()
+                    });
                 }
             }
         }
@@ -90,7 +93,10 @@ pub trait ArchiveReader<Index: PackageIndexTrait>: ArchiveTrait<Index> + Read {
         if let Some(old_container) = old_container {
             for custom_version in old_container {
                 if !existing_versions.contains(&custom_version.guid) {
-                    new_container.push(custom_version.clone());
+                    new_container.push(CustomVersion {
+                        is_serialized: false,
+                        ..custom_version.clone()
+                    });
                 }
             }
         }
-- 
2.43.0


From 44ac0bea2653c5c19e331e8064ac48e5477d4414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:06 +0000
Subject: [PATCH 54/82] fix: recognise the external package flag of exports

---
 unreal_asset/unreal_asset_base/src/flags.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/flags.rs b/unreal_asset/unreal_asset_base/src/flags.rs
index 4a8f8a8..a678e19 100644
--- a/unreal_asset/unreal_asset_base/src/flags.rs
+++ b/unreal_asset/unreal_asset_base/src/flags.rs
@@ -66,7 +66,7 @@ bitflags! {
         /// Object will be loaded
         const RF_WILL_BE_LOADED = 0x08000000;
         /// Object has an external package
-        const RF_HAS_EXTERNAL_PACKAGE = 0x1000000;
+        const RF_HAS_EXTERNAL_PACKAGE = 0x10000000;
     }
 
     /// Package flags
-- 
2.43.0


From af9402df0c8f0bf3c9bca102b15f740fb70fa000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:59 +0000
Subject: [PATCH 55/82] fix: don't trust counts and lengths stored in packages

---
 unreal_asset/src/asset.rs                     | 69 ++++++++-----------
 unreal_asset/src/asset_data.rs                |  4 +-
 .../unreal_asset_exports/src/raw_export.rs    |  3 +-
 3 files changed, 32 insertions(+), 44 deletions(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index bca5bbc..6861516 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -91,6 +91,8 @@ pub struct UAssetExportMapEntry {
     pub serialization_before_create_dependencies: Vec<PackageIndex>,
     /// Dependencies that should be created before this export is created
     pub create_before_create_dependencies: Vec<PackageIndex>,
+    /// How many dependencies of each kind are stored, they are read after the export map
+    dependency_counts: [i32; 4],
 }
 
 impl UAssetExportMapEntry {
@@ -149,14 +151,9 @@ impl UAssetExportMapEntry {
             >= ObjectVersion::VER_UE4_PRELOAD_DEPENDENCIES_IN_COOKED_EXPORTS
         {
             entry.first_export_dependency_offset = archive.read_i32::<LE>()?;
-            entry.serialization_before_serialization_dependencies =
-                Vec::with_capacity(archive.read_i32::<LE>()? as usize);
-            entry.create_before_serialization_dependencies =
-                Vec::with_capacity(archive.read_i32::<LE>()? as usize);
-            entry.serialization_before_create_dependencies =
-                Vec::with_capacity(archive.read_i32::<LE>()? as usize);
-            entry.create_before_create_dependencies =
-                Vec::with_capacity(archive.read_i32::<LE>()? as usize);
+            for count in &mut entry.dependency_counts {
+                *count = archive.read_i32::<LE>()?;
+            }
         }
 
         Ok(entry)
@@ -312,6 +309,7 @@ impl UAssetExportMapEntry {
                 .serialization_before_create_dependencies
                 .clone(),
             create_before_create_dependencies: b.create_before_create_dependencies.clone(),
+            dependency_counts: Default::default(),
         }
     }
 }
@@ -899,12 +897,11 @@ impl<'a, C: Read + Seek> Asset<C> {
             }
         }
 
-        let mut export_map = Vec::with_capacity(self.asset_data.summary.export_count as usize);
+        let export_count = self.asset_data.summary.export_count;
+        let mut export_map = Vec::new();
         if self.export_offset > 0 {
             self.seek(SeekFrom::Start(self.export_offset as u64))?;
-            for _i in 0..self.asset_data.summary.export_count {
-                export_map.push(UAssetExportMapEntry::read(self)?);
-            }
+            export_map = self.read_array_with_length(export_count, UAssetExportMapEntry::read)?;
         }
 
         let depends_offset_zero_version_range =
@@ -913,33 +910,24 @@ impl<'a, C: Read + Seek> Asset<C> {
         if self.depends_offset > 0
             || depends_offset_zero_version_range.contains(&self.get_object_version())
         {
-            let mut depends_map = Vec::with_capacity(self.asset_data.summary.export_count as usize);
-
             // 4.14-4.15 the depends offset wasnt updated so always serialized as 0
             if self.depends_offset > 0 {
                 self.seek(SeekFrom::Start(self.depends_offset as u64))?;
             }
 
-            for _i in 0..self.asset_data.summary.export_count as usize {
-                let size = self.read_i32::<LE>()?;
-                let mut data: Vec<i32> = Vec::new();
-                for _j in 0..size {
-                    data.push(self.read_i32::<LE>()?);
-                }
-                depends_map.push(data);
-            }
+            let depends_map = self.read_array_with_length(export_count, |archive| {
+                archive.read_array(|archive| Ok(archive.read_i32::<LE>()?))
+            })?;
             self.depends_map = Some(depends_map);
         }
 
         if self.soft_package_reference_offset > 0 {
-            let mut soft_package_reference_list =
-                Vec::with_capacity(self.soft_package_reference_count as usize);
-
             self.seek(SeekFrom::Start(self.soft_package_reference_offset as u64))?;
 
-            for _i in 0..self.soft_package_reference_count as usize {
-                soft_package_reference_list.push(self.read_fstring()?);
-            }
+            let soft_package_reference_list = self
+                .read_array_with_length(self.soft_package_reference_count, |archive| {
+                    archive.read_fstring()
+                })?;
             self.soft_package_reference_list = Some(soft_package_reference_list);
         }
 
@@ -958,16 +946,19 @@ impl<'a, C: Read + Seek> Asset<C> {
                     entry.first_export_dependency_offset as i64 * size_of::<i32>() as i64,
                 ))?;
 
-                let mut read_deps = |list: &mut Vec<PackageIndex>| -> Result<(), Error> {
-                    for _ in 0..list.capacity() {
-                        list.push(PackageIndex::new(self.raw_reader.read_i32::<LE>()?))
-                    }
-                    Ok(())
-                };
-                read_deps(&mut entry.serialization_before_serialization_dependencies)?;
-                read_deps(&mut entry.create_before_serialization_dependencies)?;
-                read_deps(&mut entry.serialization_before_create_dependencies)?;
-                read_deps(&mut entry.create_before_create_dependencies)?;
+                for (list, count) in [
+                    &mut entry.serialization_before_serialization_dependencies,
+                    &mut entry.create_before_serialization_dependencies,
+                    &mut entry.serialization_before_create_dependencies,
+                    &mut entry.create_before_create_dependencies,
+                ]
+                .into_iter()
+                .zip(entry.dependency_counts)
+                {
+                    *list = self.raw_reader.read_array_with_length(count, |archive| {
+                        Ok(PackageIndex::new(archive.read_i32::<LE>()?))
+                    })?;
+                }
             }
             self.seek(SeekFrom::Start(self.preload_dependency_offset as u64))?;
         }
@@ -986,7 +977,7 @@ impl<'a, C: Read + Seek> Asset<C> {
 
                 let next_starting = match i < (map_len - 1) {
                     true => serial_offsets[i + 1],
-                    false => self.data_length()? - 4,
+                    false => self.data_length()?.saturating_sub(4),
                 };
 
                 let export = self.read_export(base_export, next_starting)?;
diff --git a/unreal_asset/src/asset_data.rs b/unreal_asset/src/asset_data.rs
index f51517d..83ed8b7 100644
--- a/unreal_asset/src/asset_data.rs
+++ b/unreal_asset/src/asset_data.rs
@@ -423,9 +423,7 @@ pub trait ExportReaderTrait<Index: PackageIndexTrait>:
                 new_array_overrides,
             ));
         } else if let Some(normal_export) = export.get_normal_export_mut() {
-            let mut extras = vec![0u8; extras_len as usize];
-            self.read_exact(&mut extras)?;
-            normal_export.extras = extras;
+            normal_export.extras = self.read_bytes(extras_len)?;
         }
 
         Ok(ReadExport::new(
diff --git a/unreal_asset/unreal_asset_exports/src/raw_export.rs b/unreal_asset/unreal_asset_exports/src/raw_export.rs
index c9ccadf..fb5e77e 100644
--- a/unreal_asset/unreal_asset_exports/src/raw_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/raw_export.rs
@@ -46,8 +46,7 @@ impl<Index: PackageIndexTrait> RawExport<Index> {
         base: BaseExport<Index>,
         asset: &mut Reader,
     ) -> Result<Self, Error> {
-        let mut data = vec![0u8; base.serial_size as usize];
-        asset.read_exact(&mut data)?;
+        let data = asset.read_bytes(base.serial_size)?;
 
         Ok(RawExport {
             base_export: base,
-- 
2.43.0


From c784bb78d83726092020986f343fc77da8a3b009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:09 +0000
Subject: [PATCH 56/82] fix: look up imports outside the table as nothing

---
 unreal_asset/src/asset.rs                       | 9 +++------
 unreal_asset/src/asset_archive_writer.rs        | 9 +++------
 unreal_asset/unreal_asset_base/src/types/mod.rs | 2 +-
 3 files changed, 7 insertions(+), 13 deletions(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 6861516..6ba59e9 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -826,12 +826,9 @@ impl<'a, C: Read + Seek> Asset<C> {
             return None;
         }
 
-        let index = -index.index - 1;
-        if index < 0 || index > self.imports.len() as i32 {
-            return None;
-        }
-
-        Some(self.imports[index as usize].clone())
+        // can't overflow, unlike `-index.index - 1`
+        let index = -(index.index + 1);
+        self.imports.get(index as usize).cloned()
     }
 
     /// Get an export
diff --git a/unreal_asset/src/asset_archive_writer.rs b/unreal_asset/src/asset_archive_writer.rs
index f332d1f..ff72e34 100644
--- a/unreal_asset/src/asset_archive_writer.rs
+++ b/unreal_asset/src/asset_archive_writer.rs
@@ -55,12 +55,9 @@ impl<'parent_writer, 'asset, ParentWriter: ArchiveWriter<PackageIndex>>
             return None;
         }
 
-        let index = -index.index - 1;
-        if index < 0 || index > self.imports.len() as i32 {
-            return None;
-        }
-
-        Some(self.imports[index as usize].clone())
+        // can't overflow, unlike `-index.index - 1`
+        let index = -(index.index + 1);
+        self.imports.get(index as usize).cloned()
     }
 }
 
diff --git a/unreal_asset/unreal_asset_base/src/types/mod.rs b/unreal_asset/unreal_asset_base/src/types/mod.rs
index f202f24..8a6bf97 100644
--- a/unreal_asset/unreal_asset_base/src/types/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/types/mod.rs
@@ -97,7 +97,7 @@ impl PackageIndex {
 
     /// Create a `PackageIndex` from an export index
     pub fn from_export(export_index: i32) -> Result<Self, Error> {
-        match export_index < 0 {
+        match export_index < 0 || export_index == i32::MAX {
             true => Err(Error::invalid_package_index(
                 "Export index must be greater than zero".to_string(),
             )),
-- 
2.43.0


From c6f7c97a58d3a1fa281147d13ae807fedf0d9fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:17 +0000
Subject: [PATCH 57/82] fix: don't overflow on offsets of exports

---
 unreal_asset/src/asset_data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/src/asset_data.rs b/unreal_asset/src/asset_data.rs
index 83ed8b7..f33d25a 100644
--- a/unreal_asset/src/asset_data.rs
+++ b/unreal_asset/src/asset_data.rs
@@ -409,7 +409,7 @@ pub trait ExportReaderTrait<Index: PackageIndexTrait>:
             })
         })?;
 
-        let extras_len = next_starting as i64 - self.position() as i64;
+        let extras_len = (next_starting as i64).saturating_sub(self.position() as i64);
         if extras_len < 0 {
             // todo: warning?
 
-- 
2.43.0


From e053b8ede60291d42c9d863dbc3a4a2657b05a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:40 +0000
Subject: [PATCH 58/82] fix: don't trust counts and script sizes of exports

---
 .../unreal_asset_exports/src/class_export.rs  | 62 ++++++++-----------
 .../src/data_table_export.rs                  | 13 ++--
 .../unreal_asset_exports/src/struct_export.rs | 28 ++++-----
 3 files changed, 40 insertions(+), 63 deletions(-)

diff --git a/unreal_asset/unreal_asset_exports/src/class_export.rs b/unreal_asset/unreal_asset_exports/src/class_export.rs
index d738020..ddbe3b8 100644
--- a/unreal_asset/unreal_asset_exports/src/class_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/class_export.rs
@@ -1,7 +1,5 @@
 //! Class export
 
-use std::io::SeekFrom;
-use std::mem::size_of;
 
 use byteorder::{ReadBytesExt, WriteBytesExt, LE};
 
@@ -78,12 +76,12 @@ impl<Index: PackageIndexTrait> ClassExport<Index> {
     ) -> Result<Self, Error> {
         let struct_export = StructExport::from_base(base, asset)?;
 
-        let num_func_index_entries = asset.read_i32::<LE>()? as usize;
-        let mut func_map = IndexedMap::with_capacity(num_func_index_entries);
-        for _i in 0..num_func_index_entries {
+        let mut func_map = IndexedMap::new();
+        for (name, function_export) in asset.read_array(|asset| {
             let name = asset.read_fname()?;
             let function_export = PackageIndex::new(asset.read_i32::<LE>()?);
-
+            Ok((name, function_export))
+        })? {
             func_map.insert(name, function_export);
         }
 
@@ -96,41 +94,18 @@ impl<Index: PackageIndexTrait> ClassExport<Index> {
         let class_within = PackageIndex::new(asset.read_i32::<LE>()?);
         let class_config_name = asset.read_fname()?;
 
-        let mut interfaces_start = None;
-        if asset.get_object_version()
-            < ObjectVersion::VER_UE4_UCLASS_SERIALIZE_INTERFACES_AFTER_LINKING
-        {
-            interfaces_start = Some(asset.position());
-            let num_interfaces = asset.read_i32::<LE>()?;
-            asset.seek(SeekFrom::Start(
-                interfaces_start.unwrap()
-                    + size_of::<i32>() as u64
-                    + num_interfaces as u64 * (size_of::<i32>() as u64 * 3),
-            ))?;
+        let interfaces_first = asset.get_object_version()
+            < ObjectVersion::VER_UE4_UCLASS_SERIALIZE_INTERFACES_AFTER_LINKING;
+
+        let mut interfaces = Vec::new();
+        if interfaces_first {
+            interfaces = Self::read_interfaces(asset)?;
         }
 
         let class_generated_by = PackageIndex::new(asset.read_i32::<LE>()?);
-        let current_offset = asset.position();
-
-        if asset.get_object_version()
-            < ObjectVersion::VER_UE4_UCLASS_SERIALIZE_INTERFACES_AFTER_LINKING
-        {
-            asset.seek(SeekFrom::Start(interfaces_start.unwrap()))?;
-        }
-        let num_interfaces = asset.read_i32::<LE>()? as usize;
-        let mut interfaces = Vec::with_capacity(num_interfaces);
-        for _i in 0..num_interfaces {
-            interfaces.push(SerializedInterfaceReference::new(
-                PackageIndex::new(asset.read_i32::<LE>()?),
-                asset.read_i32::<LE>()?,
-                asset.read_i32::<LE>()? == 1,
-            ));
-        }
 
-        if asset.get_object_version()
-            < ObjectVersion::VER_UE4_UCLASS_SERIALIZE_INTERFACES_AFTER_LINKING
-        {
-            asset.seek(SeekFrom::Start(current_offset))?;
+        if !interfaces_first {
+            interfaces = Self::read_interfaces(asset)?;
         }
 
         let deprecated_force_script_order = asset.read_i32::<LE>()? == 1;
@@ -159,6 +134,19 @@ impl<Index: PackageIndexTrait> ClassExport<Index> {
         })
     }
 
+    /// Read class interfaces from an archive
+    fn read_interfaces<Reader: ArchiveReader<Index>>(
+        asset: &mut Reader,
+    ) -> Result<Vec<SerializedInterfaceReference>, Error> {
+        asset.read_array(|asset| {
+            Ok(SerializedInterfaceReference::new(
+                PackageIndex::new(asset.read_i32::<LE>()?),
+                asset.read_i32::<LE>()?,
+                asset.read_i32::<LE>()? == 1,
+            ))
+        })
+    }
+
     /// Serialize a `ClassExport` interface
     fn serialize_interfaces<Writer: ArchiveWriter<impl PackageIndexTrait>>(
         &self,
diff --git a/unreal_asset/unreal_asset_exports/src/data_table_export.rs b/unreal_asset/unreal_asset_exports/src/data_table_export.rs
index 29ef6a1..2754f37 100644
--- a/unreal_asset/unreal_asset_exports/src/data_table_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/data_table_export.rs
@@ -60,15 +60,12 @@ impl<Index: PackageIndexTrait> DataTableExport<Index> {
         }
 
         asset.read_i32::<LE>()?;
-        let num_entries = asset.read_i32::<LE>()? as usize;
-        let mut data = Vec::with_capacity(num_entries);
-
         let ancestry = Ancestry::new(base.get_class_type_for_ancestry(asset));
 
-        for _i in 0..num_entries {
+        let data = asset.read_array(|asset| {
             let row_name = asset.read_fname()?;
 
-            let next_struct = StructProperty::custom_header(
+            StructProperty::custom_header(
                 asset,
                 row_name,
                 ancestry.clone(),
@@ -77,10 +74,8 @@ impl<Index: PackageIndexTrait> DataTableExport<Index> {
                 Some(decided_struct_type.clone()),
                 None,
                 None,
-            )?;
-
-            data.push(next_struct);
-        }
+            )
+        })?;
 
         let table = DataTable::new(data);
 
diff --git a/unreal_asset/unreal_asset_exports/src/struct_export.rs b/unreal_asset/unreal_asset_exports/src/struct_export.rs
index 6dae133..e5f0965 100644
--- a/unreal_asset/unreal_asset_exports/src/struct_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/struct_export.rs
@@ -55,23 +55,12 @@ impl<Index: PackageIndexTrait> StructExport<Index> {
         let field = UField::new(asset)?;
         let super_struct = PackageIndex::new(asset.read_i32::<LE>()?);
 
-        let num_index_entries = asset.read_i32::<LE>()?;
-        let mut children = Vec::with_capacity(num_index_entries as usize);
-        for _i in 0..num_index_entries as usize {
-            children.push(PackageIndex::new(asset.read_i32::<LE>()?));
-        }
+        let children = asset.read_array(|asset| Ok(PackageIndex::new(asset.read_i32::<LE>()?)))?;
 
         let loaded_properties = match asset.get_custom_version::<FCoreObjectVersion>().version
             >= FCoreObjectVersion::FProperties as i32
         {
-            true => {
-                let num_props = asset.read_i32::<LE>()?;
-                let mut props = Vec::with_capacity(num_props as usize);
-                for _i in 0..num_props as usize {
-                    props.push(FProperty::new(asset)?);
-                }
-                props
-            }
+            true => asset.read_array(|asset| FProperty::new(asset))?,
             false => Vec::new(),
         };
 
@@ -89,9 +78,7 @@ impl<Index: PackageIndexTrait> StructExport<Index> {
             Some(_) => None,
             None => {
                 asset.seek(SeekFrom::Start(start_offset))?;
-                let mut data = vec![0u8; script_storage_size as usize];
-                asset.read_exact(&mut data)?;
-                Some(data)
+                Some(asset.read_bytes(script_storage_size as i64)?)
             }
         };
 
@@ -114,10 +101,17 @@ impl<Index: PackageIndexTrait> StructExport<Index> {
         start_offset: u64,
         storage_size: i32,
     ) -> Result<Vec<KismetExpression>, Error> {
+        let storage_size = u64::try_from(storage_size)
+            .map_err(|_| Error::invalid_file(format!("Invalid script size: {storage_size}")))?;
         let mut code = Vec::new();
-        while (asset.position() - start_offset) < storage_size as u64 {
+        while (asset.position() - start_offset) < storage_size {
             code.push(KismetExpression::new(asset)?);
         }
+        if asset.position() - start_offset != storage_size {
+            return Err(Error::invalid_file(
+                "Script expressions exceed the script size".to_string(),
+            ));
+        }
         Ok(code)
     }
 }
-- 
2.43.0


From e3c6b919a272fcecedb0cd04d7265932a09194b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:40 +0000
Subject: [PATCH 59/82] fix: read bool property exports as bool properties

---
 unreal_asset/unreal_asset_exports/src/properties/uproperty.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs b/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs
index cd420f7..77584c9 100644
--- a/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs
+++ b/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs
@@ -183,6 +183,7 @@ impl UProperty {
                 }
                 "InterfaceProperty" => UInterfaceProperty::new(asset)?.into(),
                 "MapProperty" => UMapProperty::new(asset)?.into(),
+                "BoolProperty" => UBoolProperty::new(asset)?.into(),
                 "ByteProperty" => UByteProperty::new(asset)?.into(),
                 "StructProperty" => UStructProperty::new(asset)?.into(),
                 "DoubleProperty" => UDoubleProperty::new(asset)?.into(),
-- 
2.43.0


From 492e4004d1300968f28ed053b79f189c6ecf072e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:40 +0000
Subject: [PATCH 60/82] fix: reject unknown replication conditions, they can't
 be written

---
 unreal_asset/unreal_asset_exports/src/class_export.rs         | 1 -
 unreal_asset/unreal_asset_exports/src/properties/uproperty.rs | 2 +-
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/unreal_asset/unreal_asset_exports/src/class_export.rs b/unreal_asset/unreal_asset_exports/src/class_export.rs
index ddbe3b8..32ed121 100644
--- a/unreal_asset/unreal_asset_exports/src/class_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/class_export.rs
@@ -1,6 +1,5 @@
 //! Class export
 
-
 use byteorder::{ReadBytesExt, WriteBytesExt, LE};
 
 use unreal_asset_base::{
diff --git a/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs b/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs
index 77584c9..891c144 100644
--- a/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs
+++ b/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs
@@ -299,7 +299,7 @@ impl UGenericProperty {
             match asset.get_custom_version::<FReleaseObjectVersion>().version
                 >= FReleaseObjectVersion::PropertiesSerializeRepCondition as i32
             {
-                true => asset.read_u8()?.try_into().ok(),
+                true => Some(asset.read_u8()?.try_into()?),
                 false => None,
             };
 
-- 
2.43.0


From a851558da04ccf6974aeed34ac4c3370d63ca32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:14 +0000
Subject: [PATCH 61/82] fix: keep objects with a guid as raw exports

---
 .../unreal_asset_exports/src/data_table_export.rs  |  2 +-
 .../unreal_asset_exports/src/enum_export.rs        |  2 +-
 .../unreal_asset_exports/src/level_export.rs       |  2 +-
 .../unreal_asset_exports/src/normal_export.rs      | 14 ++++++++++++++
 .../unreal_asset_exports/src/property_export.rs    |  2 +-
 .../src/string_table_export.rs                     |  2 +-
 .../unreal_asset_exports/src/struct_export.rs      |  2 +-
 .../unreal_asset_exports/src/world_export.rs       |  2 +-
 8 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/unreal_asset/unreal_asset_exports/src/data_table_export.rs b/unreal_asset/unreal_asset_exports/src/data_table_export.rs
index 2754f37..58f30b2 100644
--- a/unreal_asset/unreal_asset_exports/src/data_table_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/data_table_export.rs
@@ -59,7 +59,7 @@ impl<Index: PackageIndexTrait> DataTableExport<Index> {
             }
         }
 
-        asset.read_i32::<LE>()?;
+        NormalExport::read_guid_flag(asset)?;
         let ancestry = Ancestry::new(base.get_class_type_for_ancestry(asset));
 
         let data = asset.read_array(|asset| {
diff --git a/unreal_asset/unreal_asset_exports/src/enum_export.rs b/unreal_asset/unreal_asset_exports/src/enum_export.rs
index 1d24756..4093b55 100644
--- a/unreal_asset/unreal_asset_exports/src/enum_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/enum_export.rs
@@ -148,7 +148,7 @@ impl<Index: PackageIndexTrait> EnumExport<Index> {
         asset: &mut Reader,
     ) -> Result<Self, Error> {
         let normal_export = NormalExport::from_base(base, asset)?;
-        asset.read_i32::<LE>()?;
+        NormalExport::read_guid_flag(asset)?;
 
         let value = UEnum::new(asset)?;
         Ok(EnumExport {
diff --git a/unreal_asset/unreal_asset_exports/src/level_export.rs b/unreal_asset/unreal_asset_exports/src/level_export.rs
index a450329..c570328 100644
--- a/unreal_asset/unreal_asset_exports/src/level_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/level_export.rs
@@ -68,7 +68,7 @@ impl<Index: PackageIndexTrait> LevelExport<Index> {
         asset: &mut Reader,
     ) -> Result<Self, Error> {
         let normal_export = NormalExport::from_base(unk, asset)?;
-        asset.read_i32::<LE>()?;
+        NormalExport::read_guid_flag(asset)?;
 
         Ok(LevelExport {
             normal_export,
diff --git a/unreal_asset/unreal_asset_exports/src/normal_export.rs b/unreal_asset/unreal_asset_exports/src/normal_export.rs
index 99c41d1..8f6310f 100644
--- a/unreal_asset/unreal_asset_exports/src/normal_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/normal_export.rs
@@ -1,5 +1,7 @@
 //! Normal export
 
+use byteorder::{ReadBytesExt, LE};
+
 use unreal_asset_base::{
     reader::{ArchiveReader, ArchiveWriter},
     types::PackageIndexTrait,
@@ -67,6 +69,18 @@ impl<Index: PackageIndexTrait> NormalExport<Index> {
             properties,
         })
     }
+
+    /// Read the flag after the properties of an object which tells if a guid follows
+    ///
+    /// Only objects without one are supported, others are kept as raw exports
+    pub(crate) fn read_guid_flag<Reader: ArchiveReader<Index>>(
+        asset: &mut Reader,
+    ) -> Result<(), Error> {
+        match asset.read_i32::<LE>()? {
+            0 => Ok(()),
+            _ => Err(Error::unimplemented("Objects with a guid".to_string())),
+        }
+    }
 }
 
 impl<Index: PackageIndexTrait> ExportTrait<Index> for NormalExport<Index> {
diff --git a/unreal_asset/unreal_asset_exports/src/property_export.rs b/unreal_asset/unreal_asset_exports/src/property_export.rs
index 36a18b9..8ad6198 100644
--- a/unreal_asset/unreal_asset_exports/src/property_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/property_export.rs
@@ -34,7 +34,7 @@ impl<Index: PackageIndexTrait> PropertyExport<Index> {
     ) -> Result<Self, Error> {
         let normal_export = NormalExport::from_base(base, asset)?;
 
-        asset.read_i32::<LE>()?;
+        NormalExport::read_guid_flag(asset)?;
 
         let export_class_type = asset
             .get_export_class_type(normal_export.base_export.class_index)
diff --git a/unreal_asset/unreal_asset_exports/src/string_table_export.rs b/unreal_asset/unreal_asset_exports/src/string_table_export.rs
index 8bb2bcd..a0e5443 100644
--- a/unreal_asset/unreal_asset_exports/src/string_table_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/string_table_export.rs
@@ -33,7 +33,7 @@ impl<Index: PackageIndexTrait> StringTableExport<Index> {
         asset: &mut Reader,
     ) -> Result<Self, Error> {
         let normal_export = NormalExport::from_base(base, asset)?;
-        asset.read_i32::<LE>()?;
+        NormalExport::read_guid_flag(asset)?;
 
         let namespace = asset.read_fstring()?;
 
diff --git a/unreal_asset/unreal_asset_exports/src/struct_export.rs b/unreal_asset/unreal_asset_exports/src/struct_export.rs
index e5f0965..a61d318 100644
--- a/unreal_asset/unreal_asset_exports/src/struct_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/struct_export.rs
@@ -51,7 +51,7 @@ impl<Index: PackageIndexTrait> StructExport<Index> {
         asset: &mut Reader,
     ) -> Result<Self, Error> {
         let normal_export = NormalExport::from_base(base, asset)?;
-        asset.read_i32::<LE>()?;
+        NormalExport::read_guid_flag(asset)?;
         let field = UField::new(asset)?;
         let super_struct = PackageIndex::new(asset.read_i32::<LE>()?);
 
diff --git a/unreal_asset/unreal_asset_exports/src/world_export.rs b/unreal_asset/unreal_asset_exports/src/world_export.rs
index 6f0dccc..c86851f 100644
--- a/unreal_asset/unreal_asset_exports/src/world_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/world_export.rs
@@ -39,7 +39,7 @@ impl<Index: PackageIndexTrait> WorldExport<Index> {
         asset: &mut Reader,
     ) -> Result<Self, Error> {
         let normal_export = NormalExport::from_base(base, asset)?;
-        asset.read_i32::<LE>()?;
+        NormalExport::read_guid_flag(asset)?;
         Ok(WorldExport {
             normal_export,
             persistent_level: PackageIndex::new(asset.read_i32::<LE>()?),
-- 
2.43.0


From 86a529bd99b28ded7e52f1437d46d73acd420e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:48 +0000
Subject: [PATCH 62/82] fix: reject negative counts of enums and string tables

---
 .../unreal_asset_exports/src/enum_export.rs   | 27 +++++--------------
 .../src/string_table_export.rs                | 20 +++++++-------
 2 files changed, 16 insertions(+), 31 deletions(-)

diff --git a/unreal_asset/unreal_asset_exports/src/enum_export.rs b/unreal_asset/unreal_asset_exports/src/enum_export.rs
index 4093b55..e013fe1 100644
--- a/unreal_asset/unreal_asset_exports/src/enum_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/enum_export.rs
@@ -45,32 +45,17 @@ impl UEnum {
     pub fn new<Reader: ArchiveReader<impl PackageIndexTrait>>(
         asset: &mut Reader,
     ) -> Result<Self, Error> {
-        let mut names = Vec::new();
-
-        if asset.get_object_version() < ObjectVersion::VER_UE4_TIGHTLY_PACKED_ENUMS {
-            let num_entries = asset.read_i32::<LE>()?;
-            for i in 0..num_entries {
-                let name = asset.read_fname()?;
-                names.push((name, i as i64));
-            }
+        let names = if asset.get_object_version() < ObjectVersion::VER_UE4_TIGHTLY_PACKED_ENUMS {
+            let names = asset.read_array(|asset| asset.read_fname())?;
+            names.into_iter().zip(0..).collect()
         } else {
             let custom_version = asset.get_custom_version::<FCoreObjectVersion>();
             if custom_version.version < FCoreObjectVersion::EnumProperties as i32 {
-                let num_entries = asset.read_i32::<LE>()?;
-                for _i in 0..num_entries {
-                    let name = asset.read_fname()?;
-                    let index = asset.read_u8()?;
-                    names.push((name, index as i64));
-                }
+                asset.read_array(|asset| Ok((asset.read_fname()?, asset.read_u8()? as i64)))?
             } else {
-                let num_entries = asset.read_i32::<LE>()?;
-                for _i in 0..num_entries {
-                    let name = asset.read_fname()?;
-                    let index = asset.read_i64::<LE>()?;
-                    names.push((name, index));
-                }
+                asset.read_array(|asset| Ok((asset.read_fname()?, asset.read_i64::<LE>()?)))?
             }
-        }
+        };
 
         let cpp_form = match asset.get_object_version() < ObjectVersion::VER_UE4_ENUM_CLASS_SUPPORT
         {
diff --git a/unreal_asset/unreal_asset_exports/src/string_table_export.rs b/unreal_asset/unreal_asset_exports/src/string_table_export.rs
index a0e5443..c0789c3 100644
--- a/unreal_asset/unreal_asset_exports/src/string_table_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/string_table_export.rs
@@ -38,16 +38,16 @@ impl<Index: PackageIndexTrait> StringTableExport<Index> {
         let namespace = asset.read_fstring()?;
 
         let mut table = IndexedMap::new();
-        let num_entries = asset.read_i32::<LE>()?;
-        for _ in 0..num_entries {
-            table.insert(
-                asset
-                    .read_fstring()?
-                    .ok_or_else(|| Error::no_data("StringTable key is None".to_string()))?,
-                asset
-                    .read_fstring()?
-                    .ok_or_else(|| Error::no_data("StringTable value is None".to_string()))?,
-            );
+        for (key, value) in asset.read_array(|asset| {
+            let key = asset
+                .read_fstring()?
+                .ok_or_else(|| Error::no_data("StringTable key is None".to_string()))?;
+            let value = asset
+                .read_fstring()?
+                .ok_or_else(|| Error::no_data("StringTable value is None".to_string()))?;
+            Ok((key, value))
+        })? {
+            table.insert(key, value);
         }
 
         Ok(StringTableExport {
-- 
2.43.0


From f36ce5e56f71fa6230df5266f1a18f2b7e2e12d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:49 +0000
Subject: [PATCH 63/82] fix: don't count the size itself in the size of the
 registry dependency section

---
 unreal_asset/unreal_asset_registry/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_registry/src/lib.rs b/unreal_asset/unreal_asset_registry/src/lib.rs
index 49045d8..4b4cca3 100644
--- a/unreal_asset/unreal_asset_registry/src/lib.rs
+++ b/unreal_asset/unreal_asset_registry/src/lib.rs
@@ -129,6 +129,7 @@ impl AssetRegistryState {
         } else {
             let pos = writer.position();
             writer.write_i64::<LE>(0)?;
+            let start_pos = writer.position();
             writer.write_i32::<LE>(self.depends_nodes.len() as i32)?;
 
             for depends_node in &self.depends_nodes {
@@ -137,7 +138,7 @@ impl AssetRegistryState {
 
             let end_pos = writer.position();
             writer.set_position(pos)?;
-            writer.write_i64::<LE>(end_pos as i64 - pos as i64)?;
+            writer.write_i64::<LE>(end_pos as i64 - start_pos as i64)?;
             writer.set_position(end_pos)?;
         }
 
-- 
2.43.0


From 91f304d53cf5017390237e4c4f4d9edb265eb066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:49 +0000
Subject: [PATCH 64/82] fix: write the number of imported classes of registry
 packages

---
 .../unreal_asset_registry/src/objects/asset_package_data.rs      | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unreal_asset/unreal_asset_registry/src/objects/asset_package_data.rs b/unreal_asset/unreal_asset_registry/src/objects/asset_package_data.rs
index ecce2b5..9374361 100644
--- a/unreal_asset/unreal_asset_registry/src/objects/asset_package_data.rs
+++ b/unreal_asset/unreal_asset_registry/src/objects/asset_package_data.rs
@@ -146,6 +146,7 @@ impl AssetPackageData {
                 RegistryError::version("Imported classes".to_string(), self.version)
             })?;
 
+            asset.write_i32::<LE>(imported_classes.len() as i32)?;
             for immported_class in imported_classes {
                 asset.write_fname(immported_class)?;
             }
-- 
2.43.0


From a8ac6b851f440e7de1ec215116763ea60f3bd632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:49 +0000
Subject: [PATCH 65/82] fix: keep repeated names of registries in place

---
 unreal_asset/unreal_asset_registry/src/name_table_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_registry/src/name_table_reader.rs b/unreal_asset/unreal_asset_registry/src/name_table_reader.rs
index 21929f4..ddc9d3c 100644
--- a/unreal_asset/unreal_asset_registry/src/name_table_reader.rs
+++ b/unreal_asset/unreal_asset_registry/src/name_table_reader.rs
@@ -44,7 +44,7 @@ impl<'reader, Reader: ArchiveReader<PackageIndex>> NameTableReader<'reader, Read
                 let name = reader.read_fstring()?.ok_or_else(|| {
                     Error::invalid_file(format!("Name table entry {i} is missing a name"))
                 })?;
-                name_map.get_mut().add_name_reference(name, false);
+                name_map.get_mut().add_name_reference(name, true);
 
                 if reader.get_object_version() >= ObjectVersion::VER_UE4_NAME_HASHES_SERIALIZED {
                     let _non_case_preserving_hash = reader.read_u16::<LE>()?;
-- 
2.43.0


From f6ec425db0584e9cd1d8019709b067edcad563cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:49 +0000
Subject: [PATCH 66/82] fix: check registry dependencies against the nodes of
 the registry

---
 unreal_asset/unreal_asset_registry/src/objects/depends_node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
index 4430fda..45acad0 100644
--- a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
+++ b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
@@ -460,7 +460,7 @@ impl DependsNode {
     ) -> Result<(), Error> {
         for _ in 0..num {
             let index = asset.read_i32::<LE>()?;
-            if index < 0 || nodes.len() <= index as usize {
+            if index < 0 || preallocated_depends_node_buffer.len() <= index as usize {
                 return Err(RegistryError::InvalidIndex(index).into());
             }
 
-- 
2.43.0


From 9167b24cb4b4224ac23c95d9c6178dd5afc3a452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:38 +0000
Subject: [PATCH 67/82] fix: read and write dependency flags of registries

---
 .../src/objects/depends_node.rs               | 115 ++++++------------
 1 file changed, 37 insertions(+), 78 deletions(-)

diff --git a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
index 45acad0..291d009 100644
--- a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
+++ b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
@@ -4,8 +4,6 @@ use bitvec::{order::Lsb0, prelude::BitVec};
 use byteorder::{ReadBytesExt, WriteBytesExt, LE};
 use lazy_static::lazy_static;
 
-use unreal_helpers::BitVecExt;
-
 use unreal_asset_base::{
     custom_version::FAssetRegistryVersionType,
     error::RegistryError,
@@ -144,6 +142,8 @@ lazy_static! {
 
 #[allow(unused)]
 const HARD_MANAGE_BITS: u32 = 0x1;
+/// Position of the hard bit in manage flags
+const HARD_MANAGE_BIT: u8 = 0;
 #[allow(unused)]
 const SOFT_MANAGE_BITS: u32 = 0x0;
 
@@ -151,9 +151,9 @@ impl DependsNode {
     /// Package `EDependencyProperty` enum into a byte
     #[allow(clippy::identity_op)] // allow for clarity
     fn package_properties_to_byte(properties: EDependencyProperty) -> u8 {
-        (0x1 * (properties & EDependencyProperty::HARD).bits() as u8)
-            | (0x2 * (properties & EDependencyProperty::GAME).bits() as u8)
-            | (0x4 * (properties & EDependencyProperty::BUILD).bits() as u8)
+        (0x1 * properties.contains(EDependencyProperty::HARD) as u8)
+            | (0x2 * properties.contains(EDependencyProperty::GAME) as u8)
+            | (0x4 * properties.contains(EDependencyProperty::BUILD) as u8)
     }
 
     /// Read `DependsNode` dependencies
@@ -161,6 +161,7 @@ impl DependsNode {
         asset: &mut Reader,
         preallocated_depends_node_buffer: &[DependsNode],
         flag_set_width: i32,
+        hard_bit: u8,
     ) -> Result<LoadedDependencyNodes, Error> {
         let mut sort_indexes = Vec::new();
         let mut pointer_dependencies = Vec::new();
@@ -200,42 +201,32 @@ impl DependsNode {
             cmp.cmp(&0)
         });
 
-        let mut hard_dependencies = Vec::new();
-        let mut soft_dependencies = Vec::new();
-
-        for index in &sort_indexes {
-            let node = pointer_dependencies[*index as usize];
-            let package_flags = node.package_flags.as_ref().ok_or_else(|| {
-                Error::invalid_file(
-                    "No package flags on asset registry with version >= AddedDependencyFlags"
-                        .to_string(),
-                )
-            })?;
-
-            if package_flags
-                .get(*HARD_BIT as usize)
-                .as_deref()
-                .copied()
-                .unwrap_or(false)
-            {
-                hard_dependencies.push(node.clone());
-            } else {
-                soft_dependencies.push(node.clone());
-            }
-        }
+        // hard dependencies come first, their flags are kept in the same order
+        let (hard_indexes, soft_indexes): (Vec<_>, Vec<_>) =
+            sort_indexes.into_iter().partition(|index| {
+                in_flag_bits
+                    .get((*index * flag_set_width) as usize + hard_bit as usize)
+                    .as_deref()
+                    .copied()
+                    .unwrap_or(false)
+            });
 
         let mut out_flag_bits = BitVec::with_capacity(num_flag_bits as usize);
-        for write_index in 0..in_dependencies.len() as i32 {
-            let read_index = &sort_indexes[write_index as usize];
-
-            out_flag_bits.set_range_from_range(
-                write_index * flag_set_width,
-                flag_set_width,
-                &in_flag_bits,
-                read_index * flag_set_width,
-            );
+        for index in hard_indexes.iter().chain(soft_indexes.iter()) {
+            let start = (*index * flag_set_width) as usize;
+            out_flag_bits
+                .extend_from_bitslice(&in_flag_bits[start..start + flag_set_width as usize]);
         }
 
+        let nodes = |indexes: &[i32]| {
+            indexes
+                .iter()
+                .map(|index| pointer_dependencies[*index as usize].clone())
+                .collect::<Vec<DependsNode>>()
+        };
+        let hard_dependencies = nodes(&hard_indexes);
+        let soft_dependencies = nodes(&soft_indexes);
+
         Ok((hard_dependencies, soft_dependencies, out_flag_bits))
     }
 
@@ -248,51 +239,17 @@ impl DependsNode {
         soft_dependencies: &[DependsNode],
     ) -> Result<(), Error> {
         let dependencies_length = hard_dependencies.len() as i32 + soft_dependencies.len() as i32;
-        let mut out_flag_bits = BitVec::<u32, Lsb0>::new();
 
         writer.write_i32::<LE>(dependencies_length)?;
-
-        for (i, hard_dependency) in hard_dependencies.iter().enumerate() {
-            writer.write_i32::<LE>(hard_dependency.index)?;
-
-            let index = out_flag_bits.len() as i32;
-            out_flag_bits.reserve(flag_set_width as usize);
-            out_flag_bits.set_range_from_range(
-                index,
-                flag_set_width,
-                flags,
-                i as i32 * flag_set_width,
-            );
-        }
-
-        let inital_soft_index = hard_dependencies.len() as i32;
-
-        for (i, soft_dependency) in soft_dependencies.iter().enumerate() {
-            writer.write_i32::<LE>(soft_dependency.index)?;
-
-            let index = out_flag_bits.len() as i32 + inital_soft_index;
-            out_flag_bits.reserve(flag_set_width as usize);
-            out_flag_bits.set_range_from_range(
-                index,
-                flag_set_width,
-                flags,
-                (i as i32 + inital_soft_index) * flag_set_width,
-            );
+        for dependency in hard_dependencies.iter().chain(soft_dependencies.iter()) {
+            writer.write_i32::<LE>(dependency.index)?;
         }
 
-        let bit_vec_size = ((out_flag_bits.len() + 31) / 32) as i32;
-        writer.write_i32::<LE>(bit_vec_size)?;
-
-        for byte in out_flag_bits.chunks(8).map(|chunk| {
-            let mut byte = 0u8;
-            for i in 0..8 {
-                if chunk[i] {
-                    byte |= 1 << i;
-                }
-            }
-            byte
-        }) {
-            writer.write_u8(byte)?;
+        let mut out_flag_bits = flags.clone();
+        out_flag_bits.resize((dependencies_length * flag_set_width) as usize, false);
+        out_flag_bits.set_uninitialized(false);
+        for word in out_flag_bits.as_raw_slice() {
+            writer.write_u32::<LE>(*word)?;
         }
 
         Ok(())
@@ -379,6 +336,7 @@ impl DependsNode {
             asset,
             preallocated_depends_node_buffer,
             PACKAGE_FLAG_SET_WIDTH,
+            *HARD_BIT,
         )?;
 
         let name_dependencies =
@@ -389,6 +347,7 @@ impl DependsNode {
                 asset,
                 preallocated_depends_node_buffer,
                 MANAGE_FLAG_SET_WIDTH,
+                HARD_MANAGE_BIT,
             )?;
 
         let referencers =
-- 
2.43.0


From 3ed53997a5815d9a29952011ed3b1450272a03d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:02 +0000
Subject: [PATCH 68/82] fix: don't trust counts and sizes stored in registries

---
 unreal_asset/unreal_asset_registry/src/lib.rs | 31 +++++++++++++++++--
 .../src/objects/asset_data.rs                 |  3 ++
 .../src/objects/depends_node.rs               | 10 ++++--
 3 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/unreal_asset/unreal_asset_registry/src/lib.rs b/unreal_asset/unreal_asset_registry/src/lib.rs
index 4b4cca3..2b310f7 100644
--- a/unreal_asset/unreal_asset_registry/src/lib.rs
+++ b/unreal_asset/unreal_asset_registry/src/lib.rs
@@ -60,6 +60,24 @@ pub struct AssetRegistryState {
 }
 
 impl AssetRegistryState {
+    /// Read the number of depends nodes, there can't be more of them than bytes to read them from
+    fn read_node_count<Reader: ArchiveReader<impl PackageIndexTrait>>(
+        asset: &mut Reader,
+    ) -> Result<i32, Error> {
+        let count = asset.read_i32::<LE>()?;
+        let position = asset.position();
+        let end = asset.seek(SeekFrom::End(0))?;
+        asset.set_position(position)?;
+
+        if count < 0 || count as u64 > end.saturating_sub(position) {
+            return Err(Error::invalid_file(format!(
+                "Invalid number of depends nodes: {count}"
+            )));
+        }
+
+        Ok(count)
+    }
+
     /// Read an `AssetRegistryState` from an asset
     fn load<Reader: ArchiveReader<impl PackageIndexTrait>>(
         asset: &mut Reader,
@@ -71,7 +89,7 @@ impl AssetRegistryState {
         *assets_data = asset.read_array(|asset: &mut Reader| AssetData::new(asset, version))?;
 
         if version < FAssetRegistryVersionType::AddedDependencyFlags {
-            let local_num_depends_nodes = asset.read_i32::<LE>()?;
+            let local_num_depends_nodes = Self::read_node_count(asset)?;
             *depends_nodes = Vec::with_capacity(local_num_depends_nodes as usize);
 
             for i in 0..local_num_depends_nodes {
@@ -86,8 +104,15 @@ impl AssetRegistryState {
             }
         } else {
             let dependency_section_size = asset.read_i64::<LE>()?;
-            let dependency_section_end = asset.position() + dependency_section_size as u64;
-            let local_num_depends_nodes = asset.read_i32::<LE>()?;
+            let dependency_section_end = asset
+                .position()
+                .checked_add_signed(dependency_section_size)
+                .ok_or_else(|| {
+                    Error::invalid_file(format!(
+                        "Invalid dependency section size: {dependency_section_size}"
+                    ))
+                })?;
+            let local_num_depends_nodes = Self::read_node_count(asset)?;
 
             *depends_nodes = Vec::with_capacity(local_num_depends_nodes as usize);
             for i in 0..local_num_depends_nodes {
diff --git a/unreal_asset/unreal_asset_registry/src/objects/asset_data.rs b/unreal_asset/unreal_asset_registry/src/objects/asset_data.rs
index 79662ed..05816e8 100644
--- a/unreal_asset/unreal_asset_registry/src/objects/asset_data.rs
+++ b/unreal_asset/unreal_asset_registry/src/objects/asset_data.rs
@@ -83,6 +83,9 @@ impl AssetData {
         asset: &mut Reader,
     ) -> Result<IndexedMap<FName, Option<String>>, Error> {
         let size = asset.read_i32::<LE>()?;
+        if size < 0 {
+            return Err(Error::invalid_file(format!("Invalid tag count: {size}")));
+        }
         let mut tags_and_values = IndexedMap::new();
 
         for _ in 0..size {
diff --git a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
index 291d009..be78e40 100644
--- a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
+++ b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
@@ -417,6 +417,12 @@ impl DependsNode {
         num: i32,
         nodes: &mut Vec<DependsNode>,
     ) -> Result<(), Error> {
+        if num < 0 {
+            return Err(Error::invalid_file(format!(
+                "Invalid number of dependencies: {num}"
+            )));
+        }
+
         for _ in 0..num {
             let index = asset.read_i32::<LE>()?;
             if index < 0 || preallocated_depends_node_buffer.len() <= index as usize {
@@ -448,8 +454,8 @@ impl DependsNode {
         };
         let num_referencers = asset.read_i32::<LE>()?;
 
-        let mut name_dependencies = Vec::with_capacity(num_name as usize);
-        let mut referencers = Vec::with_capacity(num_referencers as usize);
+        let mut name_dependencies = Vec::new();
+        let mut referencers = Vec::new();
 
         Self::read_node_array(
             asset,
-- 
2.43.0


From f9f42c40cb7228817b3488e3bbeb39c9ccad3a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:33 +0000
Subject: [PATCH 69/82] fix: read the strings of registry tag stores up to
 their terminator

---
 .../src/objects/store.rs                      | 69 ++++++++-----------
 1 file changed, 28 insertions(+), 41 deletions(-)

diff --git a/unreal_asset/unreal_asset_registry/src/objects/store.rs b/unreal_asset/unreal_asset_registry/src/objects/store.rs
index d55ecd9..5fca097 100644
--- a/unreal_asset/unreal_asset_registry/src/objects/store.rs
+++ b/unreal_asset/unreal_asset_registry/src/objects/store.rs
@@ -49,7 +49,7 @@ impl ValueId {
     ) -> Result<Self, Error> {
         let id = asset.read_u32::<LE>()?;
         let value_type = EValueType::try_from((id << INDEX_BITS) >> INDEX_BITS)?;
-        let index = id as i32 >> TYPE_BITS;
+        let index = (id >> TYPE_BITS) as i32;
 
         Ok(Self { value_type, index })
     }
@@ -193,6 +193,20 @@ impl Store {
         }
     }
 
+    /// Get the null-terminated string that starts at an offset
+    fn string_at<T: Default + PartialEq>(buf: &[T], offset: i32) -> Result<&[T], Error> {
+        let rest = usize::try_from(offset)
+            .ok()
+            .and_then(|offset| buf.get(offset..))
+            .ok_or_else(|| Error::invalid_file(format!("Invalid string offset: {offset}")))?;
+        let length = rest
+            .iter()
+            .position(|e| *e == T::default())
+            .unwrap_or(rest.len());
+
+        Ok(&rest[..length])
+    }
+
     /// Read a `Store` from an asset
     pub fn new<Reader: ArchiveReader<impl PackageIndexTrait>>(
         asset: &mut Reader,
@@ -252,54 +266,27 @@ impl Store {
                 Ok(asset.read_i32::<LE>()?)
             })?;
 
-        let mut ansi_strings_buf = vec![0u8; ansi_strings_size as usize];
-        asset.read_exact(&mut ansi_strings_buf)?;
-
+        let ansi_strings_buf = asset.read_bytes(ansi_strings_size as i64)?;
         let mut ansi_strings = Vec::new();
 
         for ansi_string_offset in ansi_string_offsets {
-            let mut length = 0;
-            while ansi_strings_buf
-                .get((ansi_string_offset + length) as usize)
-                .map(|e| *e != 0)
-                .unwrap_or(false)
-            {
-                length += 1;
-            }
-
-            let ansi_string = String::from_utf8(
-                ansi_strings_buf[(ansi_string_offset + length + 1) as usize..].to_vec(),
-            )
-            .map_err(|_| Error::invalid_file("Invalid ANSI string".to_string()))?;
-            ansi_strings.push(ansi_string);
+            let ansi_string = Self::string_at(&ansi_strings_buf, ansi_string_offset)?;
+            ansi_strings.push(
+                String::from_utf8(ansi_string.to_vec())
+                    .map_err(|_| Error::invalid_file("Invalid ANSI string".to_string()))?,
+            );
         }
 
-        let mut wide_strings_buf = vec![0u8; (wide_strings_size * 2) as usize];
-        asset.read_exact(&mut wide_strings_buf)?;
-
+        let wide_strings_buf = asset
+            .read_bytes(wide_strings_size as i64 * 2)?
+            .chunks(2)
+            .map(|e| u16::from_le_bytes([e[0], e[1]]))
+            .collect::<Vec<_>>();
         let mut wide_strings = Vec::new();
 
         for wide_string_offset in wide_string_offsets {
-            let mut length = 0;
-            while wide_strings_buf
-                .get((wide_string_offset + length) as usize)
-                .map(|e| *e != 0)
-                .unwrap_or(false)
-                && wide_strings_buf
-                    .get((wide_string_offset + length + 1) as usize)
-                    .map(|e| *e != 0)
-                    .unwrap_or(false)
-            {
-                length += 2;
-            }
-
-            let wide_string = String::from_utf16(
-                &wide_strings_buf[(wide_string_offset + length) as usize..]
-                    .chunks(2)
-                    .map(|e| u16::from_le_bytes([e[0], e[1]]))
-                    .collect::<Vec<_>>(),
-            )?;
-            wide_strings.push(wide_string);
+            let wide_string = Self::string_at(&wide_strings_buf, wide_string_offset)?;
+            wide_strings.push(String::from_utf16(wide_string)?);
         }
 
         let numberless_pairs = asset
-- 
2.43.0


From f0f8ddf13b8037e3545ea970b7eef5a3bb6eaa06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:53 +0000
Subject: [PATCH 70/82] fix: reject invalid dependency versions of mods instead
 of panicking

---
 unreal_mod_metadata/src/v2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_mod_metadata/src/v2.rs b/unreal_mod_metadata/src/v2.rs
index f08b941..bcfa4f7 100644
--- a/unreal_mod_metadata/src/v2.rs
+++ b/unreal_mod_metadata/src/v2.rs
@@ -32,7 +32,7 @@ where
         where
             E: de::Error,
         {
-            Ok(FromStr::from_str(value).unwrap())
+            FromStr::from_str(value).map_err(de::Error::custom)
         }
 
         fn visit_map<M>(self, map: M) -> Result<T, M::Error>
-- 
2.43.0


From a38fa290142dad960ec35d22263aeb30bc730f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:52 +0000
Subject: [PATCH 71/82] fix: compare and hash mod metadata by content

---
 unreal_mod_metadata/src/lib.rs | 24 +++++++++++++++++++++++-
 unreal_mod_metadata/src/v2.rs  | 34 ++++++++++------------------------
 2 files changed, 33 insertions(+), 25 deletions(-)

diff --git a/unreal_mod_metadata/src/lib.rs b/unreal_mod_metadata/src/lib.rs
index 5904712..14e8978 100644
--- a/unreal_mod_metadata/src/lib.rs
+++ b/unreal_mod_metadata/src/lib.rs
@@ -1,7 +1,9 @@
+use std::hash::{Hash, Hasher};
 use std::str::FromStr;
 
 use semver::VersionReq;
 use serde::{de, Deserialize, Deserializer, Serialize, Serializer};
+use serde_json::Value;
 
 use error::Error;
 
@@ -18,11 +20,31 @@ macro_rules! hash_value {
             Value::Number(n) => n.hash($state),
             Value::Bool(b) => b.hash($state),
             Value::Null => (),
-            _ => unreachable!(),
+            value => $crate::hash_nested_value(value, $state),
         }
     };
 }
 
+#[doc(hidden)]
+pub fn hash_nested_value<H: Hasher>(value: &Value, state: &mut H) {
+    match value {
+        Value::Array(array) => {
+            array.len().hash(state);
+            for element in array {
+                hash_value!(element, state);
+            }
+        }
+        Value::Object(object) => {
+            object.len().hash(state);
+            for (element_name, element) in object {
+                element_name.hash(state);
+                hash_value!(element, state);
+            }
+        }
+        value => hash_value!(value, state),
+    }
+}
+
 #[derive(Debug, Copy, Clone, PartialEq, Eq, Hash, Default, Serialize, Deserialize)]
 pub enum SyncMode {
     #[default]
diff --git a/unreal_mod_metadata/src/v2.rs b/unreal_mod_metadata/src/v2.rs
index bcfa4f7..1a0869a 100644
--- a/unreal_mod_metadata/src/v2.rs
+++ b/unreal_mod_metadata/src/v2.rs
@@ -1,5 +1,5 @@
-use std::collections::{hash_map::DefaultHasher, HashMap};
-use std::hash::{Hash, Hasher};
+use std::collections::{BTreeMap, HashMap};
+use std::hash::Hash;
 use std::marker::PhantomData;
 use std::str::FromStr;
 
@@ -95,14 +95,14 @@ impl Hash for Metadata {
         self.homepage.hash(state);
         self.download.hash(state);
 
-        self.dependencies.len().hash(state);
-        for (element_name, element) in &self.dependencies {
-            element_name.hash(state);
-            element.hash(state);
-        }
+        // equal maps have to hash equally whatever order they iterate in
+        self.dependencies
+            .iter()
+            .collect::<BTreeMap<_, _>>()
+            .hash(state);
 
         self.integrator.len().hash(state);
-        for (element_name, element) in &self.integrator {
+        for (element_name, element) in self.integrator.iter().collect::<BTreeMap<_, _>>() {
             element_name.hash(state);
             hash_value!(element, state);
         }
@@ -113,7 +113,7 @@ impl Hash for Metadata {
 
 impl PartialEq for Metadata {
     fn eq(&self, other: &Self) -> bool {
-        let cmp = self.schema_version == other.schema_version
+        self.schema_version == other.schema_version
             && self.name == other.name
             && self.mod_id == other.mod_id
             && self.author == other.author
@@ -125,21 +125,7 @@ impl PartialEq for Metadata {
             && self.download == other.download
             && self.dependencies == other.dependencies
             && self.cpp_loader_dlls == other.cpp_loader_dlls
-            && self.integrator.len() == other.integrator.len();
-
-        let mut hasher = DefaultHasher::new();
-        for (element_name, element) in &self.integrator {
-            element_name.hash(&mut hasher);
-            hash_value!(element, &mut hasher);
-        }
-
-        let mut other_hasher = DefaultHasher::new();
-        for (element_name, element) in &other.integrator {
-            element_name.hash(&mut other_hasher);
-            hash_value!(element, &mut other_hasher);
-        }
-
-        cmp && (hasher.finish() == other_hasher.finish())
+            && self.integrator == other.integrator
     }
 }
 
-- 
2.43.0


From 289c950571522bb875994fdcee4010463d70287f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:29 +0000
Subject: [PATCH 72/82] fix: don't extract entries of a pak outside of the
 output folder

---
 unreal_pak_cli/src/main.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/unreal_pak_cli/src/main.rs b/unreal_pak_cli/src/main.rs
index 4421695..25b6378 100644
--- a/unreal_pak_cli/src/main.rs
+++ b/unreal_pak_cli/src/main.rs
@@ -1,6 +1,6 @@
 use std::fs::{File, OpenOptions};
 use std::io::{BufReader, BufWriter, Write};
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::process::exit;
 use std::time::SystemTime;
 
@@ -99,6 +99,15 @@ fn main() {
             for (i, (file_name, data)) in pak.iter().enumerate() {
                 match data {
                     Ok(data) => {
+                        // the names come from the pak, don't let them leave the output folder
+                        if Path::new(file_name)
+                            .components()
+                            .any(|c| !matches!(c, Component::Normal(_) | Component::CurDir))
+                        {
+                            eprintln!("Record {i} is not inside the output folder: {file_name:?}");
+                            exit(1);
+                        }
+
                         let path = output_folder.join(file_name);
                         let dir_path = match path.parent() {
                             Some(dir) => dir,
-- 
2.43.0


From 89d3bf67573a680e93a60dd3c45b4d42f6ad9760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:53 +0000
Subject: [PATCH 73/82] fix: combine the requirements of any number of mods

---
 .../src/mod_processing/dependencies.rs         | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/unreal_mod_manager/src/mod_processing/dependencies.rs b/unreal_mod_manager/src/mod_processing/dependencies.rs
index 031f11b..5d483d5 100644
--- a/unreal_mod_manager/src/mod_processing/dependencies.rs
+++ b/unreal_mod_manager/src/mod_processing/dependencies.rs
@@ -42,21 +42,9 @@ pub struct DependencyGraph {
 
 // https://github.com/dtolnay/semver/issues/170#issuecomment-734284639
 fn intersect_requirements(reqs: impl IntoIterator<Item = VersionReq>) -> VersionReq {
-    let reqs: Vec<_> = reqs
-        .into_iter()
-        .filter_map(|req| {
-            if req == VersionReq::STAR {
-                None
-            } else {
-                Some(req.to_string())
-            }
-        })
-        .collect();
-
-    if reqs.is_empty() {
-        VersionReq::STAR
-    } else {
-        reqs.join(", ").parse().unwrap()
+    // joining the comparators instead of the texts, parsing is limited to 32 of them
+    VersionReq {
+        comparators: reqs.into_iter().flat_map(|req| req.comparators).collect(),
     }
 }
 
-- 
2.43.0


From d9290af9d8b4eccc54b6a794e0294905f10357d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:53 +0000
Subject: [PATCH 74/82] fix: look up requirements from the mod that has them,
 an unmet one panicked

---
 unreal_mod_manager/src/mod_processing/dependencies.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/unreal_mod_manager/src/mod_processing/dependencies.rs b/unreal_mod_manager/src/mod_processing/dependencies.rs
index 5d483d5..d9ace7b 100644
--- a/unreal_mod_manager/src/mod_processing/dependencies.rs
+++ b/unreal_mod_manager/src/mod_processing/dependencies.rs
@@ -143,7 +143,7 @@ impl DependencyGraph {
                                 (
                                     self.graph.node_weight(e).unwrap().mod_id.clone(),
                                     self.graph
-                                        .edges_connecting(node, e)
+                                        .edges_connecting(e, node)
                                         .next()
                                         .unwrap()
                                         .weight(),
@@ -188,14 +188,14 @@ impl DependencyGraph {
                 .map(|e| {
                     (
                         self.graph.node_weight(e).unwrap().mod_id.clone(),
-                        self.graph.find_edge_undirected(node, e),
+                        self.graph.find_edge(e, node),
                     )
                 })
                 .filter(|(_, edge)| edge.is_some())
                 .map(|(mod_id, edge)| {
                     (
                         mod_id,
-                        self.graph.edge_weight(edge.unwrap().0).unwrap().to_string(),
+                        self.graph.edge_weight(edge.unwrap()).unwrap().to_string(),
                     )
                 })
                 .collect::<Vec<_>>();
-- 
2.43.0


From 20f3b3aab298626722e87aec44dcdf38edb66a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:54 +0000
Subject: [PATCH 75/82] fix: use the versions of a mod, not of the mod that
 needs it

---
 unreal_mod_manager/src/mod_processing/dependencies.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unreal_mod_manager/src/mod_processing/dependencies.rs b/unreal_mod_manager/src/mod_processing/dependencies.rs
index d9ace7b..7ff5fe6 100644
--- a/unreal_mod_manager/src/mod_processing/dependencies.rs
+++ b/unreal_mod_manager/src/mod_processing/dependencies.rs
@@ -81,6 +81,8 @@ impl DependencyGraph {
                 versions: game_mod.versions.clone(),
                 downloads: Vec::new(),
             });
+            // it may be known as a dependency only, with the versions of the mod that needs it
+            self.graph.node_weight_mut(mod_node).unwrap().versions = game_mod.versions.clone();
 
             for (dependency_mod_id, dependency) in &game_mod.dependencies {
                 let dependency_node = self.get_or_add_mod(GraphMod {
-- 
2.43.0


From 1c9112e110f6b40616cd983e28e6d6cbad0dd015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:35 +0000
Subject: [PATCH 76/82] fix: match the dots of mod file names literally

---
 unreal_mod_manager/src/mod_processing/verify.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_mod_manager/src/mod_processing/verify.rs b/unreal_mod_manager/src/mod_processing/verify.rs
index a63683b..fb59c32 100644
--- a/unreal_mod_manager/src/mod_processing/verify.rs
+++ b/unreal_mod_manager/src/mod_processing/verify.rs
@@ -14,7 +14,7 @@ lazy_static! {
     /// Match 2: ModName69.author
     /// Match 3: 1.1.1
     // regex explanation                                           (  000 )-(Mod69<.author>)-( 1 . 1 . 1 )_P.pak
-    pub(crate) static ref MOD_FILENAME_REGEX: Regex = Regex::new(r"(^\d{3})-([a-zA-Z0-9\.]+)-(\d+.\d+.\d+)_P.pak$").unwrap();
+    pub(crate) static ref MOD_FILENAME_REGEX: Regex = Regex::new(r"(^\d{3})-([a-zA-Z0-9\.]+)-(\d+\.\d+\.\d+)_P\.pak$").unwrap();
 }
 
 pub fn verify_mod_file_name(mod_id: &str) -> bool {
-- 
2.43.0


From f203add67f72c893ea580d73ab6321b52b8639cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:35 +0000
Subject: [PATCH 77/82] fix: reject mod files whose version is not a version,
 they panicked

---
 unreal_mod_manager/src/mod_processing/pakfile_reading.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/unreal_mod_manager/src/mod_processing/pakfile_reading.rs b/unreal_mod_manager/src/mod_processing/pakfile_reading.rs
index 35ee4c9..92a6686 100644
--- a/unreal_mod_manager/src/mod_processing/pakfile_reading.rs
+++ b/unreal_mod_manager/src/mod_processing/pakfile_reading.rs
@@ -83,6 +83,11 @@ pub(crate) fn read_pak_files(
                 return Err(ModLoaderWarning::invalid_metadata(file_name));
             }
 
+            // check that the version is one that can be ordered
+            if Version::parse(version).is_err() {
+                return Err(ModLoaderWarning::invalid_version(file_name));
+            }
+
             let mod_id = metadata.mod_id.to_owned();
 
             if !mods_read.contains_key(&mod_id) {
-- 
2.43.0


From b4f70d5d1d4fd1b7c3150b0ef264a5409312caff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:35 +0000
Subject: [PATCH 78/82] fix: report an invalid version in an index file, it
 panicked

---
 unreal_mod_manager/src/mod_processing/index_file.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_mod_manager/src/mod_processing/index_file.rs b/unreal_mod_manager/src/mod_processing/index_file.rs
index bc049a9..7a15157 100644
--- a/unreal_mod_manager/src/mod_processing/index_file.rs
+++ b/unreal_mod_manager/src/mod_processing/index_file.rs
@@ -41,7 +41,7 @@ where
         where
             E: de::Error,
         {
-            Ok(FromStr::from_str(value).unwrap())
+            FromStr::from_str(value).map_err(E::custom)
         }
     }
     deserializer.deserialize_any(StringDeserializer(PhantomData))
-- 
2.43.0


From 2cf2492f58e7904467d96b15f29a3ad5ac9d7092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:31 +0000
Subject: [PATCH 79/82] fix: an index file's latest version must be one of its
 versions, processing the mod again panicked

---
 unreal_mod_manager/src/mod_processing/index_file.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/unreal_mod_manager/src/mod_processing/index_file.rs b/unreal_mod_manager/src/mod_processing/index_file.rs
index 7a15157..5ad1a54 100644
--- a/unreal_mod_manager/src/mod_processing/index_file.rs
+++ b/unreal_mod_manager/src/mod_processing/index_file.rs
@@ -223,6 +223,17 @@ pub(crate) fn insert_index_file_data(
             }
         }
 
+        // the latest version has to be one that can be selected
+        if !game_mod.versions.contains_key(&index_file.latest_version) {
+            warn!(
+                "Index file for {:?} does not contain its latest version {}",
+                mod_id, index_file.latest_version
+            );
+            warnings.push(ModLoaderWarning::invalid_index_file(mod_id.to_owned()));
+
+            continue;
+        }
+
         match game_mod.selected_version {
             SelectedVersion::Latest(_) => {
                 game_mod.selected_version =
-- 
2.43.0


From 1360ee9482cdcac7709d9b87a85c3f909e692686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:08 +0000
Subject: [PATCH 80/82] fix: a settings file that is not text is replaced like
 any other broken one, it panicked

---
 unreal_mod_manager/src/mod_config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_mod_manager/src/mod_config.rs b/unreal_mod_manager/src/mod_config.rs
index bb42aad..6125149 100644
--- a/unreal_mod_manager/src/mod_config.rs
+++ b/unreal_mod_manager/src/mod_config.rs
@@ -52,7 +52,7 @@ pub(crate) fn load_config(data: &mut ModLoaderAppData) {
         bail!()
     }
 
-    let config: ModConfig = match serde_json::from_str(&fs::read_to_string(&config_path).unwrap()) {
+    let config: ModConfig = match serde_json::from_slice(&fs::read(&config_path).unwrap()) {
         Ok(config) => config,
         Err(err) => {
             error!("{}", err);
-- 
2.43.0


From d05e0c70a357a9d97015bec59c69d1f1d5ba54cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:55 +0000
Subject: [PATCH 81/82] fix: names that writing the exports adds are in the
 written name table, the package could not be read again

---
 unreal_asset/src/asset.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 6ba59e9..dc31b78 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -1169,7 +1169,7 @@ impl<'a, C: Read + Seek> Asset<C> {
     pub fn write_data<W: Read + Seek + Write>(
         &self,
         cursor: &mut W,
-        uexp_cursor: Option<&mut W>,
+        mut uexp_cursor: Option<&mut W>,
     ) -> Result<(), Error> {
         if self.asset_data.use_event_driven_loader != uexp_cursor.is_some() {
             return Err(Error::no_data(format!(
@@ -1217,6 +1217,7 @@ impl<'a, C: Read + Seek> Asset<C> {
             false => 0,
         };
 
+        let name_count = self.name_map.get_ref().get_name_map_index_list().len();
         for name in self.name_map.get_ref().get_name_map_index_list() {
             // todo: case preserving FString
             serializer.write_fstring(Some(name))?;
@@ -1356,7 +1357,7 @@ impl<'a, C: Read + Seek> Asset<C> {
 
         let mut raw_bulk_serializer = match self.asset_data.use_event_driven_loader {
             true => Some(RawWriter::new(
-                uexp_cursor.unwrap(),
+                uexp_cursor.as_deref_mut().unwrap(),
                 self.asset_data.object_version,
                 self.asset_data.object_version_ue5,
                 self.asset_data.use_event_driven_loader,
@@ -1448,6 +1449,12 @@ impl<'a, C: Read + Seek> Asset<C> {
 
         serializer.rewind()?;
 
+        // writing exports adds the names they still need, like property types,
+        // after the name map was written
+        if self.name_map.get_ref().get_name_map_index_list().len() != name_count {
+            return self.write_data(cursor, uexp_cursor);
+        }
+
         Ok(())
     }
 }
-- 
2.43.0


From 26e75073cbee9aefd11b4f4d9922d71123cb4bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:22 +0000
Subject: [PATCH 82/82] fix: iterators of an indexed map give their exact size
 hint, adaptors that rely on it panicked

---
 .../src/containers/indexed_map/mod.rs         | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
index 90f2b27..f568d92 100644
--- a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
@@ -168,6 +168,10 @@ where
             &value.value,
         ))
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<'map, K, V> DoubleEndedIterator for IndexedMapIndexIterator<'map, K, V>
@@ -238,6 +242,10 @@ where
             value.as_mut().unwrap()
         }))
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<'map, K, V> DoubleEndedIterator for IndexedMapIndexIteratorMut<'map, K, V>
@@ -297,6 +305,10 @@ where
             value.value,
         ))
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<K, V> DoubleEndedIterator for IndexedMapIndexIteratorOwned<K, V>
@@ -350,6 +362,10 @@ where
             &value.value,
         ))
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<K, V> ExactSizeIterator for IndexedMapKeyIterator<'_, K, V>
@@ -406,6 +422,10 @@ where
             value.as_mut().unwrap()
         }))
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<K, V> ExactSizeIterator for IndexedMapKeyIteratorMut<'_, K, V>
@@ -527,6 +547,10 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         self.inner.next().map(|(_, k, _)| k)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<'map, K, V> DoubleEndedIterator for Keys<'map, K, V>
-- 
2.43.0

