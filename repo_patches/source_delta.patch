From d52be794f13d8f62e65e2c15d7aa5848f7b0d98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:34 +0000
Subject: [PATCH 01/21] fix: sparse compression must not encode a 127-zero run
 as the end marker

---
 mopaq/src/compression/algorithms/sparse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mopaq/src/compression/algorithms/sparse.rs b/mopaq/src/compression/algorithms/sparse.rs
index fa82cd8..1e65f10 100644
--- a/mopaq/src/compression/algorithms/sparse.rs
+++ b/mopaq/src/compression/algorithms/sparse.rs
@@ -59,7 +59,8 @@ pub(crate) fn compress(data: &[u8]) -> Result<Vec<u8>> {
         if zero_count > 0 {
             // Encode runs of zeros
             while zero_count > 0 {
-                let chunk = zero_count.min(0x7F);
+                // 0x80 | 0x7F is the end-of-stream marker, so a run holds at most 0x7E zeros
+                let chunk = zero_count.min(0x7E);
                 output.push(0x80 | (chunk as u8));
                 zero_count -= chunk;
             }
-- 
2.43.0


From 380fbbcd73bd62ac68af0f79d6034c50cefe3a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:06 +0000
Subject: [PATCH 02/21] fix: compressed data plus its method byte must be
 shorter than the input

A result exactly as long as the input is indistinguishable from raw data, and
readers, which compare the lengths, returned the compressed bytes as content.
---
 mopaq/src/compression/compress.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mopaq/src/compression/compress.rs b/mopaq/src/compression/compress.rs
index 0582737..1ff05fa 100644
--- a/mopaq/src/compression/compress.rs
+++ b/mopaq/src/compression/compress.rs
@@ -15,7 +15,8 @@ pub fn compress(data: &[u8], method: u8) -> Result<Vec<u8>> {
 
     // MPQ format requires that compression saves at least 2 bytes
     // If it doesn't, we return the original data uncompressed
-    if compressed.len() >= data.len() {
+    // (the method byte counts too: a result as long as the input would be read as raw data)
+    if compressed.len() + 1 >= data.len() {
         // Return uncompressed data (no compression byte prefix)
         Ok(data.to_vec())
     } else {
-- 
2.43.0


From 7511ef9808ec02bedc8682cedcbb23d7b9ac3008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:45 +0000
Subject: [PATCH 03/21] fix: decompress ADPCM+BZip2 sectors

The BZip2 stage of a multi-compressed sector was required to produce exactly
four times the final size, so every such sector was rejected.
---
 mopaq/src/compression/algorithms/bzip2.rs | 19 +++++++++++++------
 mopaq/src/compression/decompress.rs       |  2 +-
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/mopaq/src/compression/algorithms/bzip2.rs b/mopaq/src/compression/algorithms/bzip2.rs
index 6cb1ab7..eb72a51 100644
--- a/mopaq/src/compression/algorithms/bzip2.rs
+++ b/mopaq/src/compression/algorithms/bzip2.rs
@@ -8,12 +8,7 @@ use std::io::{Read, Write};
 
 /// Decompress using BZip2
 pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
-    let mut decoder = BzDecoder::new(data);
-    let mut decompressed = Vec::with_capacity(expected_size);
-
-    decoder
-        .read_to_end(&mut decompressed)
-        .map_err(|e| Error::compression(format!("BZip2 decompression failed: {}", e)))?;
+    let decompressed = decompress_stage(data, expected_size)?;
 
     if decompressed.len() != expected_size {
         return Err(Error::compression(format!(
@@ -26,6 +21,18 @@ pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
     Ok(decompressed)
 }
 
+/// Decompress a BZip2 stage of a multi-compressed sector, whose output size is not recorded
+pub(crate) fn decompress_stage(data: &[u8], size_hint: usize) -> Result<Vec<u8>> {
+    let mut decoder = BzDecoder::new(data);
+    let mut decompressed = Vec::with_capacity(size_hint);
+
+    decoder
+        .read_to_end(&mut decompressed)
+        .map_err(|e| Error::compression(format!("BZip2 decompression failed: {}", e)))?;
+
+    Ok(decompressed)
+}
+
 /// Compress using BZip2
 pub(crate) fn compress(data: &[u8]) -> Result<Vec<u8>> {
     let mut encoder = BzEncoder::new(Vec::new(), Compression::default());
diff --git a/mopaq/src/compression/decompress.rs b/mopaq/src/compression/decompress.rs
index 0330108..0e716c8 100644
--- a/mopaq/src/compression/decompress.rs
+++ b/mopaq/src/compression/decompress.rs
@@ -101,7 +101,7 @@ fn decompress_multiple(data: &[u8], flags: u8, expected_size: usize) -> Result<V
         current_data = algorithms::zlib::decompress(&current_data, expected_size * 4)?;
     } else if has_bzip2 {
         log::debug!("Decompressing BZip2");
-        current_data = algorithms::bzip2::decompress(&current_data, expected_size * 4)?;
+        current_data = algorithms::bzip2::decompress_stage(&current_data, expected_size)?;
     } else if has_sparse {
         log::debug!("Decompressing Sparse");
         current_data = algorithms::sparse::decompress(&current_data, expected_size * 4)?;
-- 
2.43.0


From f4ea9ee25742aa08f4d1532702fbea06b5bbc871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:52 +0000
Subject: [PATCH 04/21] fix: ADPCM decoder must not panic on a shift taken from
 the data

---
 mopaq/src/compression/algorithms/adpcm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mopaq/src/compression/algorithms/adpcm.rs b/mopaq/src/compression/algorithms/adpcm.rs
index b7e118a..fbee32d 100644
--- a/mopaq/src/compression/algorithms/adpcm.rs
+++ b/mopaq/src/compression/algorithms/adpcm.rs
@@ -265,7 +265,7 @@ fn decompress_internal(input: &[u8], output_size: usize, channel_count: usize) -
                 predicted_samples[channel_index] as i32,
                 encoded_sample,
                 step_size,
-                step_size >> bit_shift as i32,
+                step_size >> bit_shift.min(31),
             ) as i16;
 
             write_sample(&mut output, predicted_samples[channel_index]);
-- 
2.43.0


From 935f486393eb81cea84f6b603f7ed899dce537a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:41 +0000
Subject: [PATCH 05/21] fix: accept valid weak signatures

The RSA-decoded block starts with a zero byte, which BigUint::to_bytes_be drops,
so the PKCS#1 check never saw its 00 01 header and rejected every signature.
---
 mopaq/src/crypto/signature.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mopaq/src/crypto/signature.rs b/mopaq/src/crypto/signature.rs
index c614b4f..3ce69bc 100644
--- a/mopaq/src/crypto/signature.rs
+++ b/mopaq/src/crypto/signature.rs
@@ -273,7 +273,7 @@ pub fn verify_weak_signature_stormlib<R: Read + std::io::Seek>(
 
     // Perform RSA operation: signature^e mod n
     let decrypted = signature_int.modpow(&e, &n);
-    let decrypted_bytes = decrypted.to_bytes_be();
+    let decrypted_bytes = left_pad(decrypted.to_bytes_be(), WEAK_SIGNATURE_SIZE);
 
     // Verify PKCS#1 v1.5 padding
     verify_pkcs1_v15_md5(&decrypted_bytes, &hash)
@@ -316,7 +316,7 @@ pub fn verify_weak_signature<R: Read>(
 
     // Perform RSA operation: signature^e mod n
     let decrypted = signature_int.modpow(&e, &n);
-    let decrypted_bytes = decrypted.to_bytes_be();
+    let decrypted_bytes = left_pad(decrypted.to_bytes_be(), WEAK_SIGNATURE_SIZE);
 
     // Verify PKCS#1 v1.5 padding
     verify_pkcs1_v15_md5(&decrypted_bytes, &hash)
@@ -465,6 +465,13 @@ fn verify_mpq_strong_signature_padding(decrypted: &[u8], expected_hash: &[u8]) -
     Ok(true)
 }
 
+/// Restore the leading zero bytes a big-endian integer conversion drops
+fn left_pad(bytes: Vec<u8>, size: usize) -> Vec<u8> {
+    let mut padded = vec![0u8; size.saturating_sub(bytes.len())];
+    padded.extend_from_slice(&bytes);
+    padded
+}
+
 /// Reverse byte order (little-endian to big-endian conversion)
 fn reverse_bytes(data: &[u8]) -> Vec<u8> {
     data.iter().rev().copied().collect()
-- 
2.43.0


From 2c16c3e1d246cf7da35e8af0ba3faa570320bf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:01 +0000
Subject: [PATCH 06/21] fix: mark multi-sector files so that readers use their
 sector offset table

---
 mopaq/src/builder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index c2fe5d8..391e8bd 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -987,6 +987,10 @@ impl ArchiveBuilder {
             // Multi-sector file
             let sector_count = file_data.len().div_ceil(*sector_size);
 
+            // The sector offset table is always written, and readers look for one only in
+            // files carrying this flag; sectors that do not shrink are stored as they are
+            flags |= BlockEntry::FLAG_COMPRESS;
+
             // Set CRC flag early if enabled (needed for encryption key calculation)
             if self.generate_crcs {
                 flags |= BlockEntry::FLAG_SECTOR_CRC;
@@ -1031,7 +1035,6 @@ impl ArchiveBuilder {
                     let compressed = compress(sector_bytes, *compression)?;
                     if compressed != *sector_bytes {
                         // Compression was beneficial and the data now includes the method byte
-                        flags |= BlockEntry::FLAG_COMPRESS;
                         compressed
                     } else {
                         // Compression not beneficial, returned original data
-- 
2.43.0


From 4dbf35e656867bd700969424bcca3d7b756d7fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:01 +0000
Subject: [PATCH 07/21] fix: confirm an extended-table lookup with the stored
 name hash

---
 mopaq/src/archive.rs    |  7 ++++++-
 mopaq/src/tables/bet.rs | 11 +++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 7deb01e..6c3bd17 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -876,7 +876,12 @@ impl Archive {
         if let (Some(het), Some(bet)) = (&self.het_table, &self.bet_table) {
             // Check if tables have actual entries
             if het.header.max_file_count > 0 && bet.header.file_count > 0 {
-                if let Some(file_index) = het.find_file(filename) {
+                // A HET entry holds only a few bits of the name hash, so a hit is merely a
+                // candidate; the full hash in the BET table decides when it is stored there
+                let candidate = het
+                    .find_file(filename)
+                    .filter(|&file_index| bet.name_hash_matches(file_index, filename));
+                if let Some(file_index) = candidate {
                     if let Some(bet_info) = bet.get_file_info(file_index) {
                         return Ok(Some(FileInfo {
                             filename: filename.to_string(),
diff --git a/mopaq/src/tables/bet.rs b/mopaq/src/tables/bet.rs
index c15b61a..823adff 100644
--- a/mopaq/src/tables/bet.rs
+++ b/mopaq/src/tables/bet.rs
@@ -2,6 +2,7 @@
 
 use super::common::{decrypt_table_data, ReadLittleEndian};
 use crate::compression::decompress;
+use crate::crypto::jenkins_hash;
 use crate::{Error, Result};
 use std::io::{Read, Seek, SeekFrom};
 
@@ -220,6 +221,16 @@ impl BetTable {
         })
     }
 
+    /// Check a candidate index against the stored name hash
+    ///
+    /// Tables whose hashes are not full 64-bit values cannot rule a candidate out.
+    pub fn name_hash_matches(&self, index: u32, filename: &str) -> bool {
+        if self.header.bet_hash_size != 64 {
+            return true;
+        }
+        self.bet_hashes.get(index as usize) == Some(&jenkins_hash(filename))
+    }
+
     /// Get file information by index
     pub fn get_file_info(&self, index: u32) -> Option<BetFileInfo> {
         if index >= self.header.file_count {
-- 
2.43.0


From 17e38eca74698083bc14bc8c0fdfc4ad2d0da23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:36 +0000
Subject: [PATCH 08/21] fix: bit-packed table entries wider than 57 bits and at
 the end of the table

---
 mopaq/src/builder.rs    | 46 ++++++++++++++++++++---------------------
 mopaq/src/tables/bet.rs | 40 +++++++++++++++++++++--------------
 2 files changed, 47 insertions(+), 39 deletions(-)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index 391e8bd..6e855c8 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -1487,7 +1487,7 @@ impl ArchiveBuilder {
                     self.write_bit_entry(
                         &mut hash_table,
                         current_index,
-                        hash_entry,
+                        hash_entry as u128,
                         hash_entry_size + index_size,
                     )?;
 
@@ -1537,7 +1537,7 @@ impl ArchiveBuilder {
         &self,
         data: &mut [u8],
         index: usize,
-        value: u64,
+        value: u128,
         bit_size: u32,
     ) -> Result<()> {
         let bit_offset = index * bit_size as usize;
@@ -1561,20 +1561,22 @@ impl ArchiveBuilder {
             return Err(Error::invalid_format("Bit entry out of bounds"));
         }
 
-        // Read existing bits (limit to 8 bytes for u64)
-        let mut existing = 0u64;
-        let max_bytes = bytes_needed.min(8);
-        for i in 0..max_bytes {
-            if byte_offset + i < data.len() && i * 8 < 64 {
-                existing |= (data[byte_offset + i] as u64) << (i * 8);
-            }
+        // An entry and its leading bits have to fit in the value they are handled in
+        if bytes_needed > 16 {
+            return Err(Error::invalid_format("Bit entry too wide"));
+        }
+
+        // Read existing bits
+        let mut existing = 0u128;
+        for i in 0..bytes_needed {
+            existing |= (data[byte_offset + i] as u128) << (i * 8);
         }
 
         // Clear the bits we're about to write
-        let value_mask = if bit_size >= 64 {
-            u64::MAX
+        let value_mask = if bit_size >= 128 {
+            u128::MAX
         } else {
-            (1u64 << bit_size) - 1
+            (1u128 << bit_size) - 1
         };
         let mask = value_mask << bit_shift;
         existing &= !mask;
@@ -1582,11 +1584,9 @@ impl ArchiveBuilder {
         // Write the new value
         existing |= (value & value_mask) << bit_shift;
 
-        // Write back (limit to 8 bytes for u64)
-        for i in 0..max_bytes {
-            if byte_offset + i < data.len() && i * 8 < 64 {
-                data[byte_offset + i] = (existing >> (i * 8)) as u8;
-            }
+        // Write back
+        for i in 0..bytes_needed {
+            data[byte_offset + i] = (existing >> (i * 8)) as u8;
         }
 
         Ok(())
@@ -1753,11 +1753,11 @@ impl ArchiveBuilder {
                 let flag_index = flag_index_map.get(&entry.flags).unwrap();
 
                 // Pack entry data
-                let mut entry_bits = 0u64;
-                entry_bits |= (entry.file_pos as u64) << bit_index_file_pos;
-                entry_bits |= (entry.file_size as u64) << bit_index_file_size;
-                entry_bits |= (entry.compressed_size as u64) << bit_index_cmp_size;
-                entry_bits |= (*flag_index as u64) << bit_index_flag_index;
+                let mut entry_bits = 0u128;
+                entry_bits |= (entry.file_pos as u128) << bit_index_file_pos;
+                entry_bits |= (entry.file_size as u128) << bit_index_file_size;
+                entry_bits |= (entry.compressed_size as u128) << bit_index_cmp_size;
+                entry_bits |= (*flag_index as u128) << bit_index_flag_index;
 
                 // Write to file table
                 self.write_bit_entry(&mut file_table, i, entry_bits, table_entry_size)?;
@@ -1819,7 +1819,7 @@ impl ArchiveBuilder {
         // Write BET hashes (bit-packed)
         let mut hash_bytes = vec![0u8; bet_hash_array_size as usize];
         for (i, &hash) in bet_hashes.iter().enumerate() {
-            self.write_bit_entry(&mut hash_bytes, i, hash, bet_hash_size)?;
+            self.write_bit_entry(&mut hash_bytes, i, hash as u128, bet_hash_size)?;
         }
         result.extend_from_slice(&hash_bytes);
 
diff --git a/mopaq/src/tables/bet.rs b/mopaq/src/tables/bet.rs
index 823adff..8ecd738 100644
--- a/mopaq/src/tables/bet.rs
+++ b/mopaq/src/tables/bet.rs
@@ -278,36 +278,44 @@ impl BetTable {
     }
 
     /// Read a table entry from bit-packed data
-    fn read_table_entry(&self, index: usize) -> Option<u64> {
-        let bit_offset = index * self.header.table_entry_size as usize;
+    fn read_table_entry(&self, index: usize) -> Option<u128> {
+        let entry_size = self.header.table_entry_size as usize;
+        let bit_offset = index.checked_mul(entry_size)?;
         let byte_offset = bit_offset / 8;
         let bit_shift = bit_offset % 8;
 
-        if byte_offset + 8 > self.file_table.len() {
+        // The entry has to fit in the value it is read into
+        let bytes_needed = (bit_shift + entry_size).div_ceil(8);
+        if bytes_needed > 16 || byte_offset + bytes_needed > self.file_table.len() {
             return None;
         }
 
         // Read enough bytes to get the full entry
-        let mut value = 0u64;
-        let bytes_needed = (bit_shift + self.header.table_entry_size as usize)
-            .div_ceil(8)
-            .min(8);
-
+        let mut value = 0u128;
         for i in 0..bytes_needed {
-            if byte_offset + i < self.file_table.len() {
-                value |= (self.file_table[byte_offset + i] as u64) << (i * 8);
-            }
+            value |= (self.file_table[byte_offset + i] as u128) << (i * 8);
         }
 
         // Shift and mask to get the actual entry
-        let entry = (value >> bit_shift) & ((1u64 << self.header.table_entry_size) - 1);
-        Some(entry)
+        let mask = if entry_size >= 128 {
+            u128::MAX
+        } else {
+            (1u128 << entry_size) - 1
+        };
+        Some((value >> bit_shift) & mask)
     }
 
     /// Extract bits from a value
-    fn extract_bits(&self, value: u64, bit_offset: u32, bit_count: u32) -> u64 {
-        let mask = (1u64 << bit_count) - 1;
-        (value >> bit_offset) & mask
+    fn extract_bits(&self, value: u128, bit_offset: u32, bit_count: u32) -> u64 {
+        if bit_offset >= 128 {
+            return 0;
+        }
+        let mask = if bit_count >= 64 {
+            u64::MAX
+        } else {
+            (1u64 << bit_count) - 1
+        };
+        ((value >> bit_offset) as u64) & mask
     }
 }
 
-- 
2.43.0


From 2a97fa789b4ec28c269acd3fa07a590ca5d29f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:54 +0000
Subject: [PATCH 09/21] fix: read back compressed extended tables and table
 sizes that are not a multiple of four

---
 mopaq/src/builder.rs       | 16 ++++++----------
 mopaq/src/tables/common.rs | 20 +++++++++++++++++++-
 2 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index 6e855c8..b8b6b91 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -1630,11 +1630,9 @@ impl ArchiveBuilder {
                 (100 * (processed_data.len() - compressed.len()) / processed_data.len())
             );
 
-            // Prepend compression type byte
-            let mut compressed_with_type = Vec::with_capacity(1 + compressed.len());
-            compressed_with_type.push(self.table_compression);
-            compressed_with_type.extend_from_slice(&compressed);
-            processed_data = compressed_with_type;
+            // The compress function already prefixes the compression type byte, and
+            // returns the data unchanged when compressing it does not make it smaller
+            processed_data = compressed;
         }
 
         // Encrypt the data portion (after extended header)
@@ -1855,11 +1853,9 @@ impl ArchiveBuilder {
                 (100 * (processed_data.len() - compressed.len()) / processed_data.len())
             );
 
-            // Prepend compression type byte
-            let mut compressed_with_type = Vec::with_capacity(1 + compressed.len());
-            compressed_with_type.push(self.table_compression);
-            compressed_with_type.extend_from_slice(&compressed);
-            processed_data = compressed_with_type;
+            // The compress function already prefixes the compression type byte, and
+            // returns the data unchanged when compressing it does not make it smaller
+            processed_data = compressed;
         }
 
         // Encrypt the data portion (after extended header)
diff --git a/mopaq/src/tables/common.rs b/mopaq/src/tables/common.rs
index ffa5809..a8cf7b7 100644
--- a/mopaq/src/tables/common.rs
+++ b/mopaq/src/tables/common.rs
@@ -28,7 +28,11 @@ impl<R: Read> ReadLittleEndian for R {}
 
 /// Helper function to decrypt table data
 pub(crate) fn decrypt_table_data(data: &mut [u8], key: u32) {
-    use crate::crypto::decrypt_block;
+    use crate::crypto::{decrypt_block, decrypt_dword};
+
+    if key == 0 {
+        return;
+    }
 
     // Convert to u32 array for decryption
     let mut u32_buffer: Vec<u32> = data
@@ -43,4 +47,18 @@ pub(crate) fn decrypt_table_data(data: &mut [u8], key: u32) {
         let bytes = val.to_le_bytes();
         data[i * 4..(i + 1) * 4].copy_from_slice(&bytes);
     }
+
+    // The last one to three bytes are encrypted as a zero-padded word of their own
+    let chunks = data.len() / 4;
+    let remainder = &mut data[chunks * 4..];
+    if !remainder.is_empty() {
+        let mut last_dword = [0u8; 4];
+        last_dword[..remainder.len()].copy_from_slice(remainder);
+
+        let decrypted = decrypt_dword(
+            u32::from_le_bytes(last_dword),
+            key.wrapping_add(chunks as u32),
+        );
+        remainder.copy_from_slice(&decrypted.to_le_bytes()[..remainder.len()]);
+    }
 }
-- 
2.43.0


From 068099a84c7df05943db2d6ea0c197efe075a4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:49 +0000
Subject: [PATCH 10/21] fix: sizes and positions taken from a damaged archive
 are errors, not panics

---
 mopaq/src/archive.rs          | 58 +++++++++++++++++++----------------
 mopaq/src/crypto/signature.rs |  6 ++--
 mopaq/src/header.rs           |  2 +-
 mopaq/src/lib.rs              |  3 +-
 mopaq/src/tables/bet.rs       | 19 ++++++------
 mopaq/src/tables/block.rs     |  9 +++---
 mopaq/src/tables/common.rs    | 10 ++++++
 mopaq/src/tables/hash.rs      |  7 ++---
 mopaq/src/tables/het.rs       | 18 +++++++----
 mopaq/src/tables/mod.rs       |  3 +-
 10 files changed, 78 insertions(+), 57 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 6c3bd17..f748359 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -14,7 +14,7 @@ use crate::{
     crypto::{decrypt_block, decrypt_dword, hash_string, hash_type},
     header::{self, MpqHeader, UserDataHeader},
     special_files,
-    tables::{BetTable, BlockTable, HashTable, HetTable, HiBlockTable},
+    tables::{read_bytes, BetTable, BlockTable, HashTable, HetTable, HiBlockTable},
     Error, Result,
 };
 use std::fs::File;
@@ -373,7 +373,7 @@ impl Archive {
 
                         match HetTable::read(
                             &mut self.reader,
-                            self.archive_offset + het_pos,
+                            self.archive_offset.saturating_add(het_pos),
                             het_size,
                             key,
                         ) {
@@ -429,7 +429,7 @@ impl Archive {
 
                         match BetTable::read(
                             &mut self.reader,
-                            self.archive_offset + bet_pos,
+                            self.archive_offset.saturating_add(bet_pos),
                             bet_size,
                             key,
                         ) {
@@ -482,7 +482,7 @@ impl Archive {
         // Load hi-block table if present (v2+)
         if let Some(hi_block_pos) = self.header.hi_block_table_pos {
             if hi_block_pos != 0 {
-                let hi_block_offset = self.archive_offset + hi_block_pos;
+                let hi_block_offset = self.archive_offset.saturating_add(hi_block_pos);
                 self.hi_block_table = Some(HiBlockTable::read(
                     &mut self.reader,
                     hi_block_offset,
@@ -540,9 +540,8 @@ impl Archive {
 
                 // Read raw table data
                 self.reader
-                    .seek(SeekFrom::Start(self.archive_offset + offset))?;
-                let mut table_data = vec![0u8; size as usize];
-                self.reader.read_exact(&mut table_data)?;
+                    .seek(SeekFrom::Start(self.archive_offset.saturating_add(offset)))?;
+                let table_data = read_bytes(&mut self.reader, size)?;
 
                 // Calculate MD5
                 let mut hasher = Md5::new();
@@ -887,7 +886,7 @@ impl Archive {
                             filename: filename.to_string(),
                             hash_index: 0, // Not applicable for HET/BET
                             block_index: file_index as usize,
-                            file_pos: self.archive_offset + bet_info.file_pos,
+                            file_pos: self.archive_offset.saturating_add(bet_info.file_pos),
                             compressed_size: bet_info.compressed_size,
                             file_size: bet_info.file_size,
                             flags: bet_info.flags,
@@ -1238,6 +1237,11 @@ impl Archive {
                 (block_entry.file_size, block_entry.file_size as u64)
             };
 
+        // Files cannot be larger than their 32-bit size field; the extended table can claim so
+        if actual_file_size > u32::MAX as u64 {
+            return Err(Error::invalid_format("File size out of range"));
+        }
+
         // Calculate encryption key if needed
         let key = if file_info.is_encrypted() {
             let base_key = hash_string(name, hash_type::FILE_KEY);
@@ -1257,8 +1261,7 @@ impl Archive {
 
         if file_info.is_single_unit() || !file_info.is_compressed() {
             // Single unit or uncompressed file - read directly
-            let mut data = vec![0u8; file_info.compressed_size as usize];
-            self.reader.read_exact(&mut data)?;
+            let mut data = read_bytes(&mut self.reader, file_info.compressed_size)?;
 
             // Decrypt if needed
             if file_info.is_encrypted() {
@@ -1286,8 +1289,9 @@ impl Archive {
                 // CRC is calculated on the decompressed data
                 let data_to_check = if file_info.is_compressed() {
                     // We need to decompress first to check CRC
-                    let compression_type = data[0];
-                    let compressed_data = &data[1..];
+                    let (&compression_type, compressed_data) = data
+                        .split_first()
+                        .ok_or_else(|| Error::compression("Empty compressed data"))?;
                     compression::decompress(
                         compressed_data,
                         compression_type,
@@ -1354,8 +1358,7 @@ impl Archive {
         // Read sector offset table
         self.reader.seek(SeekFrom::Start(file_info.file_pos))?;
         let offset_table_size = (sector_count + 1) * 4;
-        let mut offset_data = vec![0u8; offset_table_size];
-        self.reader.read_exact(&mut offset_data)?;
+        let mut offset_data = read_bytes(&mut self.reader, offset_table_size as u64)?;
 
         // Decrypt sector offset table if needed
         if file_info.is_encrypted() {
@@ -1387,8 +1390,7 @@ impl Archive {
 
             if first_data_offset >= expected_crc_table_start + expected_crc_table_size {
                 // CRC table follows the offset table
-                let mut crc_data = vec![0u8; expected_crc_table_size];
-                self.reader.read_exact(&mut crc_data)?;
+                let crc_data = read_bytes(&mut self.reader, expected_crc_table_size as u64)?;
 
                 // CRC table is not encrypted
                 let mut crcs = Vec::with_capacity(sector_count);
@@ -1416,7 +1418,7 @@ impl Archive {
         }
 
         // Read and decompress each sector
-        let mut decompressed_data = Vec::with_capacity(file_info.file_size as usize);
+        let mut decompressed_data = Vec::new();
 
         for i in 0..sector_count {
             let sector_start = sector_offsets[i] as u64;
@@ -1432,16 +1434,16 @@ impl Archive {
             let sector_size_compressed = (sector_end - sector_start) as usize;
 
             // Calculate expected decompressed size for this sector
-            let remaining = file_info.file_size as usize - decompressed_data.len();
+            let remaining = (file_info.file_size as usize).saturating_sub(decompressed_data.len());
             let expected_size = remaining.min(sector_size);
 
             // Seek to sector data - offsets are absolute from file position
-            self.reader
-                .seek(SeekFrom::Start(file_info.file_pos + sector_start))?;
+            self.reader.seek(SeekFrom::Start(
+                file_info.file_pos.saturating_add(sector_start),
+            ))?;
 
             // Read sector data
-            let mut sector_data = vec![0u8; sector_size_compressed];
-            self.reader.read_exact(&mut sector_data)?;
+            let mut sector_data = read_bytes(&mut self.reader, sector_size_compressed as u64)?;
 
             if i == 0 {
                 log::debug!(
@@ -1601,11 +1603,11 @@ impl Archive {
                 bet_pos - het_pos
             } else {
                 // Calculate from hash table position
-                self.header.get_hash_table_pos() - het_pos
+                self.header.get_hash_table_pos().saturating_sub(het_pos)
             }
         } else {
             // Calculate from hash table position
-            self.header.get_hash_table_pos() - het_pos
+            self.header.get_hash_table_pos().saturating_sub(het_pos)
         };
 
         log::debug!(
@@ -1623,7 +1625,7 @@ impl Archive {
         log::debug!("Determining BET table size from file structure");
 
         // Calculate the actual size based on what comes after BET table (usually hash table)
-        let actual_size = self.header.get_hash_table_pos() - bet_pos;
+        let actual_size = self.header.get_hash_table_pos().saturating_sub(bet_pos);
 
         log::debug!(
             "BET table position: 0x{:X}, calculated size: {} bytes",
@@ -1706,10 +1708,12 @@ impl Archive {
         let file_size = self.reader.get_ref().metadata()?.len();
 
         // Calculate expected archive end position
-        let archive_end = self.archive_offset + self.header.get_archive_size();
+        let archive_end = self
+            .archive_offset
+            .saturating_add(self.header.get_archive_size());
 
         // Check if there's enough space for a strong signature after the archive
-        if file_size < archive_end + STRONG_SIGNATURE_SIZE as u64 {
+        if file_size < archive_end.saturating_add(STRONG_SIGNATURE_SIZE as u64) {
             log::debug!("File too small for strong signature");
             return Ok(SignatureStatus::None);
         }
diff --git a/mopaq/src/crypto/signature.rs b/mopaq/src/crypto/signature.rs
index 3ce69bc..e9fce76 100644
--- a/mopaq/src/crypto/signature.rs
+++ b/mopaq/src/crypto/signature.rs
@@ -71,9 +71,9 @@ impl SignatureInfo {
         Self {
             begin_mpq_data: archive_start,
             begin_exclude: signature_file_pos,
-            end_exclude: signature_file_pos + signature_file_size,
-            end_mpq_data: archive_start + archive_size,
-            end_of_file: archive_start + archive_size, // For weak signatures, no data after archive
+            end_exclude: signature_file_pos.saturating_add(signature_file_size),
+            end_mpq_data: archive_start.saturating_add(archive_size),
+            end_of_file: archive_start.saturating_add(archive_size), // For weak signatures, no data after archive
             signature: signature_data,
             signature_size,
             signature_types: 1, // SIGNATURE_TYPE_WEAK = 1
diff --git a/mopaq/src/header.rs b/mopaq/src/header.rs
index c4dac24..d783100 100644
--- a/mopaq/src/header.rs
+++ b/mopaq/src/header.rs
@@ -271,7 +271,7 @@ impl MpqHeader {
 
     /// Calculate the sector size from block size
     pub fn sector_size(&self) -> usize {
-        512 << self.block_size
+        crate::calculate_sector_size(self.block_size)
     }
 }
 
diff --git a/mopaq/src/lib.rs b/mopaq/src/lib.rs
index 4ae9b8c..b36d274 100644
--- a/mopaq/src/lib.rs
+++ b/mopaq/src/lib.rs
@@ -97,7 +97,8 @@ pub mod signatures {
 /// Block size calculation
 #[inline]
 pub fn calculate_sector_size(block_size_shift: u16) -> usize {
-    512 << block_size_shift
+    // Larger shifts do not occur in practice and would overflow
+    512 << block_size_shift.min(22)
 }
 
 /// Check if a value is a power of two
diff --git a/mopaq/src/tables/bet.rs b/mopaq/src/tables/bet.rs
index 8ecd738..47186f4 100644
--- a/mopaq/src/tables/bet.rs
+++ b/mopaq/src/tables/bet.rs
@@ -1,6 +1,6 @@
 //! BET (Block Extended Table) implementation for MPQ v3+ archives
 
-use super::common::{decrypt_table_data, ReadLittleEndian};
+use super::common::{decrypt_table_data, read_bytes, ReadLittleEndian};
 use crate::compression::decompress;
 use crate::crypto::jenkins_hash;
 use crate::{Error, Result};
@@ -77,8 +77,7 @@ impl BetTable {
         reader.seek(SeekFrom::Start(offset))?;
 
         // Read the compressed/encrypted data
-        let mut data = vec![0u8; compressed_size as usize];
-        reader.read_exact(&mut data)?;
+        let mut data = read_bytes(reader, compressed_size)?;
 
         // Check if we have at least the extended header (12 bytes)
         if data.len() < 12 {
@@ -155,7 +154,7 @@ impl BetTable {
         };
 
         // Parse header - skip the extended header (first 12 bytes)
-        let header = Self::parse_header(&table_data[12..])?;
+        let header = Self::parse_header(table_data.get(12..).unwrap_or_default())?;
 
         // No need to validate signature/version - they're in the extended header
         // which we already validated above
@@ -165,20 +164,22 @@ impl BetTable {
         let mut cursor = std::io::Cursor::new(&table_data[data_start..]);
 
         // Read file flags
-        let mut file_flags = Vec::with_capacity(header.flag_count as usize);
+        let mut file_flags = Vec::new();
         for _ in 0..header.flag_count {
             file_flags.push(cursor.read_u32_le()?);
         }
 
         // Calculate sizes
+        if header.file_count > 0 && header.table_entry_size == 0 {
+            return Err(Error::invalid_format("BET table entries have no size"));
+        }
         let file_table_size =
-            (header.file_count as usize * header.table_entry_size as usize).div_ceil(8);
-        let mut file_table = vec![0u8; file_table_size];
-        cursor.read_exact(&mut file_table)?;
+            (header.file_count as u64 * header.table_entry_size as u64).div_ceil(8);
+        let file_table = read_bytes(&mut cursor, file_table_size)?;
 
         // Read BET hashes
         let hash_count = header.bet_hash_array_size / 8; // Each hash is 8 bytes
-        let mut bet_hashes = Vec::with_capacity(hash_count as usize);
+        let mut bet_hashes = Vec::new();
         for _ in 0..hash_count {
             bet_hashes.push(cursor.read_u64_le()?);
         }
diff --git a/mopaq/src/tables/block.rs b/mopaq/src/tables/block.rs
index 4cf8183..c5dae7b 100644
--- a/mopaq/src/tables/block.rs
+++ b/mopaq/src/tables/block.rs
@@ -1,6 +1,6 @@
 //! Block table implementation for MPQ archives
 
-use super::common::ReadLittleEndian;
+use super::common::{read_bytes, ReadLittleEndian};
 use crate::crypto::{decrypt_block, hash_string, hash_type};
 use crate::{Error, Result};
 use std::io::{Read, Seek, SeekFrom};
@@ -113,9 +113,8 @@ impl BlockTable {
         reader.seek(SeekFrom::Start(offset))?;
 
         // Read raw data
-        let byte_size = size as usize * 16; // 16 bytes per entry
-        let mut raw_data = vec![0u8; byte_size];
-        reader.read_exact(&mut raw_data)?;
+        let byte_size = size as u64 * 16; // 16 bytes per entry
+        let mut raw_data = read_bytes(reader, byte_size)?;
 
         // Decrypt the table - SAFE VERSION
         let key = hash_string("(block table)", hash_type::FILE_KEY);
@@ -207,7 +206,7 @@ impl HiBlockTable {
     pub fn read<R: Read + Seek>(reader: &mut R, offset: u64, size: u32) -> Result<Self> {
         reader.seek(SeekFrom::Start(offset))?;
 
-        let mut entries = Vec::with_capacity(size as usize);
+        let mut entries = Vec::new();
         for _ in 0..size {
             entries.push(reader.read_u16_le()?);
         }
diff --git a/mopaq/src/tables/common.rs b/mopaq/src/tables/common.rs
index a8cf7b7..e579581 100644
--- a/mopaq/src/tables/common.rs
+++ b/mopaq/src/tables/common.rs
@@ -3,6 +3,16 @@
 use crate::Result;
 use std::io::Read;
 
+/// Read exactly `len` bytes without allocating more than the source can deliver
+pub(crate) fn read_bytes<R: Read>(reader: &mut R, len: u64) -> Result<Vec<u8>> {
+    let mut data = Vec::new();
+    reader.take(len).read_to_end(&mut data)?;
+    if (data.len() as u64) < len {
+        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+    }
+    Ok(data)
+}
+
 /// Helper trait for reading little-endian integers
 pub(crate) trait ReadLittleEndian: Read {
     fn read_u16_le(&mut self) -> Result<u16> {
diff --git a/mopaq/src/tables/hash.rs b/mopaq/src/tables/hash.rs
index 43800a8..b9847e4 100644
--- a/mopaq/src/tables/hash.rs
+++ b/mopaq/src/tables/hash.rs
@@ -1,6 +1,6 @@
 //! Hash table implementation for MPQ archives
 
-use super::common::ReadLittleEndian;
+use super::common::{read_bytes, ReadLittleEndian};
 use crate::crypto::{decrypt_block, hash_string, hash_type};
 use crate::{Error, Result};
 use std::io::{Read, Seek, SeekFrom};
@@ -99,9 +99,8 @@ impl HashTable {
         reader.seek(SeekFrom::Start(offset))?;
 
         // Read raw data
-        let byte_size = size as usize * 16; // 16 bytes per entry
-        let mut raw_data = vec![0u8; byte_size];
-        reader.read_exact(&mut raw_data)?;
+        let byte_size = size as u64 * 16; // 16 bytes per entry
+        let mut raw_data = read_bytes(reader, byte_size)?;
 
         // Decrypt the table - SAFE VERSION
         let key = hash_string("(hash table)", hash_type::FILE_KEY);
diff --git a/mopaq/src/tables/het.rs b/mopaq/src/tables/het.rs
index 731a0dc..04836fe 100644
--- a/mopaq/src/tables/het.rs
+++ b/mopaq/src/tables/het.rs
@@ -1,6 +1,6 @@
 //! HET (Hash Extended Table) implementation for MPQ v3+ archives
 
-use super::common::{decrypt_table_data, ReadLittleEndian};
+use super::common::{decrypt_table_data, read_bytes, ReadLittleEndian};
 use crate::compression::decompress;
 use crate::crypto::jenkins_hash;
 use crate::{Error, Result};
@@ -66,8 +66,7 @@ impl HetTable {
         reader.seek(SeekFrom::Start(offset))?;
 
         // Read the compressed/encrypted data
-        let mut data = vec![0u8; compressed_size as usize];
-        reader.read_exact(&mut data)?;
+        let mut data = read_bytes(reader, compressed_size)?;
 
         // Check if we have at least the extended header (12 bytes)
         if data.len() < 12 {
@@ -144,7 +143,7 @@ impl HetTable {
         };
 
         // Parse header - skip the extended header (first 12 bytes)
-        let header = Self::parse_header(&table_data[12..])?;
+        let header = Self::parse_header(table_data.get(12..).unwrap_or_default())?;
 
         // Copy values from packed struct to avoid alignment issues
         let table_size = header.table_size;
@@ -227,6 +226,12 @@ impl HetTable {
 
     /// Find a file in the HET table
     pub fn find_file(&self, filename: &str) -> Option<u32> {
+        // An empty hash table or entries without bits cannot hold a file, and entries
+        // wider than the hash leave no room for its index
+        if self.header.hash_table_size == 0 || !(1..64).contains(&{ self.header.hash_entry_size }) {
+            return None;
+        }
+
         let hash = jenkins_hash(filename);
         let hash_mask = if self.header.hash_entry_size >= 64 {
             u64::MAX
@@ -240,8 +245,9 @@ impl HetTable {
         };
 
         // Calculate hash table index
-        let hash_table_entries = self.header.hash_table_size * 8 / self.header.hash_entry_size;
-        let hash_index = (hash & (hash_table_entries as u64 - 1)) as usize;
+        let hash_table_entries =
+            self.header.hash_table_size as u64 * 8 / self.header.hash_entry_size as u64;
+        let hash_index = (hash & hash_table_entries.saturating_sub(1)) as usize;
 
         // Read hash entry
         let hash_entry = self.read_hash_entry(hash_index)?;
diff --git a/mopaq/src/tables/mod.rs b/mopaq/src/tables/mod.rs
index ac8ae00..5a8ee8b 100644
--- a/mopaq/src/tables/mod.rs
+++ b/mopaq/src/tables/mod.rs
@@ -12,4 +12,5 @@ pub use block::{BlockEntry, BlockTable, HiBlockTable};
 pub use hash::{HashEntry, HashTable};
 pub use het::{HetHeader, HetTable};
 
-// Re-export common utilities if needed
+// Re-export common utilities
+pub(crate) use common::read_bytes;
-- 
2.43.0


From 5e2db98b77694d08195da935ff00e19c6c9fac22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:12 +0000
Subject: [PATCH 11/21] fix: extraction must not follow archive names out of
 the output directory

---
 storm-cli/src/commands/file.rs | 38 +++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/storm-cli/src/commands/file.rs b/storm-cli/src/commands/file.rs
index dee6577..4c6a358 100644
--- a/storm-cli/src/commands/file.rs
+++ b/storm-cli/src/commands/file.rs
@@ -6,7 +6,7 @@ use glob::Pattern;
 use mopaq::Archive;
 use regex::Regex;
 use std::fs;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 
 use crate::output::{
     print_file_info, print_file_list, print_file_list_verbose, print_file_list_with_hashes,
@@ -71,6 +71,27 @@ pub fn list(
     Ok(())
 }
 
+/// Relative path an archive member is extracted to
+///
+/// Names come from the archive, so roots, drive prefixes and parent components are dropped:
+/// they could lead out of the output directory.
+fn member_path(filename: &str, preserve_path: bool) -> Option<PathBuf> {
+    let mut parts = Path::new(filename)
+        .components()
+        .filter_map(|part| match part {
+            Component::Normal(name) => Some(name),
+            _ => None,
+        });
+
+    let path: PathBuf = if preserve_path {
+        parts.collect()
+    } else {
+        PathBuf::from(parts.next_back()?)
+    };
+
+    (!path.as_os_str().is_empty()).then_some(path)
+}
+
 /// Extract files from an archive
 pub fn extract(
     archive_path: &str,
@@ -90,10 +111,9 @@ pub fn extract(
 
         let output_path = if let Some(out) = output {
             PathBuf::from(out)
-        } else if preserve_path {
-            PathBuf::from(filename)
         } else {
-            PathBuf::from(Path::new(filename).file_name().unwrap())
+            member_path(filename, preserve_path)
+                .with_context(|| format!("No usable file name in: {}", filename))?
         };
 
         // Create parent directories if needed
@@ -121,10 +141,12 @@ pub fn extract(
                 }
             };
 
-            let output_path = if preserve_path {
-                PathBuf::from(output_dir).join(filename)
-            } else {
-                PathBuf::from(output_dir).join(Path::new(filename).file_name().unwrap())
+            let output_path = match member_path(filename, preserve_path) {
+                Some(path) => PathBuf::from(output_dir).join(path),
+                None => {
+                    eprintln!("Failed to extract {}: no usable file name", filename);
+                    continue;
+                }
             };
 
             // Create parent directories if needed
-- 
2.43.0


From 5e99084aba5e547e2a4157bfd6e5a581de15e709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:28 +0000
Subject: [PATCH 12/21] fix: file pointer moves before the start are refused
 and 64-bit offsets combined correctly

---
 storm-ffi/src/lib.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index 8f59f25..ab2e4ff 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -525,26 +525,32 @@ pub unsafe extern "C" fn SFileSetFilePointer(
         return 0xFFFFFFFF;
     };
 
-    // Combine high and low parts into 64-bit offset
-    let mut offset = file_pos as i64;
-    if !file_pos_high.is_null() {
-        let high = *file_pos_high as i64;
-        offset |= high << 32;
-    }
+    // Combine high and low parts into 64-bit offset. The low part carries the sign only
+    // when there is no high part.
+    let offset = if file_pos_high.is_null() {
+        file_pos as i64
+    } else {
+        ((*file_pos_high as i64) << 32) | (file_pos as u32 as i64)
+    };
 
     // Calculate new position
-    let new_pos = match move_method {
-        0 => offset as usize,                                   // FILE_BEGIN
-        1 => (file_handle.position as i64 + offset) as usize,   // FILE_CURRENT
-        2 => (file_handle.data.len() as i64 + offset) as usize, // FILE_END
+    let base = match move_method {
+        0 => 0,                             // FILE_BEGIN
+        1 => file_handle.position as i64,   // FILE_CURRENT
+        2 => file_handle.data.len() as i64, // FILE_END
         _ => {
             set_last_error(ERROR_INVALID_PARAMETER);
             return 0xFFFFFFFF;
         }
     };
+    let new_pos = base.saturating_add(offset);
+    if new_pos < 0 {
+        set_last_error(ERROR_INVALID_PARAMETER);
+        return 0xFFFFFFFF;
+    }
 
     // Clamp to file size
-    file_handle.position = new_pos.min(file_handle.data.len());
+    file_handle.position = (new_pos as u64).min(file_handle.data.len() as u64) as usize;
 
     // Return new position
     let pos = file_handle.position as u64;
-- 
2.43.0


From d10cbb2dd8722c75cb8e6e046f37fdadee7ee405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:33 +0000
Subject: [PATCH 13/21] fix: SFileGetFileInfo may be given an unaligned buffer

---
 storm-ffi/src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index ab2e4ff..b9c1a7f 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -647,7 +647,7 @@ unsafe fn get_file_info(
                 *size_needed = needed;
             }
             if buffer_size >= needed {
-                *(buffer as *mut u64) = file_handle.size;
+                (buffer as *mut u64).write_unaligned(file_handle.size);
                 set_last_error(ERROR_SUCCESS);
                 true
             } else {
@@ -661,7 +661,7 @@ unsafe fn get_file_info(
                 *size_needed = needed;
             }
             if buffer_size >= needed {
-                *(buffer as *mut u64) = file_handle.position as u64;
+                (buffer as *mut u64).write_unaligned(file_handle.position as u64);
                 set_last_error(ERROR_SUCCESS);
                 true
             } else {
@@ -693,7 +693,7 @@ unsafe fn get_archive_info(
                 *size_needed = needed;
             }
             if buffer_size >= needed {
-                *(buffer as *mut u64) = header.get_archive_size();
+                (buffer as *mut u64).write_unaligned(header.get_archive_size());
                 set_last_error(ERROR_SUCCESS);
                 true
             } else {
@@ -707,7 +707,7 @@ unsafe fn get_archive_info(
                 *size_needed = needed;
             }
             if buffer_size >= needed {
-                *(buffer as *mut u32) = header.hash_table_size;
+                (buffer as *mut u32).write_unaligned(header.hash_table_size);
                 set_last_error(ERROR_SUCCESS);
                 true
             } else {
@@ -721,7 +721,7 @@ unsafe fn get_archive_info(
                 *size_needed = needed;
             }
             if buffer_size >= needed {
-                *(buffer as *mut u32) = header.block_table_size;
+                (buffer as *mut u32).write_unaligned(header.block_table_size);
                 set_last_error(ERROR_SUCCESS);
                 true
             } else {
@@ -735,7 +735,7 @@ unsafe fn get_archive_info(
                 *size_needed = needed;
             }
             if buffer_size >= needed {
-                *(buffer as *mut u32) = header.sector_size() as u32;
+                (buffer as *mut u32).write_unaligned(header.sector_size() as u32);
                 set_last_error(ERROR_SUCCESS);
                 true
             } else {
-- 
2.43.0


From 54a172531e9aeab3b65222a24113e1222bc12946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:49 +0000
Subject: [PATCH 14/21] fix: archive lock must not be held while enumerating or
 verifying files

---
 storm-ffi/src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index b9c1a7f..0c621e8 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -845,7 +845,12 @@ pub unsafe extern "C" fn SFileEnumFiles(
     };
 
     // List files
-    match archive_handle.archive.list() {
+    let entries = archive_handle.archive.list();
+
+    // The callback may call back into this API
+    drop(archives);
+
+    match entries {
         Ok(entries) => {
             for entry in entries {
                 // Simple pattern matching (just * for now)
@@ -1233,6 +1238,9 @@ pub unsafe extern "C" fn SFileVerifyArchive(archive: HANDLE, flags: u32) -> bool
             }
         };
 
+        // SFileVerifyFile takes the lock itself
+        drop(archives);
+
         // Verify each file individually
         for file_entry in file_list {
             // Skip special files and directories
-- 
2.43.0


From e3532dc486193fd45db926990b819d3644fefd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:38 +0000
Subject: [PATCH 15/21] verification hooks behind cfg(vp_hooks), off in every
 build

---
 mopaq/src/archive.rs          |  8 ++++++++
 mopaq/src/builder.rs          | 28 ++++++++++++++++++++++++++++
 mopaq/src/compression/mod.rs  | 29 +++++++++++++++++++++++++++++
 mopaq/src/crypto/mod.rs       |  4 ++++
 mopaq/src/crypto/signature.rs | 13 +++++++++++++
 mopaq/src/lib.rs              |  2 ++
 6 files changed, 84 insertions(+)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index f748359..ebec22d 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -1932,6 +1932,14 @@ impl FileEntry {
     }
 }
 
+#[cfg(vp_hooks = "archive")]
+#[allow(missing_docs)]
+pub mod vp_hooks {
+    pub fn decrypt_file_data(data: &mut [u8], key: u32) {
+        super::decrypt_file_data(data, key)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index b8b6b91..d946897 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -1878,6 +1878,34 @@ impl ArchiveBuilder {
     }
 }
 
+#[cfg(vp_hooks = "builder")]
+#[allow(missing_docs)]
+impl ArchiveBuilder {
+    /// Write the archive to any stream instead of a file
+    pub fn vp_write_to<W: Write + Seek + Read>(mut self, writer: &mut W) -> Result<()> {
+        self.prepare_listfile()?;
+        self.write_archive(writer)
+    }
+    pub fn vp_write_bit_entry(
+        &self,
+        data: &mut [u8],
+        index: usize,
+        value: u128,
+        bit_size: u32,
+    ) -> Result<()> {
+        self.write_bit_entry(data, index, value, bit_size)
+    }
+    pub fn vp_add_to_hash_table(
+        &self,
+        hash_table: &mut HashTable,
+        filename: &str,
+        block_index: u32,
+        locale: u16,
+    ) -> Result<()> {
+        self.add_to_hash_table(hash_table, filename, block_index, locale)
+    }
+}
+
 impl Default for ArchiveBuilder {
     fn default() -> Self {
         Self::new()
diff --git a/mopaq/src/compression/mod.rs b/mopaq/src/compression/mod.rs
index 8790b26..af84d0c 100644
--- a/mopaq/src/compression/mod.rs
+++ b/mopaq/src/compression/mod.rs
@@ -9,3 +9,32 @@ mod methods;
 pub use compress::compress;
 pub use decompress::decompress;
 pub use methods::{flags, CompressionMethod};
+
+/// Verification hooks: the codecs behind [`compress`] and [`decompress`]
+#[cfg(vp_hooks = "compression")]
+#[allow(missing_docs)]
+pub mod vp_hooks {
+    use super::algorithms::{adpcm, sparse};
+    use crate::Result;
+
+    pub fn sparse_compress(data: &[u8]) -> Result<Vec<u8>> {
+        sparse::compress(data)
+    }
+    pub fn sparse_decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
+        sparse::decompress(data, expected_size)
+    }
+    pub fn adpcm_compress(data: &[u8], level: u8, stereo: bool) -> Result<Vec<u8>> {
+        if stereo {
+            adpcm::compress_stereo(data, level)
+        } else {
+            adpcm::compress_mono(data, level)
+        }
+    }
+    pub fn adpcm_decompress(data: &[u8], size: usize, stereo: bool) -> Result<Vec<u8>> {
+        if stereo {
+            adpcm::decompress_stereo(data, size)
+        } else {
+            adpcm::decompress_mono(data, size)
+        }
+    }
+}
diff --git a/mopaq/src/crypto/mod.rs b/mopaq/src/crypto/mod.rs
index e742425..e2ee40c 100644
--- a/mopaq/src/crypto/mod.rs
+++ b/mopaq/src/crypto/mod.rs
@@ -23,3 +23,7 @@ pub use types::hash_type;
 pub use keys::ENCRYPTION_TABLE;
 
 // Internal-only exports
+
+/// Verification hooks: checks of the decoded signature blocks
+#[cfg(vp_hooks = "signature")]
+pub use signature::vp_hooks;
diff --git a/mopaq/src/crypto/signature.rs b/mopaq/src/crypto/signature.rs
index e9fce76..5a6a5fe 100644
--- a/mopaq/src/crypto/signature.rs
+++ b/mopaq/src/crypto/signature.rs
@@ -477,6 +477,19 @@ fn reverse_bytes(data: &[u8]) -> Vec<u8> {
     data.iter().rev().copied().collect()
 }
 
+#[cfg(vp_hooks = "signature")]
+#[allow(missing_docs)]
+pub mod vp_hooks {
+    use crate::Result;
+
+    pub fn weak_block(decrypted: &[u8], expected_hash: &[u8]) -> Result<bool> {
+        super::verify_pkcs1_v15_md5(decrypted, expected_hash)
+    }
+    pub fn strong_block(decrypted: &[u8], expected_hash: &[u8]) -> Result<bool> {
+        super::verify_mpq_strong_signature_padding(decrypted, expected_hash)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/mopaq/src/lib.rs b/mopaq/src/lib.rs
index b36d274..0b921b3 100644
--- a/mopaq/src/lib.rs
+++ b/mopaq/src/lib.rs
@@ -44,6 +44,8 @@
     rust_2018_idioms,
     unreachable_pub
 )]
+// `vp_hooks` is set only by the verification machinery (RUSTFLAGS), never by a build
+#![allow(unexpected_cfgs)]
 
 pub mod archive;
 pub mod builder;
-- 
2.43.0


From 090d9525f8d23cd3c0913611860a6c6f3c3c4cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:28 +0000
Subject: [PATCH 16/21] fix: combined compression must apply what decompression
 undoes (both ADPCM flags, Implode)

---
 mopaq/src/compression/compress.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/mopaq/src/compression/compress.rs b/mopaq/src/compression/compress.rs
index 1ff05fa..2555914 100644
--- a/mopaq/src/compression/compress.rs
+++ b/mopaq/src/compression/compress.rs
@@ -54,6 +54,7 @@ fn compress_multiple(data: &[u8], flags: u8) -> Result<Vec<u8>> {
     let has_adpcm_stereo = (flags & flags::ADPCM_STEREO) != 0;
     let has_huffman = (flags & flags::HUFFMAN) != 0;
     let has_zlib = (flags & flags::ZLIB) != 0;
+    let has_implode = (flags & flags::IMPLODE) != 0;
     let has_pkware = (flags & flags::PKWARE) != 0;
     let has_bzip2 = (flags & flags::BZIP2) != 0;
     let has_sparse = (flags & flags::SPARSE) != 0;
@@ -61,18 +62,25 @@ fn compress_multiple(data: &[u8], flags: u8) -> Result<Vec<u8>> {
     // We apply compressions in order: ADPCM, then others
     let mut current_data = data.to_vec();
 
-    // Apply ADPCM first if requested
-    if has_adpcm_mono {
-        current_data = algorithms::adpcm::compress_mono(&current_data, 5)?;
-    } else if has_adpcm_stereo {
+    // Apply ADPCM first if requested (both flags mean stereo, as in decompression)
+    if has_adpcm_stereo {
         current_data = algorithms::adpcm::compress_stereo(&current_data, 5)?;
+    } else if has_adpcm_mono {
+        current_data = algorithms::adpcm::compress_mono(&current_data, 5)?;
     }
 
     // Count remaining compressions
-    let remaining_count = [has_huffman, has_zlib, has_pkware, has_bzip2, has_sparse]
-        .iter()
-        .filter(|&&x| x)
-        .count();
+    let remaining_count = [
+        has_huffman,
+        has_zlib,
+        has_implode,
+        has_pkware,
+        has_bzip2,
+        has_sparse,
+    ]
+    .iter()
+    .filter(|&&x| x)
+    .count();
 
     if remaining_count == 0 {
         // Only ADPCM was requested, but it was flagged as multiple
@@ -92,6 +100,8 @@ fn compress_multiple(data: &[u8], flags: u8) -> Result<Vec<u8>> {
         current_data = algorithms::huffman::compress(&current_data)?;
     } else if has_zlib {
         current_data = algorithms::zlib::compress(&current_data)?;
+    } else if has_implode {
+        current_data = algorithms::implode::compress(&current_data)?;
     } else if has_bzip2 {
         current_data = algorithms::bzip2::compress(&current_data)?;
     } else if has_sparse {
-- 
2.43.0


From 265eda5e692920356bae9a2aeb116648c0b20d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:27 +0000
Subject: [PATCH 17/21] fix: PKWare inputs over 4 KiB are stored, not
 compressed with loss of data

---
 mopaq/src/compression/algorithms/pkware.rs | 4 ++++
 mopaq/src/compression/compress.rs          | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/mopaq/src/compression/algorithms/pkware.rs b/mopaq/src/compression/algorithms/pkware.rs
index 27ec900..1ea2c09 100644
--- a/mopaq/src/compression/algorithms/pkware.rs
+++ b/mopaq/src/compression/algorithms/pkware.rs
@@ -3,6 +3,10 @@
 use crate::{Error, Result};
 use pklib::{explode_bytes, implode_bytes, CompressionMode, DictionarySize};
 
+/// Longest input that pklib compresses and decompresses without losing data: it restarts its
+/// window after every 4 KiB
+pub(crate) const MAX_INPUT_LEN: usize = 0x1000;
+
 /// Compress data using PKWare DCL algorithm
 pub(crate) fn compress(data: &[u8]) -> Result<Vec<u8>> {
     // Handle empty data
diff --git a/mopaq/src/compression/compress.rs b/mopaq/src/compression/compress.rs
index 2555914..f47993b 100644
--- a/mopaq/src/compression/compress.rs
+++ b/mopaq/src/compression/compress.rs
@@ -40,6 +40,10 @@ fn compress_internal(data: &[u8], method: u8) -> Result<Vec<u8>> {
         CompressionMethod::Sparse => algorithms::sparse::compress(data),
         CompressionMethod::AdpcmMono => algorithms::adpcm::compress_mono(data, 5), // Default compression level
         CompressionMethod::AdpcmStereo => algorithms::adpcm::compress_stereo(data, 5), // Default compression level
+        // Longer inputs are stored uncompressed
+        CompressionMethod::PKWare if data.len() > algorithms::pkware::MAX_INPUT_LEN => {
+            Ok(data.to_vec())
+        }
         CompressionMethod::PKWare => algorithms::pkware::compress(data),
         CompressionMethod::Implode => algorithms::implode::compress(data),
         CompressionMethod::Huffman => algorithms::huffman::compress(data),
@@ -107,6 +111,10 @@ fn compress_multiple(data: &[u8], flags: u8) -> Result<Vec<u8>> {
     } else if has_sparse {
         current_data = algorithms::sparse::compress(&current_data)?;
     } else if has_pkware {
+        if current_data.len() > algorithms::pkware::MAX_INPUT_LEN {
+            // Longer inputs are stored uncompressed
+            return Ok(data.to_vec());
+        }
         current_data = algorithms::pkware::compress(&current_data)?;
     }
 
-- 
2.43.0


From d12743fdad856aad76362eb044a971b81ea64aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:55 +0000
Subject: [PATCH 18/21] fix: refuse files whose size or sector offsets do not
 fit in 32 bits

The sizes and sector offsets were silently truncated, so the archive was
built successfully and the file could not be read back.
---
 mopaq/src/builder.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index d946897..bac89a5 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -1047,8 +1047,12 @@ impl ArchiveBuilder {
                 sector_data.extend_from_slice(&compressed_sector);
             }
 
-            // Set last offset
-            sector_offsets[sector_count] = (data_start + sector_data.len()) as u32;
+            // Set last offset; file sizes and sector offsets are stored in 32 bits
+            let data_end = data_start + sector_data.len();
+            if data_end > u32::MAX as usize || file_data.len() > u32::MAX as usize {
+                return Err(Error::invalid_format("File too large for an MPQ archive"));
+            }
+            sector_offsets[sector_count] = data_end as u32;
 
             // Log CRC generation if enabled
             if self.generate_crcs {
-- 
2.43.0


From e3c09692a71b4c345f3ea4cee9a7ff1a72b467ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:55 +0000
Subject: [PATCH 19/21] fix: refuse version 1 archives that grow beyond 4 GiB

Version 1 has no high words for positions; the low words were stored and
the archive built successfully, but its tables and files were not found.
---
 mopaq/src/builder.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index bac89a5..9bd6c24 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -710,6 +710,13 @@ impl ArchiveBuilder {
         // Calculate archive size
         let archive_size = writer.stream_position()?;
 
+        // Positions in version 1 archives have only 32 bits
+        if self.version == FormatVersion::V1 && archive_size > u32::MAX as u64 {
+            return Err(Error::invalid_format(
+                "Archive too large for format version 1",
+            ));
+        }
+
         // Write header at the beginning
         writer.seek(SeekFrom::Start(0))?;
         let header_params = HeaderWriteParams {
-- 
2.43.0


From 37ed67912f102519d679d48b21090c8a28a64c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:45 +0000
Subject: [PATCH 20/21] fix: closing an archive keeps its table locked while
 its files are closed

SFileCloseArchive removed the archive's open files, released the file table and
only then removed the archive: a file opened by another thread in between kept a
working handle after its archive was closed.
---
 storm-ffi/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index 0c621e8..ecdaf1e 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -290,6 +290,9 @@ pub unsafe extern "C" fn SFileCreateArchive(
 #[no_mangle]
 pub extern "C" fn SFileCloseArchive(handle: HANDLE) -> bool {
     if let Some(handle_id) = handle_to_id(handle) {
+        // Hold the archive table throughout: no file of this archive can be opened in between
+        let mut archives = ARCHIVES.lock().unwrap();
+
         // Remove any open files from this archive
         FILES
             .lock()
@@ -297,7 +300,7 @@ pub extern "C" fn SFileCloseArchive(handle: HANDLE) -> bool {
             .retain(|_, file| file.archive_handle != handle_id);
 
         // Close the archive
-        if ARCHIVES.lock().unwrap().remove(&handle_id).is_some() {
+        if archives.remove(&handle_id).is_some() {
             set_last_error(ERROR_SUCCESS);
             true
         } else {
-- 
2.43.0


From 458b84f34f1149e42a6baad0dc2dc3f38ae6af98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:19 +0000
Subject: [PATCH 21/21] fix: record the full file position in the BET table of
 large archives

The BET table kept only the low 32 bits of each file position, so in
version 3 and 4 archives a file stored beyond 4 GiB was reported at (and
read from) the wrong place: readers prefer the BET table over the block
and hi-block tables.
---
 mopaq/src/builder.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index 9bd6c24..a599438 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -805,7 +805,7 @@ impl ArchiveBuilder {
 
         // Create BET table
         let bet_table_pos = writer.stream_position()?;
-        let (bet_data, _bet_header) = self.create_bet_table(&block_table)?;
+        let (bet_data, _bet_header) = self.create_bet_table(&block_table, hi_block_table.as_ref())?;
         let (bet_table_size, bet_table_md5) = self.write_bet_table(writer, &bet_data, true)?;
 
         // For compatibility, also write classic tables
@@ -1666,7 +1666,11 @@ impl ArchiveBuilder {
     }
 
     /// Create BET table data
-    fn create_bet_table(&self, block_table: &BlockTable) -> Result<(Vec<u8>, BetHeader)> {
+    fn create_bet_table(
+        &self,
+        block_table: &BlockTable,
+        hi_block_table: Option<&HiBlockTable>,
+    ) -> Result<(Vec<u8>, BetHeader)> {
         let file_count = self.pending_files.len() as u32;
 
         // Analyze block table to determine optimal bit widths
@@ -1677,7 +1681,12 @@ impl ArchiveBuilder {
 
         for i in 0..file_count as usize {
             if let Some(entry) = block_table.get(i) {
-                max_file_pos = max_file_pos.max(entry.file_pos as u64);
+                let high_bits = match hi_block_table {
+                    Some(hi_table) => hi_table.get_file_pos_high(i),
+                    None => 0,
+                };
+                let file_pos = (high_bits << 32) | (entry.file_pos as u64);
+                max_file_pos = max_file_pos.max(file_pos);
                 max_file_size = max_file_size.max(entry.file_size as u64);
                 max_compressed_size = max_compressed_size.max(entry.compressed_size as u64);
                 unique_flags.insert(entry.flags);
@@ -1761,9 +1770,16 @@ impl ArchiveBuilder {
                 // Get flag index
                 let flag_index = flag_index_map.get(&entry.flags).unwrap();
 
+                // The position takes its upper part from the hi-block table
+                let high_bits = match hi_block_table {
+                    Some(hi_table) => hi_table.get_file_pos_high(i),
+                    None => 0,
+                };
+                let file_pos = (high_bits << 32) | (entry.file_pos as u64);
+
                 // Pack entry data
                 let mut entry_bits = 0u128;
-                entry_bits |= (entry.file_pos as u128) << bit_index_file_pos;
+                entry_bits |= (file_pos as u128) << bit_index_file_pos;
                 entry_bits |= (entry.file_size as u128) << bit_index_file_size;
                 entry_bits |= (entry.compressed_size as u128) << bit_index_cmp_size;
                 entry_bits |= (*flag_index as u128) << bit_index_flag_index;
-- 
2.43.0

