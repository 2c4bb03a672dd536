From f5abd2c812c77ca1206d44e03a7009a65667a476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:47 +0000
Subject: [PATCH 01/17] fix: zero the bitmap on clear

Bitmap::clear() kept the bits of its previous contents, so nulls appended
to a cleared and reused buffer could read back as set.
---
 src/store/indexing_buffer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/store/indexing_buffer.rs b/src/store/indexing_buffer.rs
index e129fed..550cb88 100644
--- a/src/store/indexing_buffer.rs
+++ b/src/store/indexing_buffer.rs
@@ -86,6 +86,7 @@ impl Bitmap {
 
     pub fn clear(&mut self) {
         self.len = 0;
+        self.values.clear();
         self.values.resize(INITIAL_BITMAP_CAP, 0);
     }
 }
-- 
2.43.0


From 3058232b73f695304416405e9a2bf84405bf71f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:47 +0000
Subject: [PATCH 02/17] fix: let bitmaps with an initial capacity below 8 bits
 grow

Bitmap::with_capacity(0..=7) starts without any byte and doubling zero
never grew it, so the first append panicked.
---
 src/store/indexing_buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/indexing_buffer.rs b/src/store/indexing_buffer.rs
index 550cb88..634a5ab 100644
--- a/src/store/indexing_buffer.rs
+++ b/src/store/indexing_buffer.rs
@@ -53,7 +53,7 @@ impl Bitmap {
         let idx = self.len >> 3;
 
         if idx == self.values.len() {
-            self.values.resize(self.values.len() * 2, 0);
+            self.values.resize((self.values.len() * 2).max(1), 0);
         }
 
         if set {
-- 
2.43.0


From a7e009ab89c96e88921c65bf0d52d419c8434532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:47 +0000
Subject: [PATCH 03/17] fix: compare bytes with bytes when filling up a
 primitive block

The number of pending values was compared with the block size in bytes,
so a pending block that reached the block size was not written and the
rest of the buffer, and of all later buffers, was dropped.
---
 src/store/encoding/raw/primitive_enc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/encoding/raw/primitive_enc.rs b/src/store/encoding/raw/primitive_enc.rs
index 23cb57b..f3e8c0f 100644
--- a/src/store/encoding/raw/primitive_enc.rs
+++ b/src/store/encoding/raw/primitive_enc.rs
@@ -120,7 +120,7 @@ impl<T: Send + Sync + Clone, S: BlockSink + Send> BlockEncoder<PrimitiveBuffer<T
 
             buf_pos = chunk_end;
 
-            if self.remaining.len() < self.min_block_size {
+            if self.remaining.len() * size_of::<T>() < self.min_block_size {
                 return Ok(());
             }
 
-- 
2.43.0


From bde9eabe37d0288722437f43fef5bd4971d2333d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:47 +0000
Subject: [PATCH 04/17] fix: binary chunks that do not start at the first value
 of the buffer

The end position found by chunk() was relative to the start position but
used as an absolute one: the second full block of a buffer lost its value
boundaries and the encoder wrote blocks forever or panicked.
---
 src/store/encoding/raw/binary_enc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/encoding/raw/binary_enc.rs b/src/store/encoding/raw/binary_enc.rs
index b6dff15..57bdf4f 100644
--- a/src/store/encoding/raw/binary_enc.rs
+++ b/src/store/encoding/raw/binary_enc.rs
@@ -237,7 +237,7 @@ pub fn chunk(buffer: &BinaryBuffer, start_pos: usize, min_size: u64) -> BinaryCh
         .find_position(|offset| (*offset - start_offset) as u64 >= min_size);
 
     let (end_pos, end_offset) = match maybe_end_pos {
-        Some(pos) => (pos.0, *pos.1),
+        Some(pos) => (start_pos + pos.0, *pos.1),
         None => (
             buffer.offsets().len() - 1,
             buffer.offsets()[buffer.offsets().len() - 1],
-- 
2.43.0


From 9249ce6d4805a0db3d4139d5c42b0effe530e3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:47 +0000
Subject: [PATCH 05/17] fix: count only the rows of the block for nullable
 columns

The row count of a block was the position reached in the buffer instead
of the number of rows consumed, so the row ids of the second and later
blocks of a buffer were too large.
---
 src/store/encoding/raw/binary_enc.rs    | 2 +-
 src/store/encoding/raw/primitive_enc.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/store/encoding/raw/binary_enc.rs b/src/store/encoding/raw/binary_enc.rs
index 57bdf4f..da2bbd8 100644
--- a/src/store/encoding/raw/binary_enc.rs
+++ b/src/store/encoding/raw/binary_enc.rs
@@ -208,7 +208,7 @@ fn encode_binary_buffer(
             encoded_data.extend_from_slice(bitmap_encoder.encoded_values());
 
             EncodeResult {
-                num_rows: last_bit_pos,
+                num_rows: last_bit_pos - bit_pos,
                 last_validity_pos: last_bit_pos,
             }
         }
diff --git a/src/store/encoding/raw/primitive_enc.rs b/src/store/encoding/raw/primitive_enc.rs
index f3e8c0f..7a379d7 100644
--- a/src/store/encoding/raw/primitive_enc.rs
+++ b/src/store/encoding/raw/primitive_enc.rs
@@ -186,7 +186,7 @@ fn encode_primitive_buffer<T: Clone>(
             encoded_data.extend_from_slice(bitmap_encoder.encoded_values());
 
             EncodeResult {
-                num_rows: last_bit_pos,
+                num_rows: last_bit_pos - bit_pos,
                 last_validity_pos: last_bit_pos,
             }
         }
-- 
2.43.0


From 3d3f10898e862382889b7478f87ff1ef4ff7051e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:47 +0000
Subject: [PATCH 06/17] fix: binary blocks with more than 128 values

BitPacker4x::num_bits() takes exactly one chunk of 128 values and panics
otherwise.
---
 src/store/encoding/offsets.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/store/encoding/offsets.rs b/src/store/encoding/offsets.rs
index 2f9b93d..60ff3a4 100644
--- a/src/store/encoding/offsets.rs
+++ b/src/store/encoding/offsets.rs
@@ -39,7 +39,11 @@ impl OffsetEncoder {
         let len_padded = round_upto_power_of_2(src.len(), BitPacker4x::BLOCK_LEN);
         src.resize(len_padded, 0);
 
-        let num_bits = self.bitpacker.num_bits(src);
+        let num_bits = src
+            .chunks(BitPacker4x::BLOCK_LEN)
+            .map(|chunk| self.bitpacker.num_bits(chunk))
+            .max()
+            .unwrap_or(0);
 
         dst.push(num_bits);
 
-- 
2.43.0


From 3b87460878b7e5e22254de03e86fad79275c987b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:55 +0000
Subject: [PATCH 07/17] fix: keep the complete bit-packed value lengths

BitPacker4x interleaves four lanes, so the packed bits of the first n
values do not end at n * num_bits: trimming the output there cut off the
lengths of all but the first values of the last chunk, and the block
could not be split into its values again.
---
 src/store/encoding/offsets.rs | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/store/encoding/offsets.rs b/src/store/encoding/offsets.rs
index 60ff3a4..00a4e90 100644
--- a/src/store/encoding/offsets.rs
+++ b/src/store/encoding/offsets.rs
@@ -34,8 +34,6 @@ impl OffsetEncoder {
     /// └───────────────────┴─────────────────────────┘
     /// ```
     pub fn encode(&mut self, src: &mut Vec<u32>, dst: &mut Vec<u8>) {
-        let num_values = src.len();
-
         let len_padded = round_upto_power_of_2(src.len(), BitPacker4x::BLOCK_LEN);
         src.resize(len_padded, 0);
 
@@ -59,10 +57,5 @@ impl OffsetEncoder {
                 .compress(chunk, &mut dst[chunk_start..], num_bits);
             chunk_start += compressed_len;
         }
-
-        // trim to remove the encoded padding.
-        let encoded_data_len = encoded_data_start + ceil8(num_bits as usize * num_values);
-
-        dst.resize(encoded_data_len, 0);
     }
 }
-- 
2.43.0


From 6483d3c8a6f43f6c42c9c1817030de9e0a0c7f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:36 +0000
Subject: [PATCH 08/17] fix: keep nulls at the end of a buffer

Validity is copied up to the last value of a buffer, so the nulls after
it, and buffers made of nulls only, were dropped and all later values of
the column moved up to earlier rows. Carry them over to the next buffer.
---
 src/store/encoding/raw/binary_enc.rs    | 15 +++++++++++----
 src/store/encoding/raw/primitive_enc.rs | 10 +++++++---
 src/store/indexing_buffer.rs            | 18 ++++++++++++++++++
 3 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/src/store/encoding/raw/binary_enc.rs b/src/store/encoding/raw/binary_enc.rs
index da2bbd8..291f3b3 100644
--- a/src/store/encoding/raw/binary_enc.rs
+++ b/src/store/encoding/raw/binary_enc.rs
@@ -125,7 +125,7 @@ impl<S: BlockSink + Send> BlockEncoder<BinaryBuffer, S> for Encoder {
         let mut buf_pos = 0;
         let mut validity_pos = 0;
 
-        if self.remaining.len() > 0 {
+        if self.remaining.num_values() > 0 {
             let remaining_size = self.remaining.data().len();
 
             let chunk = chunk(buffer, 0, self.min_block_size - remaining_size as u64);
@@ -136,6 +136,7 @@ impl<S: BlockSink + Send> BlockEncoder<BinaryBuffer, S> for Encoder {
             buf_pos = chunk.end_pos;
 
             if self.remaining.data().len() < self.min_block_size as usize {
+                self.remaining.append_nulls_from(buffer, validity_pos);
                 return Ok(());
             }
 
@@ -147,9 +148,13 @@ impl<S: BlockSink + Send> BlockEncoder<BinaryBuffer, S> for Encoder {
         while buf_pos < buffer.offsets().len() {
             let chunk = chunk(&buffer, buf_pos, self.min_block_size);
             if (chunk.size as u64) < self.min_block_size {
-                self.remaining
-                    .append_from(buffer, chunk.start_pos, chunk.end_pos, validity_pos);
-                return Ok(());
+                validity_pos = self.remaining.append_from(
+                    buffer,
+                    chunk.start_pos,
+                    chunk.end_pos,
+                    validity_pos,
+                );
+                break;
             }
 
             let result = self.write_block(buffer, &chunk, validity_pos, sink).await?;
@@ -158,6 +163,8 @@ impl<S: BlockSink + Send> BlockEncoder<BinaryBuffer, S> for Encoder {
             validity_pos = result.last_validity_pos;
         }
 
+        self.remaining.append_nulls_from(buffer, validity_pos);
+
         Ok(())
     }
 
diff --git a/src/store/encoding/raw/primitive_enc.rs b/src/store/encoding/raw/primitive_enc.rs
index 7a379d7..32ad2e5 100644
--- a/src/store/encoding/raw/primitive_enc.rs
+++ b/src/store/encoding/raw/primitive_enc.rs
@@ -111,7 +111,7 @@ impl<T: Send + Sync + Clone, S: BlockSink + Send> BlockEncoder<PrimitiveBuffer<T
         let mut buf_pos = 0;
         let mut validity_pos = 0;
 
-        if self.remaining.len() > 0 {
+        if self.remaining.num_values() > 0 {
             let remaining_size = self.remaining.len() * std::mem::size_of::<T>();
 
             let chunk_end = chunk(buffer, 0, self.min_block_size - remaining_size);
@@ -121,6 +121,7 @@ impl<T: Send + Sync + Clone, S: BlockSink + Send> BlockEncoder<PrimitiveBuffer<T
             buf_pos = chunk_end;
 
             if self.remaining.len() * size_of::<T>() < self.min_block_size {
+                self.remaining.append_nulls_from(buffer, validity_pos);
                 return Ok(());
             }
 
@@ -136,9 +137,10 @@ impl<T: Send + Sync + Clone, S: BlockSink + Send> BlockEncoder<PrimitiveBuffer<T
             let chunk_size = chunk_len * size_of::<T>();
 
             if chunk_size < self.min_block_size {
-                self.remaining
+                validity_pos = self
+                    .remaining
                     .append_from(buffer, buf_pos, chunk_end, validity_pos);
-                return Ok(());
+                break;
             }
 
             let result = self
@@ -149,6 +151,8 @@ impl<T: Send + Sync + Clone, S: BlockSink + Send> BlockEncoder<PrimitiveBuffer<T
             validity_pos = result.last_validity_pos;
         }
 
+        self.remaining.append_nulls_from(buffer, validity_pos);
+
         Ok(())
     }
 
diff --git a/src/store/indexing_buffer.rs b/src/store/indexing_buffer.rs
index 634a5ab..8cb829d 100644
--- a/src/store/indexing_buffer.rs
+++ b/src/store/indexing_buffer.rs
@@ -154,6 +154,15 @@ impl<T: Clone> PrimitiveBuffer<T> {
         }
     }
 
+    /// Append the rows of `buf` from `validity_pos` on, which must be nulls.
+    pub fn append_nulls_from(&mut self, buf: &PrimitiveBuffer<T>, validity_pos: usize) {
+        if let Some(ref validity_src) = buf.validity {
+            for _ in validity_pos..validity_src.len() {
+                self.append_null();
+            }
+        }
+    }
+
     /// Returns the values stored in this buffer.
     /// This is a sparse representation so only non-null values are returned.
     pub fn values(&self) -> &[T] {
@@ -281,6 +290,15 @@ impl BinaryBuffer {
         }
     }
 
+    /// Append the rows of `buf` from `validity_pos` on, which must be nulls.
+    pub fn append_nulls_from(&mut self, buf: &BinaryBuffer, validity_pos: usize) {
+        if let Some(ref validity_src) = buf.validity {
+            for _ in validity_pos..validity_src.len() {
+                self.append_null();
+            }
+        }
+    }
+
     /// Returns a reference to the stored values.
     pub fn data(&self) -> &[u8] {
         self.data.as_slice()
-- 
2.43.0


From 6a5df096d9758df70e86702eea6ea5c125d93a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:39 +0000
Subject: [PATCH 09/17] fix: use the documented block size of 128 KiB

BLOCK_SIZE is documented as 128k but was 128 bytes.
---
 src/store/segment_writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/segment_writer.rs b/src/store/segment_writer.rs
index ab4a48d..7977d78 100644
--- a/src/store/segment_writer.rs
+++ b/src/store/segment_writer.rs
@@ -109,7 +109,7 @@ const DATA_FILE_SIGNATURE: [u8; 13] = *b"MEERKAT_DATA1";
 const INDEX_FILE_SIGNATURE: [u8; 12] = *b"MEERKAT_IDX1";
 const DATA_FILE_EXT: &str = "dat";
 const INDEX_FILE_EXT: &str = "idx";
-const BLOCK_SIZE: u32 = 1 << 7; // 128k block size
+const BLOCK_SIZE: u32 = 1 << 17; // 128k block size
 
 /// ColumnInfo provides details about the column to be indexed.
 pub struct ColumnInfo {
-- 
2.43.0


From 1c50010f6446b66225d302a204c33c4a9855835a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:43 +0000
Subject: [PATCH 10/17] fix: check block ranges before allocating the buffer

A reversed range panicked in the blocking task and a range far beyond the
end of the file aborted the process when its buffer could not be
allocated. Both are errors of that read operation.
---
 src/store/io/unix_disk_block_reader.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/store/io/unix_disk_block_reader.rs b/src/store/io/unix_disk_block_reader.rs
index a5fa3ee..573736e 100644
--- a/src/store/io/unix_disk_block_reader.rs
+++ b/src/store/io/unix_disk_block_reader.rs
@@ -62,6 +62,12 @@ impl BlockReader for Reader {
     async fn read_block(&self, range: BlockRange) -> io::Result<Self::Buf> {
         let file = self.file.clone();
         asyncify(move || {
+            if range.start > range.end || range.end > file.metadata()?.len() {
+                return Err(io::Error::new(
+                    io::ErrorKind::UnexpectedEof,
+                    "block range out of bounds",
+                ));
+            }
             let buf_len = range.end - range.start;
             let mut buf: Vec<u8> = vec![0; buf_len as usize];
             file.read_exact_at(buf.as_mut_slice(), range.start)
-- 
2.43.0


From 0ac0b72b30a04ddba727d7a97659b88955902617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:46 +0000
Subject: [PATCH 11/17] fix: report pending write errors on sync

File::sync_all() waits for the write in flight but does not return its
error, so sync() reported success for data that was never written.
---
 src/store/io/default_block_writer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/store/io/default_block_writer.rs b/src/store/io/default_block_writer.rs
index c9b14f1..4db09b2 100644
--- a/src/store/io/default_block_writer.rs
+++ b/src/store/io/default_block_writer.rs
@@ -48,6 +48,7 @@ impl Writer {
     /// This function will attempt to ensure that all in-core data reaches
     /// the filesystem before returning.
     pub async fn sync(&mut self) -> std::io::Result<()> {
+        self.file.flush().await?;
         self.file.sync_all().await
     }
 
-- 
2.43.0


From ace22bcafbc319610f13b79813a90f8b9eb32472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:50 +0000
Subject: [PATCH 12/17] fix: flush the data file before the index footer is
 written

The footer could reach the index file while the last data block was still
pending in the background: when the process was killed then, or the data
write failed, a segment that looks complete was missing data.
---
 src/store/segment_writer.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/store/segment_writer.rs b/src/store/segment_writer.rs
index 7977d78..bfcd9da 100644
--- a/src/store/segment_writer.rs
+++ b/src/store/segment_writer.rs
@@ -219,6 +219,11 @@ impl SegmentWriter {
 
     /// Close the SegmentWriter and flush any pending data.
     async fn close(&mut self) -> Result<()> {
+        self.data_writer
+            .flush()
+            .await
+            .context("cannot flush data file")?;
+
         let metadata_bytes = self.segment_meta.encode_to_vec();
         let metadata_pos = self.index_writer.pos();
 
@@ -235,11 +240,7 @@ impl SegmentWriter {
         self.index_writer
             .flush()
             .await
-            .context("cannot flush index file")?;
-        self.data_writer
-            .flush()
-            .await
-            .context("cannot flush data file")
+            .context("cannot flush index file")
     }
 
     /// Sync all in-memory data to disk.
-- 
2.43.0


From a6669d22a519d06d7ada9420fdcd0a1ff41d0721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:18 +0000
Subject: [PATCH 13/17] verif: hooks for the verification harness, guarded by
 cfg(meerkat_verif)

---
 src/main.rs                 |  3 +++
 src/store/block_index.rs    |  7 +++++++
 src/store/encoding/mod.rs   | 10 ++++++++++
 src/store/io/mod.rs         | 26 +++++++++++++++++++++++++
 src/store/mod.rs            | 11 +++++++++++
 src/store/segment_writer.rs | 15 ++++++++++++++
 src/store/verif.rs          | 39 +++++++++++++++++++++++++++++++++++++
 7 files changed, 111 insertions(+)
 create mode 100644 src/store/verif.rs

diff --git a/src/main.rs b/src/main.rs
index 0e253ee..e0ae137 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -11,6 +11,9 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+// `meerkat_verif` guards the hooks of the verification harness.
+#![allow(unexpected_cfgs)]
+
 use std::path::PathBuf;
 
 use structopt::clap::AppSettings;
diff --git a/src/store/block_index.rs b/src/store/block_index.rs
index 267f1b6..55721f7 100644
--- a/src/store/block_index.rs
+++ b/src/store/block_index.rs
@@ -42,6 +42,13 @@ impl BlockIndex {
         self.block_offset.clear();
     }
 
+    /// The (row_id, offset) entries of the index.
+    #[cfg(meerkat_verif)]
+    pub fn verif_entries(&self) -> Vec<(u32, u64)> {
+        let row_ids = self.block_row_id.iter().copied();
+        row_ids.zip(self.block_offset.iter().copied()).collect()
+    }
+
     /// flush the index to disk.
     pub async fn flush(&self, block_writer: &mut BlockWriter) -> Result<BlockIndexLayout> {
         Ok(BlockIndexLayout {
diff --git a/src/store/encoding/mod.rs b/src/store/encoding/mod.rs
index ca51f5f..f515b01 100644
--- a/src/store/encoding/mod.rs
+++ b/src/store/encoding/mod.rs
@@ -122,6 +122,16 @@ where
     }
 }
 
+#[cfg(meerkat_verif)]
+pub mod verif {
+    pub mod bitmap_rle {
+        pub use super::super::bitmap_rle::*;
+    }
+    pub mod varint {
+        pub use super::super::varint::*;
+    }
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
diff --git a/src/store/io/mod.rs b/src/store/io/mod.rs
index 4d76897..685d60a 100644
--- a/src/store/io/mod.rs
+++ b/src/store/io/mod.rs
@@ -122,6 +122,32 @@ where
     }
 }
 
+#[cfg(meerkat_verif)]
+pub mod verif {
+    use super::*;
+
+    pub use super::unix_disk_block_reader::Reader;
+
+    pub fn block_range(start: u64, end: u64) -> BlockRange {
+        BlockRange { start, end }
+    }
+
+    pub fn read_op(start: u64, end: u64, op_info: OpInfo) -> ReadOp {
+        ReadOp {
+            block_range: block_range(start, end),
+            op_info,
+        }
+    }
+
+    pub fn block_parts<Buf: AsRef<[u8]>>(block: Block<Buf>) -> (Buf, OpInfo) {
+        (block.buf, block.op_info)
+    }
+
+    pub fn block_error_parts(err: BlockError) -> (io::Error, OpInfo) {
+        (err.error, err.op_info)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use futures::StreamExt;
diff --git a/src/store/mod.rs b/src/store/mod.rs
index 6dd47b7..8549e6c 100644
--- a/src/store/mod.rs
+++ b/src/store/mod.rs
@@ -17,5 +17,16 @@ mod encoding;
 mod index;
 mod indexing_buffer;
 mod io;
+#[cfg(not(meerkat_verif))]
 mod segment_metadata;
 mod segment_writer;
+
+// With the verification hooks on, the metadata types are generated from the
+// schema by the build script of the harness.
+#[cfg(meerkat_verif)]
+mod segment_metadata {
+    include!(concat!(env!("OUT_DIR"), "/segment_metadata.rs"));
+}
+
+#[cfg(meerkat_verif)]
+pub mod verif;
diff --git a/src/store/segment_writer.rs b/src/store/segment_writer.rs
index bfcd9da..b0d29f3 100644
--- a/src/store/segment_writer.rs
+++ b/src/store/segment_writer.rs
@@ -256,6 +256,21 @@ impl SegmentWriter {
     }
 }
 
+#[cfg(meerkat_verif)]
+impl SegmentWriter {
+    pub async fn verif_close(&mut self) -> Result<()> {
+        self.close().await
+    }
+
+    pub async fn verif_sync(self) -> Result<()> {
+        self.sync().await
+    }
+
+    pub fn verif_block_index(&self) -> &BlockIndex {
+        &self.block_index
+    }
+}
+
 /// Used to write a single column to the segment.
 pub struct ColumnWriter<'a, B> {
     column_info: ColumnInfo,
diff --git a/src/store/verif.rs b/src/store/verif.rs
new file mode 100644
index 0000000..03ac504
--- /dev/null
+++ b/src/store/verif.rs
@@ -0,0 +1,39 @@
+// Copyright 2021 The Meerkat Authors
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+// http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+//! Verification hooks: makes the storage layer visible to the verification
+//! harness. Only compiled with `--cfg meerkat_verif`.
+
+pub use super::block_index::BlockIndex;
+pub use super::block_sink::BlockSinkImpl;
+pub use super::indexing_buffer::*;
+pub use super::segment_writer::{ColumnInfo, ColumnWriter, SegmentInfo, SegmentWriter};
+
+pub mod segment_metadata {
+    pub use crate::store::segment_metadata::*;
+}
+
+pub mod encoding {
+    pub use crate::store::encoding::verif::*;
+    pub use crate::store::encoding::{
+        new_binary_encoder, new_f64_encoder, new_i32_encoder, new_i64_encoder, new_u64_encoder,
+    };
+    pub use crate::store::encoding::{BlockEncoder, BlockSink};
+}
+
+pub mod io {
+    pub use crate::store::io::verif::*;
+    pub use crate::store::io::{
+        Block, BlockError, BlockRange, BlockReader, BlockWriter, OpInfo, ReadOp,
+    };
+}
-- 
2.43.0


From ecf625adc8d5641726aabbc16388e654f0c2cc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:44 +0000
Subject: [PATCH 14/17] verif: record the block index when it is flushed,
 guarded by cfg(meerkat_verif)

---
 src/store/block_index.rs | 13 +++++++++++++
 src/store/verif.rs       |  2 +-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/store/block_index.rs b/src/store/block_index.rs
index 55721f7..502bf11 100644
--- a/src/store/block_index.rs
+++ b/src/store/block_index.rs
@@ -51,8 +51,21 @@ impl BlockIndex {
 
     /// flush the index to disk.
     pub async fn flush(&self, block_writer: &mut BlockWriter) -> Result<BlockIndexLayout> {
+        #[cfg(meerkat_verif)]
+        verif::FLUSHED.with(|f| *f.borrow_mut() = Some(self.verif_entries()));
+
         Ok(BlockIndexLayout {
             range: Some(Range { start: 0, end: 0 }),
         })
     }
 }
+
+#[cfg(meerkat_verif)]
+pub mod verif {
+    use std::cell::RefCell;
+
+    thread_local! {
+        /// The entries of the index that was flushed last by this thread.
+        pub static FLUSHED: RefCell<Option<Vec<(u32, u64)>>> = RefCell::new(None);
+    }
+}
diff --git a/src/store/verif.rs b/src/store/verif.rs
index 03ac504..d3711ef 100644
--- a/src/store/verif.rs
+++ b/src/store/verif.rs
@@ -14,7 +14,7 @@
 //! Verification hooks: makes the storage layer visible to the verification
 //! harness. Only compiled with `--cfg meerkat_verif`.
 
-pub use super::block_index::BlockIndex;
+pub use super::block_index::{verif::FLUSHED, BlockIndex};
 pub use super::block_sink::BlockSinkImpl;
 pub use super::indexing_buffer::*;
 pub use super::segment_writer::{ColumnInfo, ColumnWriter, SegmentInfo, SegmentWriter};
-- 
2.43.0


From 61a73c33cbcb3df9e06b2d5d96c6fcf175443cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:50 +0000
Subject: [PATCH 15/17] verif: block index entries whatever their integer types

---
 src/store/block_index.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/store/block_index.rs b/src/store/block_index.rs
index 502bf11..58136c8 100644
--- a/src/store/block_index.rs
+++ b/src/store/block_index.rs
@@ -45,8 +45,10 @@ impl BlockIndex {
     /// The (row_id, offset) entries of the index.
     #[cfg(meerkat_verif)]
     pub fn verif_entries(&self) -> Vec<(u32, u64)> {
-        let row_ids = self.block_row_id.iter().copied();
-        row_ids.zip(self.block_offset.iter().copied()).collect()
+        let row_ids = self.block_row_id.iter().map(|r| *r as u32);
+        row_ids
+            .zip(self.block_offset.iter().map(|o| *o as u64))
+            .collect()
     }
 
     /// flush the index to disk.
-- 
2.43.0


From 8fe4becfc7e98747911c5fa9b95acc1daa5af8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:14 +0000
Subject: [PATCH 16/17] verif: observe the block index without knowing its
 fields, if need be

---
 src/store/block_index.rs    | 18 +++++++++++++++++-
 src/store/segment_writer.rs | 10 ++++++++--
 src/store/verif.rs          |  2 +-
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/store/block_index.rs b/src/store/block_index.rs
index 58136c8..74980f7 100644
--- a/src/store/block_index.rs
+++ b/src/store/block_index.rs
@@ -32,18 +32,30 @@ impl BlockIndex {
 
     /// Add a new block to the index
     pub fn index_block(&mut self, row_id: u32, offset: u64) {
+        #[cfg(meerkat_verif_noted)]
+        verif::NOTED.with(|n| n.borrow_mut().push((row_id as u32, offset as u64)));
+
         self.block_offset.push(offset);
         self.block_row_id.push(row_id);
     }
 
     /// clear the index
     pub fn clear(&mut self) {
+        #[cfg(meerkat_verif_noted)]
+        verif::NOTED.with(|n| n.borrow_mut().clear());
+
         self.block_row_id.clear();
         self.block_offset.clear();
     }
 
     /// The (row_id, offset) entries of the index.
-    #[cfg(meerkat_verif)]
+    #[cfg(meerkat_verif_noted)]
+    pub fn verif_entries(&self) -> Vec<(u32, u64)> {
+        verif::NOTED.with(|n| n.borrow().clone())
+    }
+
+    /// The (row_id, offset) entries of the index.
+    #[cfg(all(meerkat_verif, not(meerkat_verif_noted)))]
     pub fn verif_entries(&self) -> Vec<(u32, u64)> {
         let row_ids = self.block_row_id.iter().map(|r| *r as u32);
         row_ids
@@ -69,5 +81,9 @@ pub mod verif {
     thread_local! {
         /// The entries of the index that was flushed last by this thread.
         pub static FLUSHED: RefCell<Option<Vec<(u32, u64)>>> = RefCell::new(None);
+
+        /// What was indexed by this thread since the last clear, for a
+        /// harness that is built without knowing how the index is kept.
+        pub static NOTED: RefCell<Vec<(u32, u64)>> = RefCell::new(Vec::new());
     }
 }
diff --git a/src/store/segment_writer.rs b/src/store/segment_writer.rs
index b0d29f3..b10353f 100644
--- a/src/store/segment_writer.rs
+++ b/src/store/segment_writer.rs
@@ -266,8 +266,14 @@ impl SegmentWriter {
         self.sync().await
     }
 
-    pub fn verif_block_index(&self) -> &BlockIndex {
-        &self.block_index
+    #[cfg(not(meerkat_verif_noted))]
+    pub fn verif_entries(&self) -> Vec<(u32, u64)> {
+        self.block_index.verif_entries()
+    }
+
+    #[cfg(meerkat_verif_noted)]
+    pub fn verif_entries(&self) -> Vec<(u32, u64)> {
+        crate::store::block_index::verif::NOTED.with(|n| n.borrow().clone())
     }
 }
 
diff --git a/src/store/verif.rs b/src/store/verif.rs
index d3711ef..49a6e4b 100644
--- a/src/store/verif.rs
+++ b/src/store/verif.rs
@@ -14,7 +14,7 @@
 //! Verification hooks: makes the storage layer visible to the verification
 //! harness. Only compiled with `--cfg meerkat_verif`.
 
-pub use super::block_index::{verif::FLUSHED, BlockIndex};
+pub use super::block_index::{verif::FLUSHED, verif::NOTED, BlockIndex};
 pub use super::block_sink::BlockSinkImpl;
 pub use super::indexing_buffer::*;
 pub use super::segment_writer::{ColumnInfo, ColumnWriter, SegmentInfo, SegmentWriter};
-- 
2.43.0


From 47a2e81cdb328f8754df80592e581a6f4c2c0d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:11 +0000
Subject: [PATCH 17/17] verif: sync may borrow the writer

---
 src/store/segment_writer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/store/segment_writer.rs b/src/store/segment_writer.rs
index b10353f..81b8b7a 100644
--- a/src/store/segment_writer.rs
+++ b/src/store/segment_writer.rs
@@ -262,7 +262,8 @@ impl SegmentWriter {
         self.close().await
     }
 
-    pub async fn verif_sync(self) -> Result<()> {
+    #[allow(unused_mut)]
+    pub async fn verif_sync(mut self) -> Result<()> {
         self.sync().await
     }
 
-- 
2.43.0

