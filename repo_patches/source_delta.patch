From ff7140df5612a9a6070dde6f674faac767e22e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:57 +0000
Subject: [PATCH 01/51] hook: expose traits and memtable entries under cfg(dst)

---
 src/db/mem_table.rs | 6 ++++++
 src/lib.rs          | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/src/db/mem_table.rs b/src/db/mem_table.rs
index a003400..0a8c5b0 100644
--- a/src/db/mem_table.rs
+++ b/src/db/mem_table.rs
@@ -92,6 +92,12 @@ impl<Cmp: Comparator> MemTable<Cmp> {
         self.list.insert(UnsafeSlice::new_with_arena(buf, self.arena.clone())?)
     }
 
+    /// Simulation hook: read access to the stored entries. Off by default.
+    #[cfg(dst)]
+    pub fn dst_list(&self) -> &SkipList<Cmp> {
+        &self.list
+    }
+
     /// 通过 key 查找结果
     pub fn get(&self, _key: &LookupKey) -> Result<Option<Slice>> {
         todo!()
diff --git a/src/lib.rs b/src/lib.rs
index c1c3131..df67303 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -5,7 +5,11 @@ extern crate core;
 pub mod db;
 mod table;
 pub mod util;
+#[cfg(not(dst))]
 mod traits;
+/// Simulation hook: harness crates supply comparators and drive iterators. Off by default.
+#[cfg(dst)]
+pub mod traits;
 
 #[global_allocator]
 static ALLOC: jemallocator::Jemalloc = jemallocator::Jemalloc;
-- 
2.43.0


From 4ffd5a2e9658b5fbe6b645cac7bb6117e8bff09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:08 +0000
Subject: [PATCH 02/51] fix: coding: read and write fixed-width integers at any
 address

The offset inside a buffer is arbitrary, so the address need not be a
multiple of the integer size; ptr::read and ptr::write require that it is.
---
 src/util/coding.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/coding.rs b/src/util/coding.rs
index c4320b8..4fe7ee0 100644
--- a/src/util/coding.rs
+++ b/src/util/coding.rs
@@ -179,7 +179,7 @@ macro_rules! encode_fixed {
                 // 移动指针
                 let end = mut_ptr.add(offset);
                 // 写入数据
-                ptr::write(end as *mut $type, swap_bytes!(value));
+                ptr::write_unaligned(end as *mut $type, swap_bytes!(value));
             }
         }
     };
@@ -317,7 +317,7 @@ macro_rules! decode_fixed {
         unsafe fn $name(data: &EncodeData, offset: usize) -> $type {
             // offset + 读取字节 >= data.len() 时会溢出
             let ptr = get_ptr!(data);
-            swap_bytes!(unsafe {ptr::read(ptr.add(offset) as *mut $type)})
+            swap_bytes!(unsafe {ptr::read_unaligned(ptr.add(offset) as *const $type)})
         }
     }
 }
-- 
2.43.0


From cb8b77c9c0a80998ec9ea91817d7f4bfedde05b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:08 +0000
Subject: [PATCH 03/51] fix: crc: start the word loop after the bytes already
 consumed

extend() first steps over bytes until the address is aligned, but the
decoder restarted at the beginning of the data, so the CRC of the same
bytes depended on the address of the buffer.
---
 src/util/crc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/crc.rs b/src/util/crc.rs
index c2f0443..922f37a 100644
--- a/src/util/crc.rs
+++ b/src/util/crc.rs
@@ -384,7 +384,7 @@ impl CRC {
         }
 
         if n - s >= 16 {
-            let mut decoder = Decoder::with_buf(data);
+            let mut decoder = Decoder::with_buf(&data[s..]);
             let mut crc0 = unsafe { decoder.uncheck_get_fixed32() } ^ l;
             let mut crc1 = unsafe { decoder.uncheck_get_fixed32() };
             let mut crc2 = unsafe { decoder.uncheck_get_fixed32() };
-- 
2.43.0


From a5742a2a5fdeead57e0cb282954257bf162408ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:35 +0000
Subject: [PATCH 04/51] fix: crc: rotate the four strides instead of dropping
 one

After a single 4-byte step the strides must rotate by one. The assignment
copied them up without rotating, so the CRC of data with 4 or more bytes
left after the 16-byte loop was wrong and ignored part of the data.
---
 src/util/crc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/crc.rs b/src/util/crc.rs
index 922f37a..c0963f6 100644
--- a/src/util/crc.rs
+++ b/src/util/crc.rs
@@ -398,7 +398,7 @@ impl CRC {
             while (n - s) >= 4 {
                 step4!(crc0, data, decoder, s, 0);
                 // swap variables
-                (crc1, crc2, crc3) = (crc0, crc1, crc2);
+                (crc0, crc1, crc2, crc3) = (crc1, crc2, crc3, crc0);
                 s += 4;
                 // println!("step4, c0: {:x}, c1: {:x}, c2: {:x}, c3: {:x}, s: {}", crc0, crc1, crc2, crc3, s);
             }
-- 
2.43.0


From 1f88e23b5cc55a0970369e1b79c60d05dfc5d439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:49 +0000
Subject: [PATCH 05/51] fix: log writer: recompute the space left in the block
 per fragment

left_over was computed once per record, so a record that crosses a block
boundary never moved to the next block and add_record underflowed.
---
 src/db/log_writer.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/db/log_writer.rs b/src/db/log_writer.rs
index 485ce95..fa9502f 100644
--- a/src/db/log_writer.rs
+++ b/src/db/log_writer.rs
@@ -39,12 +39,11 @@ impl LogWriter {
     }
 
     pub fn add_record(&mut self, slice: Slice) -> Result<()> {
-        let left_over = K_BLOCK_SIZE - self.block_offset;
-        assert!(left_over >= 0);
         let mut left = slice.len();
         let mut begin = true;
         let mut start_idx = 0;
         while begin || left > 0 {
+            let left_over = K_BLOCK_SIZE - self.block_offset;
             if left_over < K_HEADER_SIZE {
                 if left_over > 0 {
                     self.file_writer.write(&K_EMPTY_BYTES[0..left_over])?;
-- 
2.43.0


From 0ef1f09d4a78eb4ba1b4d50fd38698cf686b0a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:49 +0000
Subject: [PATCH 06/51] fix: log writer: store the record checksum as fixed32

The reader decodes a fixed32. A varint32 agrees with that for no value
of 128 or more, and its fifth byte was overwritten by the length.
---
 src/db/log_writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db/log_writer.rs b/src/db/log_writer.rs
index fa9502f..c4f8bcd 100644
--- a/src/db/log_writer.rs
+++ b/src/db/log_writer.rs
@@ -74,7 +74,7 @@ impl LogWriter {
         let mut crc = CRC::extend(self.type_crc[record_type as usize], data);
         crc = CRC::mask(crc);
         let mut header = [0_u8; K_HEADER_SIZE];
-        Encoder::with_buf(&mut header).put_varint32(crc);
+        Encoder::with_buf(&mut header).put_fixed32(crc)?;
         header[4] = (data.len() & 0xff) as u8;
         header[5] = (data.len() >> 8) as u8;
         header[6] = record_type;
-- 
2.43.0


From 786fa7e7367219a2b4e5fbecb1315e9aada8620d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:49 +0000
Subject: [PATCH 07/51] fix: log writer: write headers, payloads and trailers
 completely

write() may accept only part of the buffer or be interrupted; the rest was
silently lost while the record was reported as written.
---
 src/db/log_writer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/db/log_writer.rs b/src/db/log_writer.rs
index c4f8bcd..2f0e51a 100644
--- a/src/db/log_writer.rs
+++ b/src/db/log_writer.rs
@@ -46,7 +46,7 @@ impl LogWriter {
             let left_over = K_BLOCK_SIZE - self.block_offset;
             if left_over < K_HEADER_SIZE {
                 if left_over > 0 {
-                    self.file_writer.write(&K_EMPTY_BYTES[0..left_over])?;
+                    self.file_writer.write_all(&K_EMPTY_BYTES[0..left_over])?;
                 }
                 self.block_offset = 0;
             }
@@ -78,10 +78,10 @@ impl LogWriter {
         header[4] = (data.len() & 0xff) as u8;
         header[5] = (data.len() >> 8) as u8;
         header[6] = record_type;
-        self.file_writer.write(header.as_ref())?;
+        self.file_writer.write_all(header.as_ref())?;
         self.block_offset += K_HEADER_SIZE;
         if !data.is_empty() {
-            self.file_writer.write(data)?;
+            self.file_writer.write_all(data)?;
             self.block_offset += data.len();
         }
         self.file_writer.flush()?;
-- 
2.43.0


From 06989cb71b23ca7949d23151f2d33f7ccb766c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:05 +0000
Subject: [PATCH 08/51] fix: log writer: refuse further records after a failed
 write

A failed write may leave part of a physical record behind, so block_offset
no longer matches the file and records acknowledged later were unreadable.
---
 src/db/log_writer.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/db/log_writer.rs b/src/db/log_writer.rs
index 2f0e51a..99ea2e4 100644
--- a/src/db/log_writer.rs
+++ b/src/db/log_writer.rs
@@ -2,6 +2,7 @@ use std::io::Write;
 use crate::util::coding::Encoder;
 use crate::util::crc::{AsCrc, CRC};
 use crate::util::slice::Slice;
+use crate::util::status::LevelError;
 use crate::util::Result;
 
 pub const K_ZERO_TYPE: u8 = 0;
@@ -23,6 +24,9 @@ pub struct LogWriter {
     file_writer: Box<dyn Write>,
     /// Offset in current block
     block_offset: usize,
+    /// Set while a record is being written, and left set if that fails:
+    /// what the file then holds after the last good record is unknown
+    broken: bool,
 
     type_crc: [u32; K_MAX_RECORD_TYPE + 1],
 }
@@ -34,11 +38,16 @@ impl LogWriter {
         Self {
             file_writer,
             block_offset: 0,
+            broken: false,
             type_crc,
         }
     }
 
     pub fn add_record(&mut self, slice: Slice) -> Result<()> {
+        if self.broken {
+            return Err(LevelError::io_error("log writer".into(), "an earlier write failed".into()));
+        }
+        self.broken = true;
         let mut left = slice.len();
         let mut begin = true;
         let mut start_idx = 0;
@@ -67,6 +76,7 @@ impl LogWriter {
             left -= fragment_length;
             start_idx += fragment_length;
         }
+        self.broken = false;
         Ok(())
     }
 
-- 
2.43.0


From a49cafd19de43a35cfbe5e4ed6a5780a089df257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:28 +0000
Subject: [PATCH 09/51] fix: log reader: read whole blocks and report the end
 of the log

A short read was taken for the end of the file and shifted all later block
boundaries, and at the end of the file the stale buffer was decoded again
instead of returning None.
---
 src/db/log_reader.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/db/log_reader.rs b/src/db/log_reader.rs
index 099240a..51e048a 100644
--- a/src/db/log_reader.rs
+++ b/src/db/log_reader.rs
@@ -1,5 +1,5 @@
 use std::fs::File;
-use std::io::{Read, Seek, Write};
+use std::io::{ErrorKind, Read, Seek, Write};
 use std::io::SeekFrom::Start;
 
 use crate::db::log_writer::{K_BLOCK_SIZE, K_FIRST_TYPE, K_FULL_TYPE, K_LAST_TYPE, K_MIDDLE_TYPE};
@@ -47,7 +47,11 @@ impl LogReader {
         let mut tmp: Option<Vec<u8>> = None;
         loop {
             if self.buf_read_idx >= self.buf_len {
+                if self.eof {
+                    return Ok(None);
+                }
                 self.read_buf()?;
+                continue;
             }
             let data_len = (self.buf[self.buf_read_idx + 4] as usize) + ((self.buf[self.buf_read_idx + 5] as usize) << 8);
             let record_type = self.buf[self.buf_read_idx + 6];
@@ -87,7 +91,15 @@ impl LogReader {
 
     fn read_buf(&mut self) -> Result<()> {
         self.buf_read_idx = 0;
-        self.buf_len = self.file_reader.read(self.buf.as_mut())?;
+        self.buf_len = 0;
+        while self.buf_len < K_BLOCK_SIZE {
+            match self.file_reader.read(&mut self.buf[self.buf_len..]) {
+                Ok(0) => break,
+                Ok(n) => self.buf_len += n,
+                Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+                Err(e) => return Err(e.into()),
+            }
+        }
         if self.buf_len < K_BLOCK_SIZE {
             self.eof = true;
         }
-- 
2.43.0


From 61692e2500d99b292070573d6b598f939a27e9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:28 +0000
Subject: [PATCH 10/51] fix: log reader: skip block trailers and check record
 lengths

A trailer of fewer than 7 bytes was decoded as a header, and a length
reaching past the block, as after a crash in mid-write, panicked.
---
 src/db/log_reader.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/db/log_reader.rs b/src/db/log_reader.rs
index 51e048a..0450dd8 100644
--- a/src/db/log_reader.rs
+++ b/src/db/log_reader.rs
@@ -2,7 +2,7 @@ use std::fs::File;
 use std::io::{ErrorKind, Read, Seek, Write};
 use std::io::SeekFrom::Start;
 
-use crate::db::log_writer::{K_BLOCK_SIZE, K_FIRST_TYPE, K_FULL_TYPE, K_LAST_TYPE, K_MIDDLE_TYPE};
+use crate::db::log_writer::{K_BLOCK_SIZE, K_HEADER_SIZE, K_FIRST_TYPE, K_FULL_TYPE, K_LAST_TYPE, K_MIDDLE_TYPE};
 use crate::util::coding::Decoder;
 use crate::util::crc::{AsCrc, CRC};
 use crate::util::Result;
@@ -46,7 +46,8 @@ impl LogReader {
     pub fn read_next(&mut self) -> Result<Option<Slice>> {
         let mut tmp: Option<Vec<u8>> = None;
         loop {
-            if self.buf_read_idx >= self.buf_len {
+            // a block trailer, or a header cut off at the end of the file
+            if self.buf_read_idx + K_HEADER_SIZE > self.buf_len {
                 if self.eof {
                     return Ok(None);
                 }
@@ -56,6 +57,14 @@ impl LogReader {
             let data_len = (self.buf[self.buf_read_idx + 4] as usize) + ((self.buf[self.buf_read_idx + 5] as usize) << 8);
             let record_type = self.buf[self.buf_read_idx + 6];
             self.buf_read_idx += 7;
+            if self.buf_read_idx + data_len > self.buf_len {
+                self.buf_read_idx = self.buf_len;
+                if self.eof {
+                    // the writer stopped in the middle of this record
+                    return Ok(None);
+                }
+                return Err(Status::wrapper(LevelError::KCorruption, "bad record length".into()));
+            }
             // CRC check
             self.check_crc(data_len)?;
             match record_type {
-- 
2.43.0


From 4723c45927f61c115206e18fe76c2e72d6bbcbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:28 +0000
Subject: [PATCH 11/51] fix: log reader: take exactly the fragment from the
 block

FIRST and MIDDLE fragments copied the whole buffer instead of their
payload and did not advance, so records spanning blocks could not be read.
---
 src/db/log_reader.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/db/log_reader.rs b/src/db/log_reader.rs
index 0450dd8..a01d1cf 100644
--- a/src/db/log_reader.rs
+++ b/src/db/log_reader.rs
@@ -76,11 +76,16 @@ impl LogReader {
                 }
                 K_FIRST_TYPE => {
                     tmp = Some(Vec::with_capacity(K_BLOCK_SIZE));
-                    let partial_data = &self.buf[self.buf_read_idx..];
+                    let end_idx = self.buf_read_idx + data_len;
+                    let partial_data = &self.buf[self.buf_read_idx..end_idx];
+                    self.buf_read_idx += data_len;
                     tmp.as_mut().unwrap().write(partial_data)?;
                 }
                 K_MIDDLE_TYPE => {
-                    tmp.as_mut().unwrap().write(self.buf.as_ref())?;
+                    let end_idx = self.buf_read_idx + data_len;
+                    let partial_data = &self.buf[self.buf_read_idx..end_idx];
+                    self.buf_read_idx += data_len;
+                    tmp.as_mut().unwrap().write(partial_data)?;
                 }
                 K_LAST_TYPE => {
                     let end_idx = self.buf_read_idx + data_len;
-- 
2.43.0


From 788bce7909e1eb92576d214eb7de36888ba291ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:28 +0000
Subject: [PATCH 12/51] fix: log reader: report fragments that do not form a
 record

A MIDDLE or LAST fragment without a FIRST one panicked, and a FULL or
FIRST fragment silently discarded an unfinished record.
---
 src/db/log_reader.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/db/log_reader.rs b/src/db/log_reader.rs
index a01d1cf..d2e3d8e 100644
--- a/src/db/log_reader.rs
+++ b/src/db/log_reader.rs
@@ -67,6 +67,15 @@ impl LogReader {
             }
             // CRC check
             self.check_crc(data_len)?;
+            if tmp.is_some() && (record_type == K_FULL_TYPE || record_type == K_FIRST_TYPE) {
+                // the record being assembled has no end; report it, then read this one
+                self.buf_read_idx -= K_HEADER_SIZE;
+                return Err(Status::wrapper(LevelError::KCorruption, "partial record without end".into()));
+            }
+            if tmp.is_none() && (record_type == K_MIDDLE_TYPE || record_type == K_LAST_TYPE) {
+                self.buf_read_idx += data_len;
+                return Err(Status::wrapper(LevelError::KCorruption, "missing start of fragmented record".into()));
+            }
             match record_type {
                 K_FULL_TYPE => {
                     let end_idx = self.buf_read_idx + data_len;
@@ -96,6 +105,7 @@ impl LogReader {
                     return Ok(Some(Slice::from_vec(data)));
                 }
                 _ => {
+                    self.buf_read_idx += data_len;
                     return Err(Status::wrapper(LevelError::KCorruption,
                                                format!("bad record_type: {}", record_type).into()));
                 }
-- 
2.43.0


From 46eeb986093ab5c5ac0771b1eab3019e0c5aaecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:28 +0000
Subject: [PATCH 13/51] fix: log reader: go on with the next block after a bad
 checksum

Decoding continued right behind the damaged header, that is inside the
payload, whose bytes could be taken for records.
---
 src/db/log_reader.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/db/log_reader.rs b/src/db/log_reader.rs
index d2e3d8e..60bcbdb 100644
--- a/src/db/log_reader.rs
+++ b/src/db/log_reader.rs
@@ -66,7 +66,11 @@ impl LogReader {
                 return Err(Status::wrapper(LevelError::KCorruption, "bad record length".into()));
             }
             // CRC check
-            self.check_crc(data_len)?;
+            if let Err(e) = self.check_crc(data_len) {
+                // the length cannot be trusted either: go on with the next block
+                self.buf_read_idx = self.buf_len;
+                return Err(e);
+            }
             if tmp.is_some() && (record_type == K_FULL_TYPE || record_type == K_FIRST_TYPE) {
                 // the record being assembled has no end; report it, then read this one
                 self.buf_read_idx -= K_HEADER_SIZE;
-- 
2.43.0


From 0bf370cde435ed3048b28cbb7778e5b888204df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:28 +0000
Subject: [PATCH 14/51] fix: log reader: start at the first record at or after
 initial_offset

Only whole blocks were skipped, so earlier records of the block were
returned, and the tail of a record from an earlier block was an error.
---
 src/db/log_reader.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/db/log_reader.rs b/src/db/log_reader.rs
index 60bcbdb..8443f63 100644
--- a/src/db/log_reader.rs
+++ b/src/db/log_reader.rs
@@ -12,7 +12,12 @@ use crate::util::status::{LevelError, Status};
 pub struct LogReader {
     file_reader: Box<dyn SeekableReader>,
     checksum: bool,
+    /// file position behind the buffered block
     read_pos: usize,
+    /// records starting before this offset are not returned
+    initial_offset: usize,
+    /// skipping the rest of a record that starts before initial_offset
+    resyncing: bool,
     eof: bool,
     buf: [u8; K_BLOCK_SIZE],
     buf_len: usize,
@@ -36,6 +41,8 @@ impl LogReader {
             file_reader,
             checksum,
             read_pos: block_start_location,
+            initial_offset,
+            resyncing: initial_offset > 0,
             eof: false,
             buf: [0; K_BLOCK_SIZE],
             buf_len: 0,
@@ -71,6 +78,14 @@ impl LogReader {
                 self.buf_read_idx = self.buf_len;
                 return Err(e);
             }
+            if self.resyncing {
+                let start = self.read_pos - self.buf_len + self.buf_read_idx - K_HEADER_SIZE;
+                if start < self.initial_offset || record_type == K_MIDDLE_TYPE || record_type == K_LAST_TYPE {
+                    self.buf_read_idx += data_len;
+                    continue;
+                }
+                self.resyncing = false;
+            }
             if tmp.is_some() && (record_type == K_FULL_TYPE || record_type == K_FIRST_TYPE) {
                 // the record being assembled has no end; report it, then read this one
                 self.buf_read_idx -= K_HEADER_SIZE;
@@ -128,6 +143,7 @@ impl LogReader {
                 Err(e) => return Err(e.into()),
             }
         }
+        self.read_pos += self.buf_len;
         if self.buf_len < K_BLOCK_SIZE {
             self.eof = true;
         }
-- 
2.43.0


From fe8aca1999ef0a10a1ab37c1edf59f85d3a254f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:28 +0000
Subject: [PATCH 15/51] fix: log reader: return seek errors and reread the
 block after a read error

new() panicked when the seek failed, and after a failed read the next call
decoded or skipped the part of the block that had been read before.
---
 src/db/log_reader.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/db/log_reader.rs b/src/db/log_reader.rs
index 8443f63..00a52aa 100644
--- a/src/db/log_reader.rs
+++ b/src/db/log_reader.rs
@@ -18,6 +18,8 @@ pub struct LogReader {
     initial_offset: usize,
     /// skipping the rest of a record that starts before initial_offset
     resyncing: bool,
+    /// whether the file is known to be positioned at read_pos
+    positioned: bool,
     eof: bool,
     buf: [u8; K_BLOCK_SIZE],
     buf_len: usize,
@@ -30,19 +32,19 @@ pub trait SeekableReader: Read + Seek {}
 impl SeekableReader for File {}
 
 impl LogReader {
-    pub fn new(mut file_reader: Box<dyn SeekableReader>, checksum: bool, initial_offset: usize) -> LogReader {
+    pub fn new(file_reader: Box<dyn SeekableReader>, checksum: bool, initial_offset: usize) -> LogReader {
         let offset_in_block = initial_offset % K_BLOCK_SIZE;
         let mut block_start_location = initial_offset - offset_in_block;
         if offset_in_block > K_BLOCK_SIZE - 6 {
             block_start_location += K_BLOCK_SIZE;
         }
-        file_reader.seek(Start(block_start_location as u64)).expect("seek to initial_offset");
         Self {
             file_reader,
             checksum,
             read_pos: block_start_location,
             initial_offset,
             resyncing: initial_offset > 0,
+            positioned: false,
             eof: false,
             buf: [0; K_BLOCK_SIZE],
             buf_len: 0,
@@ -135,14 +137,23 @@ impl LogReader {
     fn read_buf(&mut self) -> Result<()> {
         self.buf_read_idx = 0;
         self.buf_len = 0;
+        if !self.positioned {
+            self.file_reader.seek(Start(self.read_pos as u64))?;
+        }
+        self.positioned = false;
         while self.buf_len < K_BLOCK_SIZE {
             match self.file_reader.read(&mut self.buf[self.buf_len..]) {
                 Ok(0) => break,
                 Ok(n) => self.buf_len += n,
                 Err(e) if e.kind() == ErrorKind::Interrupted => continue,
-                Err(e) => return Err(e.into()),
+                Err(e) => {
+                    // the next call reads this block again
+                    self.buf_len = 0;
+                    return Err(e.into());
+                }
             }
         }
+        self.positioned = true;
         self.read_pos += self.buf_len;
         if self.buf_len < K_BLOCK_SIZE {
             self.eof = true;
-- 
2.43.0


From d837fa23aed8dee41e017bef8d2041d84f4fd3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:22 +0000
Subject: [PATCH 16/51] fix: cache: unlink the removed chain head from its
 successor

The successor kept a pointer to the freed head, so removing it later wrote
to freed memory and left it reachable in the chain.
---
 src/util/cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index e15d7de..acf90cd 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -220,7 +220,7 @@ impl<T> HandleTable<T> {
                     // 是头节点, 将头节点移交至下一节点
                     self.list[index] = handle_mut.next_hash;
                     // 下一节点的prev_hash要置空
-                    handle_mut.prev_hash = None;
+                    unsafe { handle_mut.next_hash.unwrap().as_mut() }.prev_hash = None;
                 } else {
                     // 是其余中间节点或尾节点, 删除当前节点并将下一节点移交给上一节点
                     let prev_hash_ptr = unsafe { handle_mut.prev_hash.unwrap().as_mut() };
-- 
2.43.0


From 23e3efaa70d68709c2777741848c793614a8c9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:22 +0000
Subject: [PATCH 17/51] fix: cache: release a handle only after its last use

remove() freed the handle and its callers went on using it to unlink it
from the eviction list and to read its charge.
---
 src/util/cache.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index acf90cd..707e1e8 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -204,7 +204,7 @@ impl<T> HandleTable<T> {
         Ok(())
     }
 
-    /// 从hash表中删除数据, 并回收内存
+    /// 从hash表中删除数据, 由调用者回收内存
     pub fn remove(&mut self, key: &Slice, hash: u32) -> Result<Option<HandleRef<T>>> {
         let index = self.find_index(hash);
         let mut head = self.list[index];
@@ -231,8 +231,6 @@ impl<T> HandleTable<T> {
                         next_hash_ptr.prev_hash = handle_mut.prev_hash;
                     }
                 }
-                // 回收内存
-                Self::drop_handle(handle.as_ptr());
                 self.elements -= 1;
                 return Ok(Some(handle));
             }
@@ -351,7 +349,7 @@ impl<T> HandleTable<T> {
     }
 
     /// 将裸指针包装回Box并回收
-    /// 只能在hash表删除后回收内存, 在其他位置回收内存可能会double free, 或其他未定义行为
+    /// 只能在hash表和lru链表都删除后回收内存, 在其他位置回收内存可能会double free, 或其他未定义行为
     #[inline]
     fn drop_handle(handle_ptr: *mut LRUHandle<T>) {
         // 将指针包装回box, box会在作用域结束之后自动drop掉
@@ -428,8 +426,10 @@ impl<T> LRUCache<T> {
                 let tail_ref = unsafe { tail.as_ref() };
                 // 先删除lru链表尾
                 self.lru_remove(tail)?;
-                // 于从hash表中删除链表尾, 同时回收内存
+                // 于从hash表中删除链表尾
                 self.table.remove(&tail_ref.key, tail_ref.hash)?;
+                // 回收内存
+                HandleTable::drop_handle(tail.as_ptr());
             }
         }
 
@@ -457,12 +457,14 @@ impl<T> LRUCache<T> {
     /// 从lru缓存中删除数据, 同时回收内存
     pub fn erase(&mut self, key: &Slice, hash: u32) -> Result<usize> {
         let mut charge = 0;
-        // 先从hash表中删除, 同时回收内存
+        // 先从hash表中删除
         let removed_handle = self.table.remove(key, hash)?;
         if let Some(removed) = removed_handle {
             // 再删除lru链表中的数据
             self.lru_remove(removed)?;
             charge = unsafe { removed.as_ref().charge };
+            // 回收内存
+            HandleTable::drop_handle(removed.as_ptr());
         }
 
         // 返回删除了多少数据量
-- 
2.43.0


From 8eac4cf801cde8eaa2ce14b7eb0fc65008f8cab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:22 +0000
Subject: [PATCH 18/51] fix: cache: inserting an existing key replaces its
 entry

The old entry stayed in the cache: it was counted, came back when the new
one was removed, and evicting it removed the new one from the hash table
in its place.
---
 src/util/cache.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index 707e1e8..7b9e2ea 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -408,6 +408,8 @@ impl<T> LRUCache<T> {
     ///
     /// ```
     pub fn insert(&mut self, key: Slice, hash: u32, value: T, charge: usize) -> Result<()> {
+        // key已存在时, 新值替换旧值
+        self.erase(&key, hash)?;
         let handle = LRUHandle::new_on_heap(
             key.clone(),
             value,
-- 
2.43.0


From d96a94bb399b19dbc9cdd9f6ec9345cab3919298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:22 +0000
Subject: [PATCH 19/51] fix: cache: evict until the shard is below its capacity

Only one entry was evicted per insertion, so a large charge could leave
the shard over its capacity.
---
 src/util/cache.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index 7b9e2ea..e446b05 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -423,7 +423,7 @@ impl<T> LRUCache<T> {
         self.usage += charge;
 
         // 使用量已经达到容量, 那么删除最少使用的
-        if self.usage >= self.capacity {
+        while self.usage >= self.capacity {
             if let Some(tail) = self.tail_of_lru {
                 let tail_ref = unsafe { tail.as_ref() };
                 // 先删除lru链表尾
@@ -432,6 +432,8 @@ impl<T> LRUCache<T> {
                 self.table.remove(&tail_ref.key, tail_ref.hash)?;
                 // 回收内存
                 HandleTable::drop_handle(tail.as_ptr());
+            } else {
+                break;
             }
         }
 
-- 
2.43.0


From ce9d01f5e6676822ac2db5bef9ba80e9f376bd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:22 +0000
Subject: [PATCH 20/51] fix: cache: release every entry on prune and on drop

prune() released only the first entry of each hash chain, and dropping the
cache released none.
---
 src/util/cache.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index e446b05..1649daa 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -1,4 +1,4 @@
-use std::{ptr, thread, usize};
+use std::{mem, ptr, thread, usize};
 use std::fmt::Debug;
 use std::marker::PhantomData;
 use std::ops::Deref;
@@ -242,16 +242,24 @@ impl<T> HandleTable<T> {
 
     /// 清空hash表 并回收内存
     pub fn prune(&mut self) {
-        for handle in self.list.iter().filter(|v| v.is_some()) {
-            // 回收内存
-            Self::drop_handle(handle.unwrap().as_ptr());
-        }
         // 清空list恢复内存
-        self.list.clear();
+        let list = mem::take(&mut self.list);
         self.elements = 0;
         // 恢复到初始的默认容量
         self.list.resize(self.default_length, None);
         self.length = self.default_length;
+        Self::drop_list(list);
+    }
+
+    /// 回收hash槽中全部链表的内存
+    fn drop_list(list: Vec<Option<HandleRef<T>>>) {
+        for mut head in list {
+            while let Some(handle) = head {
+                head = unsafe { handle.as_ref() }.next_hash;
+                // 回收内存
+                Self::drop_handle(handle.as_ptr());
+            }
+        }
     }
 
     /// 获取hash表的长度
@@ -357,6 +365,13 @@ impl<T> HandleTable<T> {
     }
 }
 
+impl<T> Drop for HandleTable<T> {
+    /// 回收仍在缓存中的数据
+    fn drop(&mut self) {
+        Self::drop_list(mem::take(&mut self.list));
+    }
+}
+
 struct LRUCache<T> {
     // hash表, 用于存放缓存数据
     table: HandleTable<T>,
@@ -477,13 +492,13 @@ impl<T> LRUCache<T> {
 
     /// 清空lru缓存, 同时回收内存
     pub fn prune(&mut self) -> Result<()> {
-        // hash表清空, 回收内存
-        self.table.prune();
         // lru头尾指针置空
         self.head_of_lru = None;
         self.tail_of_lru = None;
         // 使用量归零
         self.usage = 0;
+        // hash表清空, 回收内存
+        self.table.prune();
         Ok(())
     }
 
-- 
2.43.0


From c8e20c8d3c28de794bea668ea2006c50d6f1f65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:49 +0000
Subject: [PATCH 21/51] fix: arena: allow an empty allocation from a new arena

allocate(0) took the fast path before the first block existed and panicked.
---
 src/util/arena.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/arena.rs b/src/util/arena.rs
index d239b48..ff2718f 100644
--- a/src/util/arena.rs
+++ b/src/util/arena.rs
@@ -56,7 +56,7 @@ impl Arena {
     }
 
     pub fn allocate_align(&mut self, bytes: usize, align: usize) -> &mut [u8] {
-        if bytes <= self.alloc_bytes_remaining {
+        if bytes <= self.alloc_bytes_remaining && self.alloc_ptr.is_some() {
             self.alloc_bytes_remaining -= bytes;
             let result = unsafe { slice::from_raw_parts_mut(self.alloc_ptr.unwrap().as_ptr(), bytes) };
             unsafe {
-- 
2.43.0


From b862ea354e0bc1db9c5bd16ce380416a57aa80b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:49 +0000
Subject: [PATCH 22/51] fix: arena: report a failed system allocation

A null pointer was recorded as a block and handed out.
---
 src/util/arena.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/arena.rs b/src/util/arena.rs
index ff2718f..91f06c0 100644
--- a/src/util/arena.rs
+++ b/src/util/arena.rs
@@ -1,5 +1,5 @@
 use std::slice;
-use std::alloc::{alloc, dealloc, Layout};
+use std::alloc::{alloc, dealloc, handle_alloc_error, Layout};
 use std::ptr::NonNull;
 use std::sync::{Arc, Mutex};
 
@@ -96,6 +96,9 @@ impl Arena {
     fn allocate_new_block(&mut self, layout: Layout) -> &mut [u8] {
         unsafe {
             let data = alloc(layout);
+            if data.is_null() {
+                handle_alloc_error(layout);
+            }
             self.memory_usage += layout.size();
             self.blocks.push((NonNull::new_unchecked(data), layout));
             slice::from_raw_parts_mut(data, layout.size())
-- 
2.43.0


From 562f8e9e0640b2d05deacc7f1a1bd3003925a40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:49 +0000
Subject: [PATCH 23/51] fix: arena: do not let a Slice free arena memory

copy_with_arena returned a Slice whose Vec pointed into the arena, so
dropping it passed an address inside a block to the allocator.
---
 src/util/arena.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/util/arena.rs b/src/util/arena.rs
index 91f06c0..09185a5 100644
--- a/src/util/arena.rs
+++ b/src/util/arena.rs
@@ -119,12 +119,11 @@ impl Drop for Arena {
 
 impl ArenaAllocLike for Slice {
     fn copy_with_arena(&self, arena: ArenaRef) -> Self {
-        unsafe {
-            let mut lock_guard = arena.lock().unwrap();
-            let dst = lock_guard.allocate(self.len());
-            let src = &**self;
-            dst.copy_from_slice(src);
-            Slice::from_raw_parts(dst.as_mut_ptr(), self.len())
-        }
+        let mut lock_guard = arena.lock().unwrap();
+        let dst = lock_guard.allocate(self.len());
+        let src = &**self;
+        dst.copy_from_slice(src);
+        // Slice 会释放自己的内存, 不能直接指向 arena
+        Slice::from_buf(dst)
     }
 }
\ No newline at end of file
-- 
2.43.0


From 56e9c30b5f13e21bfedc42c4f0316fbe8784742f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:49 +0000
Subject: [PATCH 24/51] fix: unsafe slice: refer to the bytes copied into the
 arena

Writing through the slice advanced it, so the result was always the empty
slice behind the copied bytes.
---
 src/util/unsafe_slice.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/util/unsafe_slice.rs b/src/util/unsafe_slice.rs
index c48d2bb..b280f0f 100644
--- a/src/util/unsafe_slice.rs
+++ b/src/util/unsafe_slice.rs
@@ -1,6 +1,5 @@
 use std::alloc::{alloc, Layout};
 use std::fmt::{Display, Formatter};
-use std::io::Write;
 use std::mem::ManuallyDrop;
 
 use crate::util::arena::ArenaRef;
@@ -27,8 +26,8 @@ impl UnsafeSlice {
     pub fn new_with_arena<B: AsRef<[u8]>>(data: B, arena: ArenaRef) -> Result<Self> {
         let mut lock = arena.lock()?;
         let src = data.as_ref();
-        let mut buf = lock.allocate(src.len());
-        buf.write(src)?;
+        let buf = lock.allocate(src.len());
+        buf.copy_from_slice(src);
         Ok(Self {
             ptr: buf.as_mut_ptr(),
             len: buf.len(),
-- 
2.43.0


From 705b312774e73336c8e89f22d8caa99c2bc77487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:49 +0000
Subject: [PATCH 25/51] fix: unsafe slice: copy the bytes in to_slice, allow a
 suffix in sub_slice

to_slice returned uninitialised memory, allocated with another alignment
than it is released with.
---
 src/util/unsafe_slice.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/util/unsafe_slice.rs b/src/util/unsafe_slice.rs
index b280f0f..906ae80 100644
--- a/src/util/unsafe_slice.rs
+++ b/src/util/unsafe_slice.rs
@@ -1,4 +1,3 @@
-use std::alloc::{alloc, Layout};
 use std::fmt::{Display, Formatter};
 use std::mem::ManuallyDrop;
 
@@ -53,7 +52,7 @@ impl UnsafeSlice {
 
     /// 返回子串。这个方法是高效的，在内部只复制了裸指针偏的移量。
     pub unsafe fn sub_slice(&self, start: usize, len: usize) -> Self {
-        assert!(start + len < self.len, "sub_slice out of range");
+        assert!(start + len <= self.len, "sub_slice out of range");
         Self {
             ptr: self.ptr.offset(start as isize),
             len,
@@ -63,10 +62,7 @@ impl UnsafeSlice {
     /// 生成 Slice 串，由于 Slice 是内存安全的，所以实现上会有内存拷贝。
     /// 高性能场景优先考虑 UnsafeSlice
     pub fn to_slice(&self) -> Slice {
-        unsafe {
-            let raw_ptr = alloc(Layout::from_size_align_unchecked(self.len, 8));
-            Slice::from_raw_parts(raw_ptr, self.len)
-        }
+        Slice::from_buf(self.as_ref())
     }
 }
 
-- 
2.43.0


From dd628c9de42c1a7063991bf27eba42f33f09b158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:49 +0000
Subject: [PATCH 26/51] fix: skip list: the arena does not align the successor
 arrays

They lie wherever the bump pointer is; ptr::read and ptr::write require
aligned addresses.
---
 src/db/skip_list.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index 1bc28f2..de7dc5b 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -342,13 +342,13 @@ impl Node {
     #[must_use]
     unsafe fn get_node(&self, level: usize) -> RawNode {
         assert!(level < MAX_LEVEL);
-        self.next_elems.offset(level as isize).read()
+        self.next_elems.offset(level as isize).read_unaligned()
     }
 
     #[inline]
     unsafe fn set_node(&mut self, level: usize, node: RawNode) {
         assert!(level < MAX_LEVEL);
-        self.next_elems.offset(level as isize).write(node);
+        self.next_elems.offset(level as isize).write_unaligned(node);
     }
 
     /// 找到最后一个数据元素
-- 
2.43.0


From 851a16f6bc5c4f9dc08222917d14e3fc3173bc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:49 +0000
Subject: [PATCH 27/51] fix: skip list: link the head of an empty list to its
 tail

The successors of the head were uninitialised until the first insertion,
so iterating over an empty list followed wild pointers.
---
 src/db/skip_list.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index de7dc5b..af3c778 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -52,11 +52,16 @@ pub struct Iter<Cmp: Comparator> {
 
 impl<Cmp: Comparator> SkipList<Cmp> {
     pub fn create(comparator: Arc<Cmp>, arena: ArenaRef) -> Self {
+        let head = Node::create_head(arena.clone());
+        let tail = Node::create_tail();
+        for l in 0..MAX_LEVEL {
+            unsafe { (&mut *head).set_node(l, tail) };
+        }
         Self {
             height: 0,
             num: 0,
-            head: Node::create_head(arena.clone()),
-            tail: Node::create_tail(),
+            head,
+            tail,
             cmp: comparator,
             arena,
         }
-- 
2.43.0


From c2a8bf05edf5aed22dbe47fc2de1cb2777e2a1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:49 +0000
Subject: [PATCH 28/51] fix: skip list: an iterator is valid on an entry, not
 off it

---
 src/db/skip_list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index af3c778..9d7a775 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -444,7 +444,7 @@ impl<Cmp: Comparator> DataIterator for Iter<Cmp> {
     #[inline]
     fn valid(&self) -> bool {
         unsafe {
-            (&*self.current).is_head_or_tail()
+            !(&*self.current).is_head_or_tail()
         }
     }
 
-- 
2.43.0


From 4f15130a24cde41cd3eb17c1dd348ff0fe4bdc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:49 +0000
Subject: [PATCH 29/51] fix: skip list: find the last entry from the head, down
 to level 0

The search followed only the top level of each node, and began at the
current node, so it stopped before lower nodes and failed on the tail.
---
 src/db/skip_list.rs | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index 9d7a775..f1e2554 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -356,26 +356,20 @@ impl Node {
         self.next_elems.offset(level as isize).write_unaligned(node);
     }
 
-    /// 找到最后一个数据元素
+    /// 从头节点开始找到最后一个数据元素
     unsafe fn seek_to_last(&self) -> Option<RawNode> {
-        if self.is_tail() {
-            return None;
-        }
         let mut pre = self;
-        let mut cur = &*self.next_top_node();
-        loop {
-            if cur.is_tail() {
-                return Some(pre as *const Node as *mut Node);
+        for level in (0..MAX_LEVEL).rev() {
+            let mut cur = &*pre.get_node(level);
+            while !cur.is_tail() {
+                pre = cur;
+                cur = &*cur.get_node(level);
             }
-            pre = cur;
-            cur = &*cur.next_top_node();
         }
-    }
-
-    /// 找到最上层的下一个元素
-    #[inline]
-    unsafe fn next_top_node(&self) -> RawNode {
-        self.get_node(self.level - 1)
+        if pre.is_head() {
+            return None;
+        }
+        Some(pre as *const Node as *mut Node)
     }
 }
 
@@ -458,7 +452,7 @@ impl<Cmp: Comparator> DataIterator for Iter<Cmp> {
     #[inline]
     fn seek_to_last(&mut self) {
         unsafe {
-            self.current = (&*self.current).seek_to_last().unwrap_or(self.tail)
+            self.current = (&*self.head).seek_to_last().unwrap_or(self.tail)
         }
     }
 
-- 
2.43.0


From e37887b0b6c76abda423e2b267865374e1b277c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:23 +0000
Subject: [PATCH 30/51] fix: skip list: link a node only after all comparisons
 have succeeded

A comparison failing at a lower level returned an error but left the node
linked on the levels above, where its lower successors were never set.
---
 src/db/skip_list.rs | 47 +++++++++++++--------------------------------
 1 file changed, 13 insertions(+), 34 deletions(-)

diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index f1e2554..ebba3f6 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -106,44 +106,21 @@ impl<Cmp: Comparator> SkipList<Cmp> {
         let node_height = rand_level();
         let node_top_level = node_height - 1;
         debug!("insert {}, level: {}", &key, node_height);
-        let node_ptr = Node::create(key, node_height, self.arena.clone());
-        let node = unsafe { &mut *node_ptr };
+        // predecessors on each level; nothing is linked before all comparisons have succeeded
+        let mut prevs = [self.head; MAX_LEVEL];
         // loop from highest level to 0
         for l in (0..self.height).rev() {
             'inner_loop: loop {
                 let ele_ptr = unsafe { (&*current).get_node(l) };
                 let ele = unsafe { &mut *ele_ptr };
                 if ele.is_tail() {
-                    if l <= node_top_level {
-                        // ele is tail node, add node to last
-                        (&mut *current).set_node(l, node_ptr);
-                        node.set_node(l, self.tail);
-                        debug!("bind: {} before: {}, after: <tail>, at level: {}",
-                                        node.key.unwrap(),
-                                        (&*current).key.unwrap(),
-                                        l);
-                    }
+                    // ele is tail node, add node to last
+                    prevs[l] = current;
                     break 'inner_loop;
                 } else {
-                    match self.cmp.compare(node.key.unwrap().as_ref(), ele.key.unwrap().as_ref()) {
+                    match self.cmp.compare(key.as_ref(), ele.key.unwrap().as_ref()) {
                         Some(Ordering::Less) => {
-                            // node higher than current level at ele
-                            if node_top_level >= l {
-                                (&mut *current).set_node(l, node_ptr);
-                                node.set_node(l, ele_ptr);
-                                if (&*current).is_head() {
-                                    debug!("bind: {} before: <head>, after: {}, at level: {}",
-                                        node.key.unwrap(),
-                                        ele.key.unwrap(),
-                                        l);
-                                } else {
-                                    debug!("bind: {} before: {}, after: {}, at level: {}",
-                                        node.key.unwrap(),
-                                        (&*current).key.unwrap(),
-                                        ele.key.unwrap(),
-                                        l);
-                                }
-                            }
+                            prevs[l] = current;
                             break 'inner_loop;
                         }
                         Some(Ordering::Greater) => {
@@ -160,12 +137,14 @@ impl<Cmp: Comparator> SkipList<Cmp> {
                 }
             }
         }
-        // if head level is less than new node, then fix head node height
+        let node_ptr = Node::create(key, node_height, self.arena.clone());
+        let node = unsafe { &mut *node_ptr };
+        for l in (0..=node_top_level).rev() {
+            // above the current height the predecessor is head, and its successor is tail
+            node.set_node(l, (&*prevs[l]).get_node(l));
+            (&mut *prevs[l]).set_node(l, node_ptr);
+        }
         if self.height < node_height {
-            for l in (self.height()..node_height).rev() {
-                (&mut *self.head).set_node(l, node_ptr);
-                node.set_node(l, self.tail);
-            }
             self.height = node_height;
         }
         self.num += 1;
-- 
2.43.0


From 9a37b46424ea421a8071fe31fc758ea0906669d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:23 +0000
Subject: [PATCH 31/51] fix: skip list: release the nodes on drop

The nodes are boxed and were never released.
---
 src/db/skip_list.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index ebba3f6..ed427c6 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -239,6 +239,21 @@ impl<Cmp: Comparator> SkipList<Cmp> {
     }
 }
 
+impl<Cmp: Comparator> Drop for SkipList<Cmp> {
+    /// 释放全部节点. next_elems 与 key 的内存由 arena 释放
+    fn drop(&mut self) {
+        unsafe {
+            let mut current = self.head;
+            while !(&*current).is_tail() {
+                let next = (&*current).get_node(0);
+                drop(Box::from_raw(current));
+                current = next;
+            }
+            drop(Box::from_raw(self.tail));
+        }
+    }
+}
+
 impl<Cmp: Comparator> ToString for SkipList<Cmp> {
     fn to_string(&self) -> String {
         let mut tree = String::with_capacity(1024);
-- 
2.43.0


From afef26aa4150142f2b8e8a0956af5e21f2f7cffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:23 +0000
Subject: [PATCH 32/51] fix: memtable: store the value length the entry is
 sized for

The value was not length-prefixed although room for it was counted, and
the key length was counted without the 8 bytes of the tag.
---
 src/db/mem_table.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/db/mem_table.rs b/src/db/mem_table.rs
index 0a8c5b0..e12d164 100644
--- a/src/db/mem_table.rs
+++ b/src/db/mem_table.rs
@@ -70,7 +70,7 @@ impl<Cmp: Comparator> MemTable<Cmp> {
         let key_size = key_buf.len();
         let value_size = value_buf.len();
         let internal_key_size = key_size + 8;
-        let encoded_len = varint_length(key_size as u64)
+        let encoded_len = varint_length(internal_key_size as u64)
             + internal_key_size
             + varint_length(value_size as u64)
             + value_size;
@@ -85,6 +85,8 @@ impl<Cmp: Comparator> MemTable<Cmp> {
             encoder.uncheck_put_buf(key_buf);
             // write seq_no and type
             encoder.uncheck_put_fixed64((seq_no << 8 | v_type.get_value()) as u64);
+            // write value size
+            encoder.uncheck_put_varint32(value_size as u32);
             // write value slice
             encoder.uncheck_put_buf(value_buf);
         }
-- 
2.43.0


From e7e7d0525ed8d203c92c3347f2bafc320a6018a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:23 +0000
Subject: [PATCH 33/51] fix: memtable: do not hold the arena lock while copying
 into the arena

add() kept the arena locked and then called new_with_arena, which locks it
again, so every addition blocked forever. The entry is now encoded in a
temporary buffer and copied into the arena once.
---
 src/db/mem_table.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/db/mem_table.rs b/src/db/mem_table.rs
index e12d164..693c62f 100644
--- a/src/db/mem_table.rs
+++ b/src/db/mem_table.rs
@@ -74,9 +74,8 @@ impl<Cmp: Comparator> MemTable<Cmp> {
             + internal_key_size
             + varint_length(value_size as u64)
             + value_size;
-        let mut lock = self.arena.lock()?;
-        let buf = lock.allocate(encoded_len);
-        let mut encoder = Encoder::with_buf(buf);
+        let mut buf = vec![0_u8; encoded_len];
+        let mut encoder = Encoder::with_buf(&mut buf);
         // 需要保证写入的数据不会超过buf.len(), 否则溢出
         unsafe {
             // write key size
-- 
2.43.0


From bc4052b94c8d560a6c3463bd349c76eb78cc0de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:58 +0000
Subject: [PATCH 34/51] fix: cache: sum charges without overflow

---
 src/util/cache.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index 1649daa..4468fec 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -377,8 +377,8 @@ struct LRUCache<T> {
     table: HandleTable<T>,
     // cache的容量
     capacity: usize,
-    // cache的当前使用量, 使用量超过容量会进行扩容
-    usage: usize,
+    // cache的当前使用量, 使用量超过容量会进行扩容. 使用u128, 累加charge时不会溢出
+    usage: u128,
     // lru链表的头指针, 最近使用的
     head_of_lru: Option<HandleRef<T>>,
     // lru链表的尾指针, 最先被删除
@@ -435,10 +435,10 @@ impl<T> LRUCache<T> {
         // 插入lru
         self.lru_append(handle)?;
         // 使用量加上写入的value的长度或者数据大小
-        self.usage += charge;
+        self.usage += charge as u128;
 
         // 使用量已经达到容量, 那么删除最少使用的
-        while self.usage >= self.capacity {
+        while self.usage >= self.capacity as u128 {
             if let Some(tail) = self.tail_of_lru {
                 let tail_ref = unsafe { tail.as_ref() };
                 // 先删除lru链表尾
@@ -505,7 +505,8 @@ impl<T> LRUCache<T> {
     /// 获取当前缓存的数据量
     #[inline]
     pub fn total_charge(&self) -> usize {
-        self.usage
+        // 插入完成后使用量总是小于容量
+        self.usage as usize
     }
 
     /// 获取当前hash表的槽位数
@@ -568,7 +569,7 @@ impl<T> LRUCache<T> {
         }
 
         // 使用量
-        self.usage -= handle_mut.charge;
+        self.usage -= handle_mut.charge as u128;
 
         // 删除后, 标记数据已经不在缓存中
         handle_mut.in_cache = false;
-- 
2.43.0


From 2d3c11d1f4b2f6183e64018f6bcf04622f4881f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:11 +0000
Subject: [PATCH 35/51] fix: cache: share of a capacity near the largest

---
 src/util/cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index 4468fec..05f3c30 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -636,7 +636,7 @@ fn shard(hash: u32) -> usize {
 
 #[inline]
 fn pre_shard(capacity: usize) -> usize {
-    (capacity + (K_NUM_SHARDS - 1)) / K_NUM_SHARDS
+    capacity / K_NUM_SHARDS + (capacity % K_NUM_SHARDS != 0) as usize
 }
 
 /// 所有权可以多线程传递
-- 
2.43.0


From 7600b557107ee2fa574842ffa4cf0ff29bffeb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:10 +0000
Subject: [PATCH 36/51] fix: coding: allocate a read slice as it is released

---
 src/util/coding.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/util/coding.rs b/src/util/coding.rs
index 4fe7ee0..f57b0aa 100644
--- a/src/util/coding.rs
+++ b/src/util/coding.rs
@@ -1,5 +1,4 @@
-use std::{intrinsics, ptr};
-use std::alloc::{alloc, Layout};
+use std::{ptr, slice};
 use std::ops::Deref;
 
 use crate::util::coding::EncodeData::{Buffer, Slices, Vector};
@@ -429,12 +428,8 @@ unsafe fn uncheck_write_buf(data: &mut MutEncodeData, offset: usize, buf: &[u8])
 /// ```
 unsafe fn uncheck_read_buf(data: &EncodeData, offset: usize, len: usize) -> Slice {
     let ptr: *const u8 = get_ptr!(data).add(offset);
-    // 分配一块内存长度为buf的长度
-    let dst: *mut u8 = alloc(Layout::from_size_align_unchecked(len, 4));
-    // 将数据拷贝到这块内存上
-    intrinsics::copy_nonoverlapping(ptr, dst, len);
-    // 使用slice包装内存
-    Slice::from_raw_parts(dst, len)
+    // 拷贝到slice自己分配的内存中, slice会按u8的布局释放内存
+    Slice::from_buf(slice::from_raw_parts(ptr, len))
 }
 
 /// 编码的数据 只读的
-- 
2.43.0


From 098097d2222f1afcc850cf921c2e7dd08f7ddd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 37/51] fix: coding: refuse a varint that does not end

---
 src/util/coding.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/util/coding.rs b/src/util/coding.rs
index f57b0aa..431d0aa 100644
--- a/src/util/coding.rs
+++ b/src/util/coding.rs
@@ -952,6 +952,14 @@ macro_rules! get_varint {
             check_length!(self.offset, self.limit);
             // 调用解码方法
             let res = unsafe { $var_name(&self.data, self.offset, self.limit) };
+            // 最后读取的字节仍有后续标记, 说明数据不完整
+            let data = &self.data;
+            if unsafe { ptr::read(get_ptr!(data).add(res.1 - 1)) } & 128 != 0 {
+                return Err(LevelError::invalid_argument(
+                    Slice::from("varint is incomplete"),
+                    Slice::from(format!("offset = {}, limit = {}", self.offset, self.limit))
+                ));
+            }
             self.offset = res.1;
             Ok(res.0)
         }
-- 
2.43.0


From f1bd3ff625fca6eba0e180193108ad06ba073e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 38/51] fix: coding: check lengths without overflow

---
 src/util/coding.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/coding.rs b/src/util/coding.rs
index 431d0aa..2333219 100644
--- a/src/util/coding.rs
+++ b/src/util/coding.rs
@@ -118,7 +118,7 @@ macro_rules! get_ptr {
 macro_rules! check_length {
     ($offset: expr, $write_len: expr, $data_len: expr, write) => {
         // 偏移量 + 写入长度 >= 容器的长度时, 会抛出异常
-        if $offset + $write_len > $data_len {
+        if $offset.checked_add($write_len).map_or(true, |end| end > $data_len) {
             return Err(LevelError::invalid_argument(
                 Slice::from("offset + write_len must < data_len"),
                 Slice::from(format!("offset = {}, write_len = {}, data_len = {}", $offset, $write_len, $data_len))));
@@ -135,7 +135,7 @@ macro_rules! check_length {
     };
     ($offset: expr, $read_len: expr, $limit: expr, read) => {
         // 偏移量 + 读取长度 >= 容器的长度时, 会抛出异常
-        if $offset + $read_len > $limit {
+        if $offset.checked_add($read_len).map_or(true, |end| end > $limit) {
             return Err(LevelError::invalid_argument(
                 Slice::from("offset + read_len must < limit"),
                 Slice::from(format!("offset = {}, read_len = {}, limit = {}", $offset, $read_len, $limit))
-- 
2.43.0


From 888d0f0cfe6b98bb24163e9532d4ec06066efd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 39/51] fix: coding: get_buf moves past what it read

---
 src/util/coding.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/coding.rs b/src/util/coding.rs
index 2333219..45fc11b 100644
--- a/src/util/coding.rs
+++ b/src/util/coding.rs
@@ -1126,10 +1126,10 @@ impl<'a> Decoder<'a> {
     ///  // [1, 2, 3]
     ///  let buf = decoder.get_buf(3)?;
     /// ```
-    pub fn get_buf(&self, len: usize) -> Result<Slice> {
+    pub fn get_buf(&mut self, len: usize) -> Result<Slice> {
         check_length!(self.offset, len, self.limit, read);
         unsafe {
-            Ok(uncheck_read_buf(&self.data, self.offset, len))
+            Ok(self.uncheck_get_buf(len))
         }
     }
 
-- 
2.43.0


From 7e5fb4da6c65a2abc382b3620407e849eb125f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 40/51] fix: coding: a refused length-prefixed slice leaves the
 position

---
 src/util/coding.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/util/coding.rs b/src/util/coding.rs
index 45fc11b..45e2eee 100644
--- a/src/util/coding.rs
+++ b/src/util/coding.rs
@@ -801,6 +801,9 @@ impl<'a> Encoder<'a> {
     ///  encoder.put_length_prefixed_slice(&slice)?;
     /// ```
     pub fn put_length_prefixed_slice(&mut self, slice: &Slice) -> Result<()> {
+        // 长度与数据一起检查, 空间不足时不写入
+        let length = varint_length(slice.size() as u64) + slice.size();
+        if let MutVector(_) = self.data {} else { check_length!(self.offset, length, self.len(), write) };
         self.put_varint32(slice.size() as u32)?;
         self.put_buf(slice)?;
         Ok(())
@@ -1075,10 +1078,14 @@ impl<'a> Decoder<'a> {
     ///  let slice = decoder.get_length_prefixed_slice()?;
     /// ```
     pub fn get_length_prefixed_slice(&mut self) -> Result<Slice> {
-        check_length!(self.offset, self.limit);
-        let size = unsafe { self.uncheck_get_varint32() } as usize;
-        check_length!(self.offset, size, self.limit, read);
-        unsafe { Ok(self.uncheck_get_buf(size)) }
+        let start = self.offset;
+        let size = self.get_varint32()? as usize;
+        let slice = self.get_buf(size);
+        if slice.is_err() {
+            // 读取失败时偏移量不移动
+            self.offset = start;
+        }
+        slice
     }
 
     /// 获取buf 不检查长度
-- 
2.43.0


From 8890b416d3bd6b43cf2cece02255ee8fbb9b69a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 41/51] fix: linked list: release the nodes on drop

---
 src/util/linked_list.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/util/linked_list.rs b/src/util/linked_list.rs
index 8ffb8e6..28649ec 100644
--- a/src/util/linked_list.rs
+++ b/src/util/linked_list.rs
@@ -250,6 +250,16 @@ impl<T> Default for LinkedList<T> {
     }
 }
 
+impl<T> Drop for LinkedList<T> {
+    /// 释放所有节点
+    fn drop(&mut self) {
+        while let Some(node) = self.head {
+            let node = unsafe { Box::from_raw(node.as_ptr()) };
+            self.head = node.next;
+        }
+    }
+}
+
 impl<T> LinkedListBuilder<T> for LinkedList<T> {
     #[inline]
     fn new() -> Self {
-- 
2.43.0


From 78dab495baa3f57092bb2ca57345262a954715f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:32 +0000
Subject: [PATCH 42/51] fix: crc: unmask checksums below the mask delta

The difference wraps: in a debug build unmasking any masked checksum
smaller than the delta panicked with an overflow.
---
 src/util/crc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/crc.rs b/src/util/crc.rs
index c0963f6..22ad506 100644
--- a/src/util/crc.rs
+++ b/src/util/crc.rs
@@ -471,7 +471,7 @@ impl CRC {
     /// ```
     #[inline]
     pub fn unmask(masked_crc: u32) -> u32 {
-        let rot = masked_crc - K_MASK_DELTA;
+        let rot = masked_crc.wrapping_sub(K_MASK_DELTA);
         (rot >> 17) | (rot << 15)
     }
 }
-- 
2.43.0


From d88280513b5b0c6d98f45b86ac256cb07af48339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:32 +0000
Subject: [PATCH 43/51] fix: slice: a mutable range starts where it says

IndexMut<Range> ignored the start, so that &mut s[a..b] was &mut s[..b]
and writing through it changed bytes outside the range.
---
 src/util/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/slice.rs b/src/util/slice.rs
index 215e17f..a108b17 100644
--- a/src/util/slice.rs
+++ b/src/util/slice.rs
@@ -240,7 +240,7 @@ impl core::ops::IndexMut<Range<usize>> for Slice {
     /// 获取指定下标范围的数据
     fn index_mut(&mut self, index: Range<usize>) -> &mut Self::Output {
         assert!(index.end <= self.size());
-        &mut (**self)[..index.end]
+        &mut (**self)[index.start..index.end]
     }
 }
 
-- 
2.43.0


From 407a6a0806063556582404b0c08a14a07f2a4e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:32 +0000
Subject: [PATCH 44/51] fix: slice: a longer slice is no prefix

starts_with panicked instead of answering false.
---
 src/util/slice.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/util/slice.rs b/src/util/slice.rs
index a108b17..433f247 100644
--- a/src/util/slice.rs
+++ b/src/util/slice.rs
@@ -79,7 +79,6 @@ impl Slice {
 
     /// 判断本 Slice 是否以 other 为开始
     pub fn starts_with(&self, other: &Self) -> bool {
-        assert!(other.size() <= self.size());
         if other.size() == 0 {
             return true;
         }
-- 
2.43.0


From 35430543090fc73922cd74d5b9a6ce2ae448223a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:58 +0000
Subject: [PATCH 45/51] fix: lookup key: store the key that was asked for

The fields were written through an empty slice into spare capacity, so
that a lookup key was always empty and its internal key out of range;
and the length stored was that of the length field, not of the key.
---
 src/db/db_format.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/db/db_format.rs b/src/db/db_format.rs
index 4b4a7c7..80711e8 100644
--- a/src/db/db_format.rs
+++ b/src/db/db_format.rs
@@ -255,16 +255,14 @@ impl LookupKey {
     /// Initialize *this for looking up user_key at a snapshot with
     /// the specified sequence number.
     pub fn new(user_key: Slice, sequence: usize) -> Self {
-        let user_key_size = user_key.size();
-        let need = user_key_size + 13; // A conservative estimate
-        let mut data = Vec::with_capacity(need);
-        let buf = data.as_mut_slice();
-        let mut encoder = Encoder::with_buf(buf);
-        // write key size
-        let klength = varint_length((user_key_size + 8) as u64);
+        let internal_key_size = user_key.size() + 8;
+        let klength = varint_length(internal_key_size as u64);
+        let mut data = vec![0_u8; klength + internal_key_size];
+        let mut encoder = Encoder::with_buf(&mut data);
         // 需要保证写入的数据不会超过buf.len(), 否则会溢出
         unsafe {
-            encoder.uncheck_put_varint32(klength as u32);
+            // write key size
+            encoder.uncheck_put_varint32(internal_key_size as u32);
             // write key slice
             encoder.uncheck_put_buf(user_key.as_ref());
             // write sequence number and value type
-- 
2.43.0


From 2db655baca9e79ff6c400ecf9ecd5ae4f0890780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:58 +0000
Subject: [PATCH 46/51] fix: filter block: start_block ends

The number of filters made so far was read once, before the loop that
makes them, so that the first block beyond 2 KiB never returned.
---
 src/table/filter_block.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/table/filter_block.rs b/src/table/filter_block.rs
index 9f0fb38..b6eda9b 100644
--- a/src/table/filter_block.rs
+++ b/src/table/filter_block.rs
@@ -157,11 +157,10 @@ impl FilterBlock for FilterBlockBuilder {
         // 计算出需要创建的filter的总数目. filters_number ==> filter_index
         let filters_number = block_offset / (FILTER_BASE as u64);
 
-        let len = self.filter_offsets.len() as u64;
-        assert!(filters_number >= len);
+        assert!(filters_number >= self.filter_offsets.len() as u64);
 
         // 当已经生成的filter的数目小于需要生成的filter的总数时，那么就继续创建filter。
-        while filters_number > len {
+        while filters_number > self.filter_offsets.len() as u64 {
             self.generate_new_filter();
         }
     }
-- 
2.43.0


From 2ec0204dc5d12e22e1c9e911c11ede8f3a5c480a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:58 +0000
Subject: [PATCH 47/51] fix: filter block: keys are bytes

add_key panicked for every key that is not valid UTF-8.
---
 src/table/filter_block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table/filter_block.rs b/src/table/filter_block.rs
index b6eda9b..1d6c718 100644
--- a/src/table/filter_block.rs
+++ b/src/table/filter_block.rs
@@ -172,7 +172,7 @@ impl FilterBlock for FilterBlockBuilder {
     fn add_key(&mut self, key: &Slice) {
         // start_记录key在keys的offset，因此可以还原出key
         self.start.push(self.keys.len());
-        self.keys.write(key.as_str().as_bytes()).expect("add_key error!");
+        self.keys.write(key.as_ref()).expect("add_key error!");
     }
 
     fn finish(&mut self) -> Result<Slice> {
-- 
2.43.0


From d77c91da3c3a5510c07b19390c0dbbd481c2f902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:58 +0000
Subject: [PATCH 48/51] fix: filter block: the offsets follow the filters

finish wrote the offset array over the filters at the front of the
block instead of behind them.
---
 src/table/filter_block.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/table/filter_block.rs b/src/table/filter_block.rs
index 1d6c718..49c4797 100644
--- a/src/table/filter_block.rs
+++ b/src/table/filter_block.rs
@@ -183,10 +183,9 @@ impl FilterBlock for FilterBlockBuilder {
         // Append array of per-filter offsets
         let array_offset = self.result.len() as u32;
 
-        // 当前需要写入的位置。result 中可能存在数据，因此为 offset ==> self.result.len()  的位置
-        let dst: &mut Vec<u8> = &mut self.result;
-        // let mut dst_append = self.result.as_mut_slice();
-        let mut encoder = Encoder::with_vec(dst);
+        // Encoder 从头开始写入，因此先写入单独的 buffer，再追加到 result 已有数据之后
+        let mut dst: Vec<u8> = Vec::with_capacity(self.filter_offsets.len() * 4 + 5);
+        let mut encoder = Encoder::with_vec(&mut dst);
         for i in 0..self.filter_offsets.len() {
             encoder.put_fixed32(self.filter_offsets[i])?;
         }
@@ -194,6 +193,7 @@ impl FilterBlock for FilterBlockBuilder {
 
         // Save encoding parameter in result
         encoder.put_varint64(FILTER_BASE_LG as u64)?;
+        self.result.extend_from_slice(&dst);
 
         Ok(Slice::from_buf(&self.result))
     }
-- 
2.43.0


From 52fe1f4853be3874804c8d37090356dba8dfb5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:58 +0000
Subject: [PATCH 49/51] hook: the table module is public under cfg(dst)

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index df67303..c799218 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3,7 +3,11 @@
 extern crate core;
 
 pub mod db;
+#[cfg(not(dst))]
 mod table;
+/// Simulation hook: harness crates build filter blocks. Off by default.
+#[cfg(dst)]
+pub mod table;
 pub mod util;
 #[cfg(not(dst))]
 mod traits;
-- 
2.43.0


From c29a45eb2990cee571406596ae3defba904c7717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:42 +0000
Subject: [PATCH 50/51] fix: find_shortest_separator keeps start where it
 cannot be shortened

---
 src/util/comparator.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/util/comparator.rs b/src/util/comparator.rs
index 661a930..cd37aa9 100644
--- a/src/util/comparator.rs
+++ b/src/util/comparator.rs
@@ -78,11 +78,12 @@ impl Comparator for BytewiseComparatorImpl {
                 // 则将 start 差异字符位置+1的元素变更为 差异字符的next
                 (diff_byte + 1) < limit_char_vec[diff_index] {
                 start_char_vec[diff_index] = diff_byte + 1;
+                // 只有差异字符增大之后才能截短，否则结果会小于 start
+                start_char_vec.truncate(diff_index + 1);
             }
         }
 
-        let shortest_separator: &[u8] = &start_char_vec[0..diff_index + 1];
-        let shortest_separator_val: String = Slice::from_buf(shortest_separator).into();
+        let shortest_separator_val: String = Slice::from_vec(start_char_vec).into();
         shortest_separator_val
     }
 
-- 
2.43.0


From 10f23f53faa0f78c9d2433fa30037eb91d48f335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 51/51] fix: a status of a bad or repeated record prints its
 message apart from its kind

---
 src/util/status.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/status.rs b/src/util/status.rs
index c41900f..e994ef3 100644
--- a/src/util/status.rs
+++ b/src/util/status.rs
@@ -162,8 +162,8 @@ impl Status {
             KNotSupported  => "Not implemented: ",
             KInvalidArgument  => "Invalid argument: ",
             KIOError  => "IO error: ",
-            KBadRecord=> "wal bad record",
-            KRepeatedRecord => "repeated record"
+            KBadRecord=> "wal bad record: ",
+            KRepeatedRecord => "repeated record: "
         };
 
         if self.err.is_ok() {
-- 
2.43.0

