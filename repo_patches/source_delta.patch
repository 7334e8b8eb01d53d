From e5aaadce5453baa73ca4a61c2984f17af8d0f2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:46 +0000
Subject: [PATCH 01/22] fix: keep log blocks in place across flushes

The log was rewritten from block one on every flush and the partially filled
block was dropped, so a second flush overwrote records already forced. Blocks
are now written at the offset of their number, the current block keeps filling
after a flush, block zero takes no records once other blocks exist, and the
last sequence number comes from the global header.
---
 crates/axmos-db/src/io/wal.rs | 48 ++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/crates/axmos-db/src/io/wal.rs b/crates/axmos-db/src/io/wal.rs
index ecb5422..c22fe17 100644
--- a/crates/axmos-db/src/io/wal.rs
+++ b/crates/axmos-db/src/io/wal.rs
@@ -147,7 +147,7 @@ impl WriteAheadLog {
     }
 
     pub(crate) fn last_lsn(&self) -> Option<Lsn> {
-        self.header.last_lsn()
+        self.header.metadata().wal_header.global_last_lsn
     }
 
     /// Runs the analysis phase of the ARIES recovery protocol.
@@ -301,14 +301,16 @@ impl WriteAheadLog {
         self.header.metadata_mut().wal_header.global_last_lsn = Some(lsn);
         self.header.metadata_mut().wal_header.total_entries += 1;
 
-        // Try to write to block zero first
+        // Block zero only takes records while no other block exists, otherwise the reader would find them out of order.
         if self.current_block.is_none() {
-            if self.header.available_space() >= record_size {
+            let only_block_zero = self.header.metadata().wal_header.total_blocks <= 1;
+            if only_block_zero && self.header.available_space() >= record_size {
                 self.header.try_push(lsn, record)?;
                 return Ok(());
             }
-            // Block zero is full, create first current_block
-            self.current_block = Some(WalBlock::new(self.block_size));
+            // Continue on a fresh block after the existing ones.
+            let next_id = self.get_next_block();
+            self.current_block = Some(WalBlock::alloc(next_id, self.block_size));
         }
 
         // Write to current_block
@@ -355,33 +357,18 @@ impl WriteAheadLog {
     }
 
     pub fn perform_flush(&mut self) -> io::Result<()> {
-        // Block 0 always exists, additional blocks start at index 1
-        let mut block_number: u64 = 1;
-        let mut write_offset = self.block_size as u64;
-
-        // Flush queued blocks
+        // Every block lives at the offset given by its number, blocks flushed earlier stay where they are.
         while let Some(block) = self.flush_queue.pop_front() {
-            self.file.seek(SeekFrom::Start(write_offset))?;
-            self.file.write_all(block.as_ref())?;
-            block_number += 1;
-            write_offset += self.block_size as u64;
-        }
-
-        // Flush current block if it has data
-        if let Some(ref block) = self.current_block {
-            if block.metadata().used_bytes > 0 {
-                self.file.seek(SeekFrom::Start(write_offset))?;
-                self.file.write_all(block.as_ref())?;
-                block_number += 1;
-            }
+            self.write_wal_block(&block)?;
         }
 
-        // Update header metadata
-        self.header.metadata_mut().wal_header.total_blocks = block_number;
-
+        // The current block keeps receiving records after the flush, so it is written again by later flushes.
         if let Some(block) = self.current_block.take() {
             self.header.metadata_mut().wal_header.last_block_used =
                 block.metadata().used_bytes as u32;
+            let written = self.write_wal_block(&block);
+            self.current_block = Some(block);
+            written?;
         } else {
             self.header.metadata_mut().wal_header.last_block_used =
                 self.header.metadata().block_header.used_bytes as u32;
@@ -394,6 +381,12 @@ impl WriteAheadLog {
         self.file.sync_all()
     }
 
+    fn write_wal_block(&mut self, block: &WalBlock) -> io::Result<()> {
+        let offset = block.metadata().block_number * self.block_size as u64;
+        self.file.seek(SeekFrom::Start(offset))?;
+        self.file.write_all(block.as_ref())
+    }
+
     fn write_header(&mut self) -> io::Result<()> {
         self.file.seek(SeekFrom::Start(0))?;
         self.file.write_all(self.header.as_ref())?;
@@ -456,6 +449,9 @@ impl<'a> WalReader<'a> {
         file.seek(SeekFrom::Start(0))?;
         file.read_exact(header.as_mut())?;
 
+        // Blocks allocated after the last flush are not in the file yet.
+        let total_blocks = total_blocks.min(header.metadata().wal_header.total_blocks);
+
         let read_ahead_size = read_ahead_size.next_multiple_of(block_size);
         let num_blocks_to_read =
             (read_ahead_size / block_size).min(total_blocks.saturating_sub(1) as usize);
-- 
2.43.0


From c3016357b0c075756bf69d1685ff1f58c19b2726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:23 +0000
Subject: [PATCH 02/22] fix: keep the page cache usable after a flush or an
 eviction scan

Clearing the cache set its capacity to zero, and the eviction cursor neither
wrapped around nor restarted, so after a flush or one full scan every access to
a page outside the cache failed with an out of memory error.
---
 crates/axmos-db/src/io/cache.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/axmos-db/src/io/cache.rs b/crates/axmos-db/src/io/cache.rs
index a71fb24..0f66daa 100644
--- a/crates/axmos-db/src/io/cache.rs
+++ b/crates/axmos-db/src/io/cache.rs
@@ -124,8 +124,12 @@ impl PageCache {
         };
 
         let mut found_victim = None;
-        // Attempt to iterate over all the frames.
-        while self.cursor <= self.frames.len() && found_victim.is_none() {
+        let mut visited = 0;
+        // Attempt to iterate over all the frames, starting at the cursor and wrapping around at the end.
+        while visited < self.frames.len() {
+            if self.cursor >= self.frames.len() {
+                self.cursor = 0;
+            }
             if let Some((pid, frame)) = self.frames.get_index(self.cursor) {
                 if frame.is_free() {
                     self.stats.eviction();
@@ -139,6 +143,7 @@ impl PageCache {
 
             // Not evictable.
             self.cursor += 1;
+            visited += 1;
         }
 
         if found_victim.is_some() {
@@ -180,7 +185,6 @@ impl PageCache {
         }
 
         self.cursor = 0;
-        self.capacity = 0;
         remaining_frames
     }
 }
-- 
2.43.0


From 3592d8d981742af79f5b9827d0569f6d396cfd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 03/22] fix: write recovered pages back before the log is
 truncated

Recovery truncated the log while everything it had redone was only in the page
cache, so a second crash lost all of it.
---
 crates/axmos-db/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/axmos-db/src/lib.rs b/crates/axmos-db/src/lib.rs
index e17afb4..cee550d 100644
--- a/crates/axmos-db/src/lib.rs
+++ b/crates/axmos-db/src/lib.rs
@@ -321,12 +321,12 @@ impl Database {
             // Run recovery through recuperator
             recuperator.run_recovery(&analysis).map_err(box_err)?;
 
-            // Truncate WAL
-            pager.write().truncate_wal().map_err(box_err)?;
-
             // Commit recovery transaction
             tx_ctx.commit_transaction().map_err(box_err)?;
 
+            // Write the recovered pages back, the WAL is only truncated after that.
+            pager.write().flush().map_err(box_err)?;
+
             Ok(())
         })?;
 
-- 
2.43.0


From 27722dcff1a562f16223a218439466d6a847dacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:03 +0000
Subject: [PATCH 04/22] fix: negated IS NULL, BETWEEN, IN and LIKE

The negated forms were always true (NOT LIKE: always false); NULL operands of
BETWEEN and IN now give NULL.
---
 crates/axmos-db/src/runtime/eval.rs | 36 ++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/crates/axmos-db/src/runtime/eval.rs b/crates/axmos-db/src/runtime/eval.rs
index 7455be8..6ed2df5 100644
--- a/crates/axmos-db/src/runtime/eval.rs
+++ b/crates/axmos-db/src/runtime/eval.rs
@@ -119,7 +119,7 @@ impl<'a> ExpressionEvaluator<'a> {
                     ));
                 };
                 Ok(vec![DataType::Bool(Bool(
-                    matches!(evaluated[0], DataType::Null) || *negated,
+                    matches!(evaluated[0], DataType::Null) != *negated,
                 ))])
             }
             BoundExpression::Between {
@@ -137,9 +137,21 @@ impl<'a> ExpressionEvaluator<'a> {
                     ));
                 };
 
-                Ok(vec![DataType::Bool(Bool(
-                    (inner[0] >= low[0] && inner[0] <= high[0]) || *negated,
-                ))])
+                // A comparison with NULL is neither true nor false.
+                let compare = |bound: &DataType, holds: fn(&DataType, &DataType) -> bool| {
+                    if inner[0].is_null() || bound.is_null() {
+                        None
+                    } else {
+                        Some(holds(&inner[0], bound))
+                    }
+                };
+                let at_least = compare(&low[0], |value, bound| value >= bound);
+                let at_most = compare(&high[0], |value, bound| value <= bound);
+                Ok(vec![match (at_least, at_most) {
+                    (Some(false), _) | (_, Some(false)) => DataType::Bool(Bool(*negated)),
+                    (Some(true), Some(true)) => DataType::Bool(Bool(!*negated)),
+                    _ => DataType::Null,
+                }])
             }
             BoundExpression::Exists { query, negated } => {
                 todo!("Subquery evaluation is not yet implemented")
@@ -163,9 +175,17 @@ impl<'a> ExpressionEvaluator<'a> {
                         "cannot apply unary operators to lists of values!".to_string(),
                     ));
                 };
-                Ok(vec![DataType::Bool(Bool(
-                    set.contains(&evaluated[0]) || *negated,
-                ))])
+                if evaluated[0].is_null() {
+                    return Ok(vec![DataType::Null]);
+                }
+                if set.contains(&evaluated[0]) {
+                    return Ok(vec![DataType::Bool(Bool(!*negated))]);
+                }
+                // Not found among the values, but a NULL in the list could be equal.
+                if set.iter().any(|item| item.is_null()) {
+                    return Ok(vec![DataType::Null]);
+                }
+                Ok(vec![DataType::Bool(Bool(*negated))])
             }
             BoundExpression::Subquery { query, result_type } => {
                 todo!("Subquery evaluation is not yet implemented")
@@ -356,7 +376,7 @@ impl<'a> ExpressionEvaluator<'a> {
 
         // Convert back to Blob and wrap as Text
         Ok(DataType::Bool(Bool(
-            !negated && lhs_blob.like(pattern_blob.as_str()?)?,
+            lhs_blob.like(pattern_blob.as_str()?)? != negated,
         )))
     }
 
-- 
2.43.0


From e8d0384858e09edc4e781b166b622f8274c373f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:34 +0000
Subject: [PATCH 05/22] fix: bound counts and reject invalid UTF-8 in wire
 messages

Row and column counts were taken from the peer as allocation sizes, and text
that is not UTF-8 was silently altered.
---
 crates/axmos-db/src/tcp/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/axmos-db/src/tcp/mod.rs b/crates/axmos-db/src/tcp/mod.rs
index c092253..d923220 100644
--- a/crates/axmos-db/src/tcp/mod.rs
+++ b/crates/axmos-db/src/tcp/mod.rs
@@ -313,6 +313,10 @@ impl Response {
                 let col_count = u32::from_le_bytes(payload[0..4].try_into().unwrap()) as usize;
                 offset += 4;
 
+                // The counts come from the peer, every string behind them takes at least its length prefix.
+                if col_count > (payload.len() - offset) / 4 {
+                    return Err(TcpError::InvalidMessage("Column count too large".into()));
+                }
                 let mut columns = Vec::with_capacity(col_count);
 
                 for _ in 0..col_count {
@@ -328,6 +332,11 @@ impl Response {
                     u32::from_le_bytes(payload[offset..offset + 4].try_into().unwrap()) as usize;
                 offset += 4;
 
+                if row_count > MAX_MESSAGE_SIZE
+                    || row_count.saturating_mul(col_count) > (payload.len() - offset) / 4
+                {
+                    return Err(TcpError::InvalidMessage("Row count too large".into()));
+                }
                 let mut data = Vec::with_capacity(row_count);
                 for _ in 0..row_count {
                     let mut row = Vec::with_capacity(col_count);
@@ -455,7 +464,9 @@ fn read_string_with_len(data: &[u8]) -> Result<(String, usize), TcpError> {
         )));
     }
 
-    let s = String::from_utf8_lossy(&data[4..4 + len]).into_owned();
+    let s = std::str::from_utf8(&data[4..4 + len])
+        .map_err(|_| TcpError::InvalidMessage("String is not valid UTF-8".into()))?
+        .to_owned();
     Ok((s, 4 + len))
 }
 
-- 
2.43.0


From 2df28ebbbbdeb7b22d70a5d232f874724265b72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:31 +0000
Subject: [PATCH 06/22] fix: descend through interior pages that only have a
 right child

---
 crates/axmos-db/src/tree/bplustree.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/axmos-db/src/tree/bplustree.rs b/crates/axmos-db/src/tree/bplustree.rs
index 3b8ea81..0f3abd2 100644
--- a/crates/axmos-db/src/tree/bplustree.rs
+++ b/crates/axmos-db/src/tree/bplustree.rs
@@ -456,7 +456,8 @@ where
         let mut current = self.get_root();
 
         loop {
-            let left_child = self.get_page(current)?.cell(0).left_child();
+            // An interior page may have been left with its right child only.
+            let left_child = self.get_page(current)?.child(0);
 
             let is_leaf = self.get_page(current)?.is_leaf();
             self.accessor_mut()?.release(current);
@@ -1226,8 +1227,7 @@ where
         let parent_next_sibling_first = if let Some(next_id) = parent_next {
             let parent_child_page = self.get_page_mut(next_id)?;
             parent_child_page
-                .cell(0)
-                .left_child()
+                .child(0)
                 .map(|id| BtreePagePosition::new(id, 0))
         } else {
             None
-- 
2.43.0


From e09149150101a1b6f6f9af3dcb694b471b925606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:31 +0000
Subject: [PATCH 07/22] fix: move cells as one block when a page is
 defragmented

---
 crates/axmos-db/src/storage/core/buffer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/axmos-db/src/storage/core/buffer.rs b/crates/axmos-db/src/storage/core/buffer.rs
index 9bdff50..b9ec421 100644
--- a/crates/axmos-db/src/storage/core/buffer.rs
+++ b/crates/axmos-db/src/storage/core/buffer.rs
@@ -894,7 +894,10 @@ where
                 let cell_ref = CellRef::from_raw(cell);
                 let size = cell_ref.total_size();
                 destination_offset -= size as usize;
-                self.write_item_to_offset(destination_offset as u64, cell_ref);
+                // The old and the new place of a cell may overlap, so its bytes (header
+                // and payload are contiguous) have to be moved as one block.
+                let dest = self.data.byte_add(destination_offset).cast::<u8>();
+                std::ptr::copy(cell.cast::<u8>().as_ptr(), dest.as_ptr(), size);
             }
             self.slot_array_mut()[i] = destination_offset as u16;
         }
-- 
2.43.0


From 68a49c47d93e22b0c34066db978b5e157411dcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:31 +0000
Subject: [PATCH 08/22] fix: leave the free space pointer alone when a cell
 shrinks in place

---
 crates/axmos-db/src/storage/core/buffer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/axmos-db/src/storage/core/buffer.rs b/crates/axmos-db/src/storage/core/buffer.rs
index b9ec421..017a07f 100644
--- a/crates/axmos-db/src/storage/core/buffer.rs
+++ b/crates/axmos-db/src/storage/core/buffer.rs
@@ -826,7 +826,8 @@ where
                 .copy_from_slice(&new_cell.full_data());
             *old_cell.metadata_mut() = *new_cell.metadata();
 
-            self.free_space_pointer_down(free_bytes);
+            // The gap is behind the new cell, not at the free space pointer: like the
+            // space of a removed cell, only defragmentation makes it available.
             self.add_free_space(free_bytes);
 
             return Ok(owned_cell);
-- 
2.43.0


From 1154c3d26248afb8cb9245ab9456255120ca5c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:38 +0000
Subject: [PATCH 09/22] fix: open a log that was truncated when the process
 died

---
 crates/axmos-db/src/io/wal.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/crates/axmos-db/src/io/wal.rs b/crates/axmos-db/src/io/wal.rs
index c22fe17..b254f7d 100644
--- a/crates/axmos-db/src/io/wal.rs
+++ b/crates/axmos-db/src/io/wal.rs
@@ -27,6 +27,17 @@ pub struct WriteAheadLog {
     block_size: usize,
 }
 
+/// Reads block zero of the log. A log whose header was not written yet (it had just been
+/// created or truncated when the process died) is an empty log.
+fn read_header(file: &mut DBFile, block_size: usize) -> io::Result<BlockZero> {
+    let mut header = BlockZero::alloc(0, block_size);
+    if file.metadata()?.len() > 0 {
+        file.seek(SeekFrom::Start(0))?;
+        file.read_exact(header.as_mut())?;
+    }
+    Ok(header)
+}
+
 impl FileOperations for WriteAheadLog {
     fn create(path: impl AsRef<Path>) -> io::Result<Self> {
         let file = DBFile::create(&path)?;
@@ -49,9 +60,7 @@ impl FileOperations for WriteAheadLog {
         let default_block_size = WAL_BLOCK_SIZE.next_multiple_of(fs_block_size);
 
         // Read block 0 (global header)
-        let mut header_buf: BlockZero = BlockZero::new(default_block_size);
-        file.seek(SeekFrom::Start(0))?;
-        file.read_exact(header_buf.as_mut())?;
+        let header_buf = read_header(&mut file, default_block_size)?;
 
         // Usar el block_size del archivo, o el default si es 0
         let block_size = header_buf.metadata().wal_header.block_size as usize;
@@ -445,9 +454,7 @@ impl<'a> WalReader<'a> {
         total_blocks: u64,
     ) -> io::Result<Self> {
         // Read block zero (header)
-        let mut header = BlockZero::new(block_size);
-        file.seek(SeekFrom::Start(0))?;
-        file.read_exact(header.as_mut())?;
+        let header = read_header(file, block_size)?;
 
         // Blocks allocated after the last flush are not in the file yet.
         let total_blocks = total_blocks.min(header.metadata().wal_header.total_blocks);
-- 
2.43.0


From 6daf9d24bec6d102f1161f34883fd0cf882f10aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:38 +0000
Subject: [PATCH 10/22] fix: keep a worker alive when a task panics

---
 crates/axmos-db/src/multithreading/threadpool.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/axmos-db/src/multithreading/threadpool.rs b/crates/axmos-db/src/multithreading/threadpool.rs
index 5b21b80..f137445 100644
--- a/crates/axmos-db/src/multithreading/threadpool.rs
+++ b/crates/axmos-db/src/multithreading/threadpool.rs
@@ -2,6 +2,7 @@ use std::{
     collections::VecDeque,
     error::Error,
     fmt::{Display, Formatter, Result as FmtResult},
+    panic::{self, AssertUnwindSafe},
     sync::{
         Arc,
         atomic::{AtomicBool, Ordering},
@@ -126,7 +127,8 @@ impl Worker {
             {
                 match job {
                     Job::Task(task) => {
-                        let _ = task();
+                        // A task that panics must not take its worker with it.
+                        let _ = panic::catch_unwind(AssertUnwindSafe(task));
                     }
                     Job::Shutdown => break,
                 }
-- 
2.43.0


From bf6e7ce66d3b4cd3db85f37b48ac34d07ac24c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:38 +0000
Subject: [PATCH 11/22] fix: report subqueries as an error instead of panicking

---
 crates/axmos-db/src/runtime/eval.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/axmos-db/src/runtime/eval.rs b/crates/axmos-db/src/runtime/eval.rs
index 6ed2df5..c5fcf0c 100644
--- a/crates/axmos-db/src/runtime/eval.rs
+++ b/crates/axmos-db/src/runtime/eval.rs
@@ -154,7 +154,9 @@ impl<'a> ExpressionEvaluator<'a> {
                 }])
             }
             BoundExpression::Exists { query, negated } => {
-                todo!("Subquery evaluation is not yet implemented")
+                Err(EvaluationError::InvalidExpression(
+                    "subqueries are not supported".to_string(),
+                ))
             }
             BoundExpression::InList {
                 expr,
@@ -188,14 +190,18 @@ impl<'a> ExpressionEvaluator<'a> {
                 Ok(vec![DataType::Bool(Bool(*negated))])
             }
             BoundExpression::Subquery { query, result_type } => {
-                todo!("Subquery evaluation is not yet implemented")
+                Err(EvaluationError::InvalidExpression(
+                    "subqueries are not supported".to_string(),
+                ))
             }
             BoundExpression::InSubquery {
                 expr,
                 query,
                 negated,
             } => {
-                todo!("Subquery evaluation is not yet implemented")
+                Err(EvaluationError::InvalidExpression(
+                    "subqueries are not supported".to_string(),
+                ))
             }
             BoundExpression::Function {
                 func,
-- 
2.43.0


From 1372b55fcf5c275938a96e1424e495a49d8a0450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:55 +0000
Subject: [PATCH 12/22] fix: COUNT of a column skips NULLs

---
 crates/axmos-db/src/runtime/ops/aggregate.rs | 22 ++++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/crates/axmos-db/src/runtime/ops/aggregate.rs b/crates/axmos-db/src/runtime/ops/aggregate.rs
index be4da18..fd7f17c 100644
--- a/crates/axmos-db/src/runtime/ops/aggregate.rs
+++ b/crates/axmos-db/src/runtime/ops/aggregate.rs
@@ -9,7 +9,7 @@ use crate::{
         planner::{logical::AggregateExpr, physical::HashAggregateOp},
     },
     storage::tuple::Row,
-    types::{DataType, TypeSystemError},
+    types::{DataType, TypeSystemError, bool::Bool},
 };
 
 /// Accumulator state for a single aggregate function.
@@ -39,8 +39,8 @@ impl Accumulator {
 
     /// Accumulate a new value into the aggregate state.
     fn accumulate(&mut self, value: &DataType) -> RuntimeResult<()> {
-        // Skip NULL values for most aggregates except COUNT
-        if matches!(value, DataType::Null) && !matches!(self, Accumulator::Count { .. }) {
+        // Aggregates skip NULL values. COUNT(*) does not get here with one.
+        if matches!(value, DataType::Null) {
             return Ok(());
         }
 
@@ -207,15 +207,15 @@ impl<Child: Executor> HashAggregate<Child> {
         // Accumulate the row
         let evaluator = ExpressionEvaluator::new(&row, &self.input_schema);
         for (i, agg_expr) in self.aggregates.iter().enumerate() {
-            let value = if agg_expr.arg.is_none() {
-                DataType::Null
-            } else if let Some(ref arg) = agg_expr.arg {
-                match arg {
-                    BoundExpression::Star => DataType::Null,
-                    other => evaluator.evaluate_as_single_value(other)?,
+            let value = match agg_expr.arg {
+                // COUNT(*) counts rows, whatever they hold.
+                None | Some(BoundExpression::Star)
+                    if matches!(agg_expr.func, AggregateFunction::Count) =>
+                {
+                    DataType::Bool(Bool(true))
                 }
-            } else {
-                DataType::Null
+                None | Some(BoundExpression::Star) => DataType::Null,
+                Some(ref arg) => evaluator.evaluate_as_single_value(arg)?,
             };
             bucket.accumulators[i].accumulate(&value)?;
         }
-- 
2.43.0


From d8cb8d15b0b0bc2954c286fb51e7fd6c5e04dd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:12 +0000
Subject: [PATCH 13/22] fix: read statistics from the aligned copy of the blob

---
 crates/axmos-db/src/schema/stats.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/axmos-db/src/schema/stats.rs b/crates/axmos-db/src/schema/stats.rs
index 0b082eb..bf1334b 100644
--- a/crates/axmos-db/src/schema/stats.rs
+++ b/crates/axmos-db/src/schema/stats.rs
@@ -350,9 +350,9 @@ impl Stats {
             .map_err(|e| SerializationError::InvalidVarIntPrefix)?;
 
         //  It is impossible to avoid this copy here unless we fuck up the whole blob data structure since blob does not guarantee alignment.
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<16>::new();
         aligned.extend_from_slice(data);
-        let stats = from_bytes::<Stats, RkyvError>(data)?;
+        let stats = from_bytes::<Stats, RkyvError>(&aligned)?;
         Ok(stats)
     }
 }
-- 
2.43.0


From 32c9f74acea15b707653b6cf2631036c50b3a7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:13 +0000
Subject: [PATCH 14/22] fix: planner rules handle every kind of expression when
 they move predicates

---
 crates/axmos-db/src/sql/planner/rules.rs | 231 ++++++++++++-----------
 1 file changed, 124 insertions(+), 107 deletions(-)

diff --git a/crates/axmos-db/src/sql/planner/rules.rs b/crates/axmos-db/src/sql/planner/rules.rs
index 84cddf6..ef6e218 100644
--- a/crates/axmos-db/src/sql/planner/rules.rs
+++ b/crates/axmos-db/src/sql/planner/rules.rs
@@ -121,57 +121,133 @@ fn swap_join_condition(cond: &BoundExpression) -> BoundExpression {
     }
 }
 
-/// Shifts column indices by offset.
-fn shift_columns(expr: &BoundExpression, offset: i32) -> Option<BoundExpression> {
-    match expr {
-        BoundExpression::ColumnBinding(c) => {
-            let new_idx = c.column_idx as i32 + offset;
-            if new_idx < 0 {
-                None
-            } else {
-                Some(BoundExpression::ColumnBinding(Binding {
-                    column_idx: new_idx as usize,
-                    ..*c
-                }))
-            }
-        }
+/// Rebuilds an expression, replacing every column reference.
+///
+/// Returns None if the mapping has no column to refer to, or if the expression contains a
+/// query of its own (its columns do not belong to the rows being described).
+fn map_columns(
+    expr: &BoundExpression,
+    map: &dyn Fn(usize) -> Option<usize>,
+) -> Option<BoundExpression> {
+    let boxed = |e: &BoundExpression| map_columns(e, map).map(Box::new);
+    let list = |es: &[BoundExpression]| -> Option<Vec<BoundExpression>> {
+        es.iter().map(|e| map_columns(e, map)).collect()
+    };
+
+    Some(match expr {
+        BoundExpression::ColumnBinding(c) => BoundExpression::ColumnBinding(Binding {
+            column_idx: map(c.column_idx)?,
+            ..*c
+        }),
+        BoundExpression::Literal { .. } | BoundExpression::Star => expr.clone(),
         BoundExpression::BinaryOp {
             left,
             op,
             right,
             result_type,
-        } => Some(BoundExpression::BinaryOp {
-            left: Box::new(shift_columns(left, offset)?),
+        } => BoundExpression::BinaryOp {
+            left: boxed(left)?,
             op: *op,
-            right: Box::new(shift_columns(right, offset)?),
+            right: boxed(right)?,
             result_type: *result_type,
-        }),
-        BoundExpression::Literal { .. } => Some(expr.clone()),
-        _ => Some(expr.clone()),
-    }
+        },
+        BoundExpression::UnaryOp {
+            op,
+            expr,
+            result_type,
+        } => BoundExpression::UnaryOp {
+            op: *op,
+            expr: boxed(expr)?,
+            result_type: *result_type,
+        },
+        BoundExpression::IsNull { expr, negated } => BoundExpression::IsNull {
+            expr: boxed(expr)?,
+            negated: *negated,
+        },
+        BoundExpression::Between {
+            expr,
+            low,
+            high,
+            negated,
+        } => BoundExpression::Between {
+            expr: boxed(expr)?,
+            low: boxed(low)?,
+            high: boxed(high)?,
+            negated: *negated,
+        },
+        BoundExpression::InList {
+            expr,
+            list: items,
+            negated,
+        } => BoundExpression::InList {
+            expr: boxed(expr)?,
+            list: list(items)?,
+            negated: *negated,
+        },
+        BoundExpression::Function {
+            func,
+            args,
+            distinct,
+            return_type,
+        } => BoundExpression::Function {
+            func: func.clone(),
+            args: list(args)?,
+            distinct: *distinct,
+            return_type: *return_type,
+        },
+        BoundExpression::Aggregate {
+            func,
+            arg,
+            distinct,
+            return_type,
+        } => BoundExpression::Aggregate {
+            func: *func,
+            arg: match arg {
+                Some(a) => Some(boxed(a)?),
+                None => None,
+            },
+            distinct: *distinct,
+            return_type: *return_type,
+        },
+        BoundExpression::Case {
+            operand,
+            when_then,
+            else_expr,
+            result_type,
+        } => BoundExpression::Case {
+            operand: match operand {
+                Some(e) => Some(boxed(e)?),
+                None => None,
+            },
+            when_then: when_then
+                .iter()
+                .map(|(w, t)| Some((map_columns(w, map)?, map_columns(t, map)?)))
+                .collect::<Option<Vec<_>>>()?,
+            else_expr: match else_expr {
+                Some(e) => Some(boxed(e)?),
+                None => None,
+            },
+            result_type: *result_type,
+        },
+        BoundExpression::Subquery { .. }
+        | BoundExpression::Exists { .. }
+        | BoundExpression::InSubquery { .. } => return None,
+    })
+}
+
+/// Shifts column indices by offset.
+fn shift_columns(expr: &BoundExpression, offset: i32) -> Option<BoundExpression> {
+    map_columns(expr, &|idx| usize::try_from(idx as i32 + offset).ok())
 }
 
 /// Checks if all columns in expr have index >= min.
 fn all_columns_ge(expr: &BoundExpression, min: usize) -> bool {
-    match expr {
-        BoundExpression::ColumnBinding(c) => c.column_idx >= min,
-        BoundExpression::BinaryOp { left, right, .. } => {
-            all_columns_ge(left, min) && all_columns_ge(right, min)
-        }
-        BoundExpression::Literal { .. } => true,
-        _ => true,
-    }
+    map_columns(expr, &|idx| (idx >= min).then_some(idx)).is_some()
 }
 
 /// Checks if any column in expr is in range [start, end).
 fn any_column_in_range(expr: &BoundExpression, start: usize, end: usize) -> bool {
-    match expr {
-        BoundExpression::ColumnBinding(c) => c.column_idx >= start && c.column_idx < end,
-        BoundExpression::BinaryOp { left, right, .. } => {
-            any_column_in_range(left, start, end) || any_column_in_range(right, start, end)
-        }
-        _ => false,
-    }
+    map_columns(expr, &|idx| (idx < start || idx >= end).then_some(idx)).is_none()
 }
 
 /// Combines predicates with AND.
@@ -247,9 +323,7 @@ fn extract_bc_condition(
         collect_predicates_for_range(c, a_cols, &mut preds);
     }
     if let Some(c) = inner {
-        if let Some(s) = shift_columns(c, -(a_cols as i32)) {
-            preds.push(s);
-        }
+        collect_predicates_for_range(c, a_cols, &mut preds);
     }
     combine_predicates(preds)
 }
@@ -302,77 +376,18 @@ fn classify_predicates(
 }
 
 /// Checks if expression uses left/right columns.
+///
+/// An expression containing a query of its own counts as using both.
 fn check_column_usage(expr: &BoundExpression, left_cols: usize) -> (bool, bool) {
-    match expr {
-        BoundExpression::ColumnBinding(c) => {
-            if c.column_idx < left_cols {
-                (true, false)
-            } else {
-                (false, true)
-            }
-        }
-        BoundExpression::BinaryOp { left, right, .. } => {
-            let (l1, r1) = check_column_usage(left, left_cols);
-            let (l2, r2) = check_column_usage(right, left_cols);
-            (l1 || l2, r1 || r2)
-        }
-        BoundExpression::UnaryOp { expr, .. } | BoundExpression::IsNull { expr, .. } => {
-            check_column_usage(expr, left_cols)
-        }
-        BoundExpression::InList { expr, list, .. } => {
-            let (mut l, mut r) = check_column_usage(expr, left_cols);
-            for i in list {
-                let (l2, r2) = check_column_usage(i, left_cols);
-                l = l || l2;
-                r = r || r2;
-            }
-            (l, r)
-        }
-        BoundExpression::Between {
-            expr, low, high, ..
-        } => {
-            let (l1, r1) = check_column_usage(expr, left_cols);
-            let (l2, r2) = check_column_usage(low, left_cols);
-            let (l3, r3) = check_column_usage(high, left_cols);
-            (l1 || l2 || l3, r1 || r2 || r3)
-        }
-        _ => (false, false),
-    }
+    (
+        any_column_in_range(expr, 0, left_cols),
+        any_column_in_range(expr, left_cols, usize::MAX),
+    )
 }
 
 /// Rewrites column references using a mapping.
-fn rewrite_with_mapping(expr: &BoundExpression, mapping: &[usize]) -> BoundExpression {
-    match expr {
-        BoundExpression::ColumnBinding(c) => BoundExpression::ColumnBinding(Binding {
-            column_idx: mapping.get(c.column_idx).copied().unwrap_or(c.column_idx),
-            ..*c
-        }),
-        BoundExpression::BinaryOp {
-            left,
-            op,
-            right,
-            result_type,
-        } => BoundExpression::BinaryOp {
-            left: Box::new(rewrite_with_mapping(left, mapping)),
-            op: *op,
-            right: Box::new(rewrite_with_mapping(right, mapping)),
-            result_type: *result_type,
-        },
-        BoundExpression::UnaryOp {
-            op,
-            expr,
-            result_type,
-        } => BoundExpression::UnaryOp {
-            op: *op,
-            expr: Box::new(rewrite_with_mapping(expr, mapping)),
-            result_type: *result_type,
-        },
-        BoundExpression::IsNull { expr, negated } => BoundExpression::IsNull {
-            expr: Box::new(rewrite_with_mapping(expr, mapping)),
-            negated: *negated,
-        },
-        _ => expr.clone(),
-    }
+fn rewrite_with_mapping(expr: &BoundExpression, mapping: &[usize]) -> Option<BoundExpression> {
+    map_columns(expr, &|idx| mapping.get(idx).copied())
 }
 
 /// Creates a column reference expression.
@@ -785,7 +800,9 @@ impl TransformationRule for FilterPushdownProjectRule {
             }
         }
 
-        let new_pred = rewrite_with_mapping(&filter.predicate, &mapping);
+        let Some(new_pred) = rewrite_with_mapping(&filter.predicate, &mapping) else {
+            return Ok(vec![]);
+        };
         let new_filter = FilterOp::new(new_pred, project_input_schema.clone());
 
         let filter_group = memo.insert_logical_expr(LogicalExpr::new(
-- 
2.43.0


From a24d8f8fbf860f9ec25052757c4554ea8aa5954d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:14 +0000
Subject: [PATCH 15/22] fix: an equi-join key pairs one column of each input,
 in either order

---
 crates/axmos-db/src/sql/planner/logical.rs | 78 ++++++++++------------
 1 file changed, 36 insertions(+), 42 deletions(-)

diff --git a/crates/axmos-db/src/sql/planner/logical.rs b/crates/axmos-db/src/sql/planner/logical.rs
index b1c9739..7a7f4a2 100644
--- a/crates/axmos-db/src/sql/planner/logical.rs
+++ b/crates/axmos-db/src/sql/planner/logical.rs
@@ -295,57 +295,51 @@ impl JoinOp {
 
     /// Checks if this is an equi-join.
     pub fn is_equi_join(&self) -> bool {
-        self.condition
-            .as_ref()
-            .map_or(false, |c| Self::is_equi_condition(c))
-    }
-
-    fn is_equi_condition(expr: &BoundExpression) -> bool {
-        match expr {
-            BoundExpression::BinaryOp {
-                op, left, right, ..
-            } => match op {
-                BinaryOperator::Eq => {
-                    matches!(left.as_ref(), BoundExpression::ColumnBinding(_))
-                        && matches!(right.as_ref(), BoundExpression::ColumnBinding(_))
-                }
-                BinaryOperator::And => {
-                    Self::is_equi_condition(left) && Self::is_equi_condition(right)
-                }
-                _ => false,
-            },
-            _ => false,
-        }
+        !self.extract_equi_keys().is_empty()
     }
 
     /// Extracts equi-join keys as (left_col, right_col) pairs.
+    ///
+    /// Returns no keys unless the whole condition is a conjunction of equalities,
+    /// each between one column of the left and one of the right input.
     pub fn extract_equi_keys(&self) -> Vec<(usize, usize)> {
         let mut keys = Vec::new();
-        if let Some(cond) = &self.condition {
-            Self::collect_equi_keys(cond, &mut keys);
+        match &self.condition {
+            Some(cond) if self.collect_equi_keys(cond, &mut keys) => keys,
+            _ => Vec::new(),
         }
-        keys
     }
 
-    fn collect_equi_keys(expr: &BoundExpression, keys: &mut Vec<(usize, usize)>) {
-        match expr {
-            BoundExpression::BinaryOp {
-                op, left, right, ..
-            } => match op {
-                BinaryOperator::Eq => {
-                    if let (BoundExpression::ColumnBinding(l), BoundExpression::ColumnBinding(r)) =
-                        (left.as_ref(), right.as_ref())
-                    {
-                        keys.push((l.column_idx, r.column_idx));
-                    }
+    fn collect_equi_keys(&self, expr: &BoundExpression, keys: &mut Vec<(usize, usize)>) -> bool {
+        let BoundExpression::BinaryOp {
+            op, left, right, ..
+        } = expr
+        else {
+            return false;
+        };
+        match op {
+            BinaryOperator::Eq => {
+                let (BoundExpression::ColumnBinding(l), BoundExpression::ColumnBinding(r)) =
+                    (left.as_ref(), right.as_ref())
+                else {
+                    return false;
+                };
+                let left_cols = self.left_schema.num_columns();
+                let (low, high) = if l.column_idx <= r.column_idx {
+                    (l.column_idx, r.column_idx)
+                } else {
+                    (r.column_idx, l.column_idx)
+                };
+                if low >= left_cols || high < left_cols {
+                    return false;
                 }
-                BinaryOperator::And => {
-                    Self::collect_equi_keys(left, keys);
-                    Self::collect_equi_keys(right, keys);
-                }
-                _ => {}
-            },
-            _ => {}
+                keys.push((low, high));
+                true
+            }
+            BinaryOperator::And => {
+                self.collect_equi_keys(left, keys) && self.collect_equi_keys(right, keys)
+            }
+            _ => false,
         }
     }
 }
-- 
2.43.0


From 2bbea6e1a80cecc97e4f03b2292b9d3a15743437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:16 +0000
Subject: [PATCH 16/22] fix: the planner memo tells apart operators with
 different predicates

---
 crates/axmos-db/src/sql/planner/memo.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/crates/axmos-db/src/sql/planner/memo.rs b/crates/axmos-db/src/sql/planner/memo.rs
index 4617d12..6c6398e 100644
--- a/crates/axmos-db/src/sql/planner/memo.rs
+++ b/crates/axmos-db/src/sql/planner/memo.rs
@@ -220,26 +220,33 @@ impl Memo {
                 scan.table_id.hash(hasher);
                 scan.table_name.hash(hasher);
                 scan.columns.hash(hasher);
-                // Note: predicate not hashed (structural comparison would be complex)
+                hash_debug(&scan.predicate, hasher);
             }
             LogicalOperator::IndexScan(scan) => {
                 scan.table_id.hash(hasher);
                 scan.index_id.hash(hasher);
                 scan.index_columns.hash(hasher);
+                hash_debug(&scan.range_start, hasher);
+                hash_debug(&scan.range_end, hasher);
+                hash_debug(&scan.residual_predicate, hasher);
+            }
+            LogicalOperator::Filter(filter) => {
+                hash_debug(&filter.predicate, hasher);
             }
             LogicalOperator::Project(proj) => {
-                proj.expressions.len().hash(hasher);
+                hash_debug(&proj.expressions, hasher);
                 proj.output_schema.num_columns().hash(hasher);
             }
             LogicalOperator::Join(join) => {
                 std::mem::discriminant(&join.join_type).hash(hasher);
+                hash_debug(&join.condition, hasher);
             }
             LogicalOperator::Aggregate(agg) => {
-                agg.group_by.len().hash(hasher);
-                agg.aggregates.len().hash(hasher);
+                hash_debug(&agg.group_by, hasher);
+                hash_debug(&agg.aggregates, hasher);
             }
             LogicalOperator::Sort(sort) => {
-                sort.order_by.len().hash(hasher);
+                hash_debug(&sort.order_by, hasher);
             }
             LogicalOperator::Limit(limit) => {
                 limit.limit.hash(hasher);
@@ -264,7 +271,6 @@ impl Memo {
             }
             LogicalOperator::Empty(_)
             | LogicalOperator::Distinct(_)
-            | LogicalOperator::Filter(_)
             | LogicalOperator::Materialize(_) => {
                 // These are determined by their children
             }
@@ -272,6 +278,11 @@ impl Memo {
     }
 }
 
+/// Hashes a value through its debug form, for expressions that have no hash of their own.
+fn hash_debug<T: std::fmt::Debug>(value: &T, hasher: &mut DefaultHasher) {
+    format!("{:?}", value).hash(hasher);
+}
+
 impl Default for Memo {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From 731f2293ddd46cd812544410252ecbcd84d7d412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:17 +0000
Subject: [PATCH 17/22] fix: outer joins over empty inputs, NULL join keys, no
 merge join for right and full joins

---
 crates/axmos-db/src/runtime/ops/join.rs  | 20 +++++++++++++++++---
 crates/axmos-db/src/sql/planner/rules.rs |  6 ++++++
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/crates/axmos-db/src/runtime/ops/join.rs b/crates/axmos-db/src/runtime/ops/join.rs
index 752ddcf..818f450 100644
--- a/crates/axmos-db/src/runtime/ops/join.rs
+++ b/crates/axmos-db/src/runtime/ops/join.rs
@@ -240,7 +240,10 @@ impl<Left: Executor, Right: Executor> Executor for NestedLoopJoin<Left, Right> {
                 self.unmatched_right_idx += 1;
 
                 if !self.right_matched[idx] {
-                    let row = nulls_with_right(&self.right_buffer[idx], self.left_cols);
+                    // The left input may not have produced any row to take the width from.
+                    let right_row = &self.right_buffer[idx];
+                    let left_cols = self.output_schema.num_columns() - right_row.len();
+                    let row = nulls_with_right(right_row, left_cols);
                     self.stats.rows_produced += 1;
                     return Ok(Some(row));
                 }
@@ -467,7 +470,14 @@ impl<Left: Executor, Right: Executor> Executor for HashJoin<Left, Right> {
             let left_row = self.current_left_row.as_ref().unwrap();
             let left_key = self.current_left_key.as_ref().unwrap();
 
-            if let Some(bucket) = self.hash_table.get_mut(left_key) {
+            // A key holding a NULL matches nothing.
+            let bucket = if keys_match(left_key, left_key) {
+                self.hash_table.get_mut(left_key)
+            } else {
+                None
+            };
+
+            if let Some(bucket) = bucket {
                 while self.current_bucket_idx < bucket.len() {
                     let right_row = &bucket.rows[self.current_bucket_idx];
                     self.current_bucket_idx += 1;
@@ -575,7 +585,11 @@ impl<Left: Executor, Right: Executor> MergeJoin<Left, Right> {
 
     fn compare_keys(&self, left_keys: &[DataType], right_keys: &[DataType]) -> Ordering {
         for (l, r) in left_keys.iter().zip(right_keys.iter()) {
-            if matches!(l, DataType::Null) || matches!(r, DataType::Null) {
+            // A key holding a NULL matches nothing: pass over the row it comes from.
+            if matches!(l, DataType::Null) {
+                return Ordering::Less;
+            }
+            if matches!(r, DataType::Null) {
                 return Ordering::Greater;
             }
             match l.partial_cmp(r) {
diff --git a/crates/axmos-db/src/sql/planner/rules.rs b/crates/axmos-db/src/sql/planner/rules.rs
index ef6e218..78b6945 100644
--- a/crates/axmos-db/src/sql/planner/rules.rs
+++ b/crates/axmos-db/src/sql/planner/rules.rs
@@ -1018,6 +1018,12 @@ impl ImplementationRule for JoinRule {
                     expr.children.clone(),
                 ));
 
+                // Merge join drops the right rows it has passed, so it cannot tell afterwards
+                // which of them found no match.
+                if matches!(join.join_type, JoinType::Right | JoinType::Full) {
+                    return Ok(impls);
+                }
+
                 // Merge join
                 // left_ordering uses indices relative to left schema (child 0)
                 // right_ordering uses indices relative to right schema (child 1)
-- 
2.43.0


From d0ccb470b9f8e1559dd8708d5eb53c6b7410c241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:18 +0000
Subject: [PATCH 18/22] fix: NOT binds tighter than AND

---
 crates/axmos-db/src/sql/parser/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/axmos-db/src/sql/parser/mod.rs b/crates/axmos-db/src/sql/parser/mod.rs
index a404639..b8b0833 100644
--- a/crates/axmos-db/src/sql/parser/mod.rs
+++ b/crates/axmos-db/src/sql/parser/mod.rs
@@ -249,12 +249,12 @@ impl Parser {
             // Token::Or => Some((1, 2)),
             // Token::And => Some((3, 4)),
             // ´´´
-            // By giving here the NOT operator a precedence of three, we are making sur it binds tighter than  AND & OR,
+            // By giving here the NOT operator a precedence of four, we are making sur it binds tighter than  AND & OR,
             // but looselier than +, - , * an unary operators.
             // This way, the expression: [NOT a AND b OR c], will be parsed as: (OR (AND (NOT a) b) c)
             Token::Not => {
                 self.next_token();
-                let expr = self.parse_expr_bp(3)?; // NOT precedence
+                let expr = self.parse_expr_bp(4)?; // NOT precedence
                 Ok(Expr::UnaryOp {
                     op: UnaryOperator::Not,
                     expr: Box::new(expr),
-- 
2.43.0


From 36e26168b9d9b21081c707ed636db0432e2e0b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:19 +0000
Subject: [PATCH 19/22] fix: expressions the evaluator does not support are an
 error, not a panic

---
 crates/axmos-db/src/runtime/eval.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/axmos-db/src/runtime/eval.rs b/crates/axmos-db/src/runtime/eval.rs
index c5fcf0c..4a08f28 100644
--- a/crates/axmos-db/src/runtime/eval.rs
+++ b/crates/axmos-db/src/runtime/eval.rs
@@ -295,7 +295,15 @@ impl<'a> ExpressionEvaluator<'a> {
                     }
                 }
             }
-            _ => unreachable!("Should not reach here when calling the evaluator"),
+            other => Err(EvaluationError::InvalidExpression(format!(
+                "{} expressions are not supported here",
+                match other {
+                    BoundExpression::Aggregate { .. } => "aggregate",
+                    BoundExpression::Case { .. } => "CASE",
+                    BoundExpression::Star => "*",
+                    _ => "subquery",
+                }
+            ))),
         }
     }
 
-- 
2.43.0


From 6045c97515171316b35e741d52973be58b36495c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:47 +0000
Subject: [PATCH 20/22] fix: rows with a NULL indexed column have no index
 entry, an insert replaces a rolled-back entry

---
 crates/axmos-db/src/runtime/ddl.rs       |  5 ++
 crates/axmos-db/src/runtime/dml.rs       | 60 ++++++++++++++----------
 crates/axmos-db/src/sql/planner/rules.rs | 16 +++++++
 3 files changed, 55 insertions(+), 26 deletions(-)

diff --git a/crates/axmos-db/src/runtime/ddl.rs b/crates/axmos-db/src/runtime/ddl.rs
index 16db50a..0182f5e 100644
--- a/crates/axmos-db/src/runtime/ddl.rs
+++ b/crates/axmos-db/src/runtime/ddl.rs
@@ -1077,6 +1077,11 @@ impl DdlExecutor {
                         entry_values.push(row[col_idx].clone());
                     }
                 }
+
+                // A row with a NULL among the indexed columns has no entry.
+                if entry_values.iter().any(|v| matches!(v, DataType::Null)) {
+                    continue;
+                }
                 entry_values.push(DataType::BigUInt(UInt64(*value)));
 
                 index_entries.push(Row::new(entry_values.into_boxed_slice()));
diff --git a/crates/axmos-db/src/runtime/dml.rs b/crates/axmos-db/src/runtime/dml.rs
index 28a9ef9..fd8014b 100644
--- a/crates/axmos-db/src/runtime/dml.rs
+++ b/crates/axmos-db/src/runtime/dml.rs
@@ -439,25 +439,31 @@ impl DmlExecutor {
     }
 
     /// Builds an index entry row from table values.
+    ///
+    /// A row with a NULL among the indexed columns has no entry: it is equal to no other row and
+    /// lies in no range.
     fn build_index_entry(
         values: &[DataType],
         index: &IndexHandle,
         index_schema: &Schema,
         row_id: RowId,
-    ) -> RuntimeResult<Row> {
+    ) -> RuntimeResult<Option<Row>> {
         let mut entry: Vec<DataType> = Vec::with_capacity(index_schema.num_keys() + 1);
 
         for col_idx in index.indexed_column_ids() {
             let value = values
                 .get(*col_idx)
                 .ok_or(RuntimeError::ColumnNotFound(*col_idx))?;
+            if matches!(value, DataType::Null) {
+                return Ok(None);
+            }
             entry.push(value.clone());
         }
 
         // Append row ID as the last column
         entry.push(DataType::BigUInt(UInt64(row_id)));
 
-        Ok(Row::new(entry.into_boxed_slice()))
+        Ok(Some(Row::new(entry.into_boxed_slice())))
     }
 
     /// Maintains secondary indexes.
@@ -504,25 +510,35 @@ impl DmlExecutor {
 
             let mut index_btree = self.ctx.build_tree_mut(index_root);
 
-            match (
-                old_values.as_ref(),
-                new_values.as_ref(),
-                table_assignments.as_ref(),
-            ) {
+            let old_entry = match old_values.as_ref() {
+                Some(values) => Self::build_index_entry(values, index, index_schema, row_id)?,
+                None => None,
+            };
+            let new_entry = match new_values.as_ref() {
+                Some(values) => Self::build_index_entry(values, index, index_schema, row_id)?,
+                None => None,
+            };
+
+            match (old_entry, new_entry, table_assignments.as_ref()) {
+                // Neither row has an entry in this index.
+                (None, None, _) => {}
                 // Insert operation
-                (None, Some(values), None) => {
-                    let index_row = Self::build_index_entry(&values, index, index_schema, row_id)?;
+                (None, Some(index_row), _) => {
                     let index_tuple =
                         TupleBuilder::from_schema(index_schema).build(&index_row, tid)?;
 
                     let search_result = index_btree.search_tuple(&index_tuple, &index_schema)?;
 
                     if let SearchResult::Found(position) = search_result {
-                        let existing =
-                            index_btree.get_tuple_at_unchecked(position, &index_schema)?;
-
-                        // If it is deleted we need to un-delete it
-                        if existing.is_deleted() {
+                        let tuple_reader = TupleReader::from_schema(index_schema);
+                        let live = index_btree.with_cell_at(position, |bytes| {
+                            tuple_reader
+                                .parse_for_snapshot(bytes, &snapshot)
+                                .map(|layout| layout.is_some())
+                        })??;
+
+                        // If it is deleted or rolled back this entry takes its place
+                        if !live {
                             index_btree.update(index_root, index_tuple, index_schema)?;
                         };
 
@@ -533,8 +549,7 @@ impl DmlExecutor {
                 }
                 // New values was set to [None] which means we are on a delete operation. Then we need to perform the maintenance in a different way.
                 // Delete operation
-                (Some(values), None, None) => {
-                    let index_row = Self::build_index_entry(&values, index, index_schema, row_id)?;
+                (Some(index_row), None, _) => {
                     let index_tuple =
                         TupleBuilder::from_schema(index_schema).build(&index_row, tid)?;
                     let search_result = index_btree.search_tuple(&index_tuple, &index_schema)?;
@@ -555,20 +570,14 @@ impl DmlExecutor {
                         }
                     };
                 } // Update operation
-                (Some(old_values), Some(new_values), Some(assignments)) => {
+                (Some(old_index_row), Some(_), Some(assignments)) => {
                     // Build the old index key for searching
-                    let old_index_row =
-                        Self::build_index_entry(&old_values, index, index_schema, row_id)?;
                     let old_index_tuple =
                         TupleBuilder::from_schema(index_schema).build(&old_index_row, tid)?;
 
                     // Build new assignments for the index
-                    let index_assignments = self.build_index_assignments(
-                        &old_values,
-                        &assignments,
-                        index,
-                        index_schema,
-                    )?;
+                    let index_assignments =
+                        self.build_index_assignments(assignments, index, index_schema)?;
 
                     // Search and update the index entry
                     let mut index_btree = self.ctx.build_tree_mut(index_root);
@@ -604,7 +613,6 @@ impl DmlExecutor {
     /// Builds assignment map for an index based on table assignments.
     fn build_index_assignments(
         &self,
-        old_values: &[DataType],
         table_assignments: &HashMap<usize, DataType>,
         index: &IndexHandle,
         index_schema: &Schema,
diff --git a/crates/axmos-db/src/sql/planner/rules.rs b/crates/axmos-db/src/sql/planner/rules.rs
index 78b6945..c0e95fa 100644
--- a/crates/axmos-db/src/sql/planner/rules.rs
+++ b/crates/axmos-db/src/sql/planner/rules.rs
@@ -1459,6 +1459,22 @@ impl FilterToIndexScanRule {
             return None;
         }
 
+        // Rows with a NULL among the indexed columns are not in the index: the bounds must
+        // exclude them anyway.
+        let bounded = |position: usize| {
+            [&range_start, &range_end]
+                .into_iter()
+                .flatten()
+                .flatten()
+                .any(|bound| bound.col_idx == position)
+        };
+        let complete = indexed_columns.iter().enumerate().all(|(position, &col)| {
+            bounded(position) || scan.schema.column(col).is_some_and(|c| c.is_non_null)
+        });
+        if !complete {
+            return None;
+        }
+
         let mut index_scan = IndexScanOp::new(
             scan.table_id,
             index_handle.id(),
-- 
2.43.0


From 741aab6a4f799ce2a315c094c7393f426fc887af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:32 +0000
Subject: [PATCH 21/22] fix: a row whose delete was rolled back can be deleted
 again

---
 crates/axmos-db/src/runtime/dml.rs   |  2 ++
 crates/axmos-db/src/storage/tuple.rs | 18 ++++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/crates/axmos-db/src/runtime/dml.rs b/crates/axmos-db/src/runtime/dml.rs
index fd8014b..a71be44 100644
--- a/crates/axmos-db/src/runtime/dml.rs
+++ b/crates/axmos-db/src/runtime/dml.rs
@@ -387,6 +387,7 @@ impl DmlExecutor {
 
         // Mark as deleted
         let mut deleted_tuple = tuple.clone();
+        deleted_tuple.clear_rolled_back_delete(&snapshot);
         deleted_tuple.delete(snapshot.xid())?;
 
         // Log the delete
@@ -565,6 +566,7 @@ impl DmlExecutor {
                         })?;
 
                         if let Some(mut tuple) = updated {
+                            tuple.clear_rolled_back_delete(&snapshot);
                             tuple.delete(self.ctx.tid())?;
                             index_btree.update(index_root, tuple, index_schema)?;
                         }
diff --git a/crates/axmos-db/src/storage/tuple.rs b/crates/axmos-db/src/storage/tuple.rs
index 555b247..704c896 100644
--- a/crates/axmos-db/src/storage/tuple.rs
+++ b/crates/axmos-db/src/storage/tuple.rs
@@ -1275,6 +1275,24 @@ impl Tuple {
         Ok(())
     }
 
+    /// Takes back a delete by a transaction that was rolled back.
+    ///
+    /// Returns whether there was one.
+    pub(crate) fn clear_rolled_back_delete(&mut self, snapshot: &Snapshot) -> bool {
+        if !self
+            .xmax()
+            .is_some_and(|xmax| snapshot.is_transaction_aborted(xmax))
+        {
+            return false;
+        }
+
+        let buffer = self.data.effective_data_mut();
+        let (header, _) = TupleHeader::read_from(buffer, 0);
+        TupleHeader::new(header.version(), header.xmin(), None).write_to(buffer, 0);
+
+        true
+    }
+
     /// Vacuums the tuple by removing all delta versions that are no longer needed
     /// by any active transaction.
     ///
-- 
2.43.0


From 99b404ce93e2410a9c44ee41b52ae4a37caa1fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:32 +0000
Subject: [PATCH 22/22] fix: VACUUM keeps rows whose delete was rolled back

---
 crates/axmos-db/src/schema/catalog.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/axmos-db/src/schema/catalog.rs b/crates/axmos-db/src/schema/catalog.rs
index 92aa7a1..2634c11 100644
--- a/crates/axmos-db/src/schema/catalog.rs
+++ b/crates/axmos-db/src/schema/catalog.rs
@@ -421,6 +421,8 @@ impl Catalog {
                     tree.with_cell_at(pos, |bytes| {
                         let mut tuple = Tuple::from_slice_unchecked(bytes)?;
                         let xmin = tuple.xmin();
+                        // The row of a rolled-back delete stays, the mark goes before the transaction is forgotten.
+                        let restored = tuple.clear_rolled_back_delete(snapshot);
 
                         let freed = if snapshot.is_transaction_aborted(xmin) || tuple.is_deleted() {
                             let freed = tuple.full_data().len();
@@ -428,7 +430,7 @@ impl Catalog {
                             freed
                         } else {
                             let freed = tuple.vaccum_with(oldest_active_xid, schema)?;
-                            if freed > 0 {
+                            if freed > 0 || restored {
                                 tuples_to_vaccum.push(tuple);
                             };
                             freed
-- 
2.43.0

