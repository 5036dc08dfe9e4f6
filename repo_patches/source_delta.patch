From f2c04f5cb5ab7af777e692ceac33e30786558d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:34 +0000
Subject: [PATCH 01/13] fix: resume frame sequences above completed segments

When the active segment was empty (for example right after a rotation) and no
state store recorded the last frame, the writer restarted numbering at the
initial sequence and reused numbers already present in completed segments.
---
 src/wal/storage.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/wal/storage.rs b/src/wal/storage.rs
index 9086ffb..a2a030c 100644
--- a/src/wal/storage.rs
+++ b/src/wal/storage.rs
@@ -276,7 +276,13 @@ impl WalStorage {
             buffer,
         } = self.scan_tail(&active.path).await?;
 
-        let last_frame_seq = last.as_ref().map(|meta| meta.seq);
+        let mut last_frame_seq = last.as_ref().map(|meta| meta.seq);
+        // The active segment may be empty (e.g. right after a rotation), so the newest frame can
+        // live in a completed segment.
+        for descriptor in completed.iter().filter(|segment| segment.bytes > 0) {
+            let scan = self.scan_tail(&descriptor.path).await?;
+            last_frame_seq = last_frame_seq.max(scan.last.map(|meta| meta.seq));
+        }
         let last_provisional_id = last.as_ref().and_then(|meta| meta.provisional_id);
         let last_valid_offset = last.as_ref().map(|meta| meta.end_offset);
 
-- 
2.43.0


From c4de83099e89c1057014261ad0d61546b85abb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:33 +0000
Subject: [PATCH 02/13] fix: never hand out a transaction id that is still in
 the log

The next provisional id was derived from the last frame of the active segment
only: a begin/abort marker, an interleaved commit of an older transaction or a
rotation made recovered databases reuse ids of unfinished transactions, whose
logged rows were then replayed as part of the new transaction.
---
 src/wal/storage.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/wal/storage.rs b/src/wal/storage.rs
index a2a030c..7a7a041 100644
--- a/src/wal/storage.rs
+++ b/src/wal/storage.rs
@@ -271,19 +271,21 @@ impl WalStorage {
         let completed = segments;
         let TailScan {
             last,
+            max_provisional_id,
             file_len,
             truncated,
             buffer,
         } = self.scan_tail(&active.path).await?;
 
         let mut last_frame_seq = last.as_ref().map(|meta| meta.seq);
+        let mut last_provisional_id = max_provisional_id;
         // The active segment may be empty (e.g. right after a rotation), so the newest frame can
         // live in a completed segment.
         for descriptor in completed.iter().filter(|segment| segment.bytes > 0) {
             let scan = self.scan_tail(&descriptor.path).await?;
             last_frame_seq = last_frame_seq.max(scan.last.map(|meta| meta.seq));
+            last_provisional_id = last_provisional_id.max(scan.max_provisional_id);
         }
-        let last_provisional_id = last.as_ref().and_then(|meta| meta.provisional_id);
         let last_valid_offset = last.as_ref().map(|meta| meta.end_offset);
 
         let mut truncated_tail = truncated;
@@ -341,6 +343,7 @@ impl WalStorage {
         let file_len = data.len();
         let mut offset = 0usize;
         let mut last = None;
+        let mut max_provisional_id = None;
         let mut truncated = false;
         while offset < data.len() {
             let slice = &data[offset..];
@@ -364,8 +367,10 @@ impl WalStorage {
 
             let payload = &data[(offset + FRAME_HEADER_SIZE)..payload_end];
             let provisional_id = match header.frame_type {
-                crate::wal::frame::FrameType::TxnAppend
-                | crate::wal::frame::FrameType::TxnCommit => {
+                crate::wal::frame::FrameType::TxnBegin
+                | crate::wal::frame::FrameType::TxnAppend
+                | crate::wal::frame::FrameType::TxnCommit
+                | crate::wal::frame::FrameType::TxnAbort => {
                     if payload.len() < 8 {
                         truncated = true;
                         break;
@@ -377,9 +382,9 @@ impl WalStorage {
                 _ => None,
             };
 
+            max_provisional_id = max_provisional_id.max(provisional_id);
             last = Some(FrameTailMeta {
                 seq: header.seq,
-                provisional_id,
                 end_offset: payload_end,
             });
             offset = payload_end;
@@ -397,6 +402,7 @@ impl WalStorage {
 
         Ok(TailScan {
             last,
+            max_provisional_id,
             file_len,
             truncated,
             buffer,
@@ -466,12 +472,12 @@ impl WalStorage {
 
 struct FrameTailMeta {
     seq: u64,
-    provisional_id: Option<u64>,
     end_offset: usize,
 }
 
 struct TailScan {
     last: Option<FrameTailMeta>,
+    max_provisional_id: Option<u64>,
     file_len: usize,
     truncated: bool,
     buffer: Option<Vec<u8>>,
@@ -532,7 +538,7 @@ pub(crate) struct TailMetadata {
     pub(super) completed: Vec<SegmentDescriptor>,
     /// Sequence of the last fully decoded frame (if any).
     pub(super) last_frame_seq: Option<u64>,
-    /// Provisional ID carried by the last complete frame (if any).
+    /// Highest provisional ID carried by any complete frame (if any).
     pub(super) last_provisional_id: Option<u64>,
 }
 
-- 
2.43.0


From a6de633ccee29eed6c3bf34e4f92b153a631f499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:27 +0000
Subject: [PATCH 03/13] fix: total order and consistent hash for floating point
 keys

NaN compared Equal with every number, so the key order was not transitive and
sorted structures could lose or misplace rows; 0.0 and -0.0 are equal but
hashed differently.
---
 src/key/row.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/key/row.rs b/src/key/row.rs
index 30b7c10..e376a85 100644
--- a/src/key/row.rs
+++ b/src/key/row.rs
@@ -323,16 +323,23 @@ fn floats_equal_f64(lhs: f64, rhs: f64) -> bool {
 }
 
 fn floats_cmp_f32(lhs: f32, rhs: f32) -> Ordering {
-    lhs.partial_cmp(&rhs).unwrap_or(Ordering::Equal)
+    // NaNs are equal to each other and sort after every number.
+    lhs.partial_cmp(&rhs)
+        .unwrap_or_else(|| lhs.is_nan().cmp(&rhs.is_nan()))
 }
 
 fn floats_cmp_f64(lhs: f64, rhs: f64) -> Ordering {
-    lhs.partial_cmp(&rhs).unwrap_or(Ordering::Equal)
+    // NaNs are equal to each other and sort after every number.
+    lhs.partial_cmp(&rhs)
+        .unwrap_or_else(|| lhs.is_nan().cmp(&rhs.is_nan()))
 }
 
 fn hash_float_f32<H: Hasher>(value: f32, state: &mut H) {
     if value.is_nan() {
         0xFFu8.hash(state);
+    } else if value == 0.0 {
+        // 0.0 and -0.0 are equal, so they must hash alike.
+        0.0f32.to_bits().hash(state);
     } else {
         value.to_bits().hash(state);
     }
@@ -341,6 +348,9 @@ fn hash_float_f32<H: Hasher>(value: f32, state: &mut H) {
 fn hash_float_f64<H: Hasher>(value: f64, state: &mut H) {
     if value.is_nan() {
         0xFFu8.hash(state);
+    } else if value == 0.0 {
+        // 0.0 and -0.0 are equal, so they must hash alike.
+        0.0f64.to_bits().hash(state);
     } else {
         value.to_bits().hash(state);
     }
-- 
2.43.0


From ba2a7c6fa2ed6f29c688d3526d7180dd7653b9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:31 +0000
Subject: [PATCH 04/13] fix: include tombstones in the commit timestamp bounds
 of sealed memtables

Segment pruning dropped a sealed memtable whose rows are all newer than the
read timestamp even when it holds a visible tombstone, resurrecting the
deleted row from an older table.
---
 src/inmem/immutable/memtable.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/inmem/immutable/memtable.rs b/src/inmem/immutable/memtable.rs
index fae1e7e..b2f99fa 100644
--- a/src/inmem/immutable/memtable.rs
+++ b/src/inmem/immutable/memtable.rs
@@ -148,7 +148,12 @@ impl ImmutableMemTable {
     }
 
     pub(crate) fn commit_ts_bounds(&self) -> Option<(Timestamp, Timestamp)> {
-        let mut iter = self.mvcc.commit_ts.iter();
+        // Tombstones live in the delete sidecar and count as versions too.
+        let mut iter = self
+            .mvcc
+            .commit_ts
+            .iter()
+            .chain(self.deletes.commit_ts.iter());
         let first = iter.next()?;
         let mut min_ts = *first;
         let mut max_ts = *first;
-- 
2.43.0


From 2c80fb924412c4a7792a47c38d84e9f53f3d40f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:34 +0000
Subject: [PATCH 05/13] fix: reject union key columns

Union cells have no key order (all compare equal) and cannot be turned into
owned keys, so rows of such a table overwrote each other; report the type as
unsupported like every other type without an order.
---
 src/extractor/extractors.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/extractor/extractors.rs b/src/extractor/extractors.rs
index eefda74..fb11a41 100644
--- a/src/extractor/extractors.rs
+++ b/src/extractor/extractors.rs
@@ -150,7 +150,6 @@ fn ensure_supported_type(data_type: &DataType, col: usize) -> Result<(), KeyExtr
         | DataType::LargeUtf8
         | DataType::Binary
         | DataType::LargeBinary
-        | DataType::Union(_, _)
         | DataType::FixedSizeBinary(_) => Ok(()),
         other => Err(KeyExtractError::UnsupportedType {
             col,
-- 
2.43.0


From b6800b90d852fdd897dba4de36b242cdb59dfc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:22 +0000
Subject: [PATCH 06/13] fix: merge all data and delete batches of an SST during
 major compaction

The merge cursor paired the i-th data batch with the i-th delete batch and,
once both were consumed, re-queued only the kind that finished last: rows or
tombstones beyond the first pair were dropped and the merge left key order.
Buffer and advance the two kinds independently.
---
 src/ondisk/merge.rs | 102 ++++++++++++++++++++------------------------
 1 file changed, 46 insertions(+), 56 deletions(-)

diff --git a/src/ondisk/merge.rs b/src/ondisk/merge.rs
index a7f3185..7814f58 100644
--- a/src/ondisk/merge.rs
+++ b/src/ondisk/merge.rs
@@ -6,7 +6,7 @@
 //! surface focused while merge-specific plumbing evolves.
 
 use std::{
-    collections::BinaryHeap,
+    collections::{BinaryHeap, VecDeque},
     sync::{Arc, atomic::AtomicU64},
 };
 
@@ -140,7 +140,9 @@ struct SourceCursor {
     source_idx: usize,
     extractor: Arc<dyn KeyProjection>,
     source: SsTableMergeSource,
-    batch: Option<SsTableStreamBatch>,
+    // Data rows and tombstones advance independently, so each kind buffers its own batches.
+    data: VecDeque<RecordBatch>,
+    deletes: VecDeque<RecordBatch>,
     data_idx: usize,
     delete_idx: usize,
 }
@@ -155,19 +157,35 @@ impl SourceCursor {
             source_idx,
             extractor,
             source,
-            batch: None,
+            data: VecDeque::new(),
+            deletes: VecDeque::new(),
             data_idx: 0,
             delete_idx: 0,
         }
     }
 
-    async fn ensure_batch(&mut self) -> Result<(), SsTableError> {
-        if self.batch.is_none() {
-            self.batch = self.source.next().await?;
-            self.data_idx = 0;
-            self.delete_idx = 0;
+    /// Buffer batches until the next row of `kind` is available or the source is exhausted.
+    async fn ensure_batch(&mut self, kind: RowKind) -> Result<(), SsTableError> {
+        loop {
+            let buffered = match kind {
+                RowKind::Data => &self.data,
+                RowKind::Delete => &self.deletes,
+            };
+            if !buffered.is_empty() {
+                return Ok(());
+            }
+            let Some(batch) = self.source.next().await? else {
+                return Ok(());
+            };
+            if batch.data.num_rows() > 0 {
+                self.data.push_back(batch.data);
+            }
+            if let Some(delete) = batch.delete
+                && delete.num_rows() > 0
+            {
+                self.deletes.push_back(delete);
+            }
         }
-        Ok(())
     }
 
     async fn enqueue(
@@ -177,27 +195,19 @@ impl SourceCursor {
         skip_key: Option<&KeyOwned>,
     ) -> Result<(), SsTableError> {
         loop {
-            self.ensure_batch().await?;
-            let Some(batch) = self.batch.as_ref() else {
-                return Ok(());
-            };
-
+            self.ensure_batch(kind).await?;
             match kind {
                 RowKind::Data => {
-                    if batch.data.num_rows() == 0 {
-                        self.data_idx = batch.data.num_rows();
+                    let Some(batch) = self.data.front() else {
                         return Ok(());
-                    }
-                    if self.data_idx >= batch.data.num_rows() {
-                        return Ok(());
-                    }
-                    let key = extract_key_at(&batch.data, self.extractor.as_ref(), self.data_idx)?;
+                    };
+                    let key = extract_key_at(batch, self.extractor.as_ref(), self.data_idx)?;
                     if skip_key.is_some_and(|k| k == &key) {
                         self.advance(kind);
                         continue;
                     }
-                    let commit_ts = commit_ts_at(&batch.data, self.data_idx)?;
-                    let seq = sequence_at(&batch.data, self.data_idx)?;
+                    let commit_ts = commit_ts_at(batch, self.data_idx)?;
+                    let seq = sequence_at(batch, self.data_idx)?;
                     heap.push(HeapEntry {
                         key,
                         commit_ts,
@@ -209,16 +219,9 @@ impl SourceCursor {
                     return Ok(());
                 }
                 RowKind::Delete => {
-                    let Some(delete_batch) = batch.delete.as_ref() else {
+                    let Some(delete_batch) = self.deletes.front() else {
                         return Ok(());
                     };
-                    if delete_batch.num_rows() == 0 {
-                        self.delete_idx = delete_batch.num_rows();
-                        return Ok(());
-                    }
-                    if self.delete_idx >= delete_batch.num_rows() {
-                        return Ok(());
-                    }
                     let key = extract_delete_key_at(
                         delete_batch,
                         self.extractor.as_ref(),
@@ -245,40 +248,29 @@ impl SourceCursor {
     }
 
     fn advance(&mut self, kind: RowKind) {
-        match kind {
-            RowKind::Data => self.data_idx += 1,
-            RowKind::Delete => self.delete_idx += 1,
-        }
-
-        if let Some(batch) = &self.batch {
-            let data_done = self.data_idx >= batch.data.num_rows();
-            let delete_done = batch
-                .delete
-                .as_ref()
-                .is_none_or(|d| self.delete_idx >= d.num_rows());
-            if data_done && delete_done {
-                self.batch = None;
-                self.data_idx = 0;
-                self.delete_idx = 0;
-            }
+        let (buffered, idx) = match kind {
+            RowKind::Data => (&mut self.data, &mut self.data_idx),
+            RowKind::Delete => (&mut self.deletes, &mut self.delete_idx),
+        };
+        *idx += 1;
+        if buffered.front().is_some_and(|b| *idx >= b.num_rows()) {
+            buffered.pop_front();
+            *idx = 0;
         }
     }
 
     fn append_data(&self, row_idx: usize, output: &mut OutputState) -> Result<(), SsTableError> {
-        let Some(batch) = self.batch.as_ref() else {
+        let Some(batch) = self.data.front() else {
             return Ok(());
         };
         let index = [row_idx as u32];
-        let data = take_record_batch(&batch.data, &index)?;
+        let data = take_record_batch(batch, &index)?;
         output.push_data(data);
         Ok(())
     }
 
     fn append_delete(&self, row_idx: usize, output: &mut OutputState) -> Result<(), SsTableError> {
-        let Some(batch) = self.batch.as_ref() else {
-            return Ok(());
-        };
-        let Some(delete_batch) = batch.delete.as_ref() else {
+        let Some(delete_batch) = self.deletes.front() else {
             return Ok(());
         };
         let index = [row_idx as u32];
@@ -689,9 +681,7 @@ impl SsTableMerger {
             let source =
                 SsTableMergeSource::new(Arc::clone(&self.config), descriptor, executor.clone())
                     .await?;
-            let mut cursor = SourceCursor::new(idx, Arc::clone(&extractor), source);
-            cursor.ensure_batch().await?;
-            sources.push(cursor);
+            sources.push(SourceCursor::new(idx, Arc::clone(&extractor), source));
         }
 
         let mut heap: BinaryHeap<HeapEntry> = BinaryHeap::new();
-- 
2.43.0


From 048b7d3a4212dd97e6b37f95cd96f30fafdab4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:14 +0000
Subject: [PATCH 07/13] fix: reject an invalid batch before sealing the full
 memtable

Validation ran after the slot reservation: when the memtable was full, an
invalid batch sealed it first and the error then dropped the sealed table and
all rows in it.
---
 src/inmem/mutable/memtable.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/inmem/mutable/memtable.rs b/src/inmem/mutable/memtable.rs
index 654e707..d69755d 100644
--- a/src/inmem/mutable/memtable.rs
+++ b/src/inmem/mutable/memtable.rs
@@ -143,6 +143,13 @@ impl DynMemInner {
         batch: RecordBatch,
         commit_ts_column: UInt64Array,
     ) -> Result<Result<(), KeyExtractError>, ()> {
+        // Validate before reserving a slot: a rejected batch must not trigger a seal.
+        let row_indices: Vec<usize> = (0..batch.num_rows()).collect();
+        let key_rows = match extractor.project_view(&batch, &row_indices) {
+            Ok(rows) => rows,
+            Err(e) => return Ok(Err(e)),
+        };
+
         // Reserve a slot atomically - no global lock needed.
         let batch_id = self.batch_cursor.fetch_add(1, Ordering::SeqCst);
         if batch_id >= self.batch_slots.len() {
@@ -160,12 +167,6 @@ impl DynMemInner {
             ))
             .expect("batch slot already initialized - invariant violated");
 
-        let row_indices: Vec<usize> = (0..batch.num_rows()).collect();
-        let key_rows = match extractor.project_view(&batch, &row_indices) {
-            Ok(rows) => rows,
-            Err(e) => return Ok(Err(e)),
-        };
-
         for (row_idx, key_row) in key_rows.into_iter().enumerate() {
             let key_size = key_row.heap_size();
             let key_owned = key_row.to_owned();
@@ -237,13 +238,6 @@ impl DynMemInner {
             ))));
         }
 
-        // Reserve a delete slot atomically (lock-free).
-        let slot_idx = self.delete_cursor.fetch_add(1, Ordering::SeqCst);
-        if slot_idx >= self.delete_slots.len() {
-            self.delete_cursor.fetch_sub(1, Ordering::SeqCst);
-            return Err(()); // Capacity exhausted
-        }
-
         let row_indices: Vec<usize> = (0..batch.num_rows()).collect();
         let key_rows = match delete_projection.project_view(&batch, &row_indices) {
             Ok(rows) => rows,
@@ -260,6 +254,13 @@ impl DynMemInner {
         };
         let attachment = DeleteAttachment::new(key_batch, commit_array.clone());
 
+        // Reserve a delete slot atomically (lock-free).
+        let slot_idx = self.delete_cursor.fetch_add(1, Ordering::SeqCst);
+        if slot_idx >= self.delete_slots.len() {
+            self.delete_cursor.fetch_sub(1, Ordering::SeqCst);
+            return Err(()); // Capacity exhausted
+        }
+
         // Write once via OnceLock (no concurrent writes to same slot).
         self.delete_slots[slot_idx]
             .set(attachment)
-- 
2.43.0


From 7ffbebe6d8e78317df6a0b6be5fcd030bdcc19d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:05 +0000
Subject: [PATCH 08/13] fix: empty batches do not consume memtable slots

A memtable filled with empty batches has an empty index, so sealing it was a
no-op that freed no slot and every later insert failed.
---
 src/inmem/mutable/memtable.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/inmem/mutable/memtable.rs b/src/inmem/mutable/memtable.rs
index d69755d..b38e74d 100644
--- a/src/inmem/mutable/memtable.rs
+++ b/src/inmem/mutable/memtable.rs
@@ -150,6 +150,11 @@ impl DynMemInner {
             Err(e) => return Ok(Err(e)),
         };
 
+        if key_rows.is_empty() {
+            // Nothing to index; a slot would only be reclaimed by sealing a non-empty index.
+            return Ok(Ok(()));
+        }
+
         // Reserve a slot atomically - no global lock needed.
         let batch_id = self.batch_cursor.fetch_add(1, Ordering::SeqCst);
         if batch_id >= self.batch_slots.len() {
-- 
2.43.0


From 526944ad86f2c24e7968c916fdd3250aa841bb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:01 +0000
Subject: [PATCH 09/13] fix: serialize float key components losslessly

---
 src/key/owned.rs | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/key/owned.rs b/src/key/owned.rs
index e310566..6072b9d 100644
--- a/src/key/owned.rs
+++ b/src/key/owned.rs
@@ -203,7 +203,11 @@ impl Serialize for KeyOwned {
                 .as_ref()
                 .ok_or_else(|| SerError::custom(format!("key component {idx} was null")))?;
             cell_data_type(value).map_err(|err| SerError::custom(err.to_string()))?;
-            seq.serialize_element(value)?;
+            match value {
+                DynCell::F32(v) => seq.serialize_element(&FloatBits::F32Bits(v.to_bits()))?,
+                DynCell::F64(v) => seq.serialize_element(&FloatBits::F64Bits(v.to_bits()))?,
+                value => seq.serialize_element(value)?,
+            }
         }
         seq.end()
     }
@@ -267,6 +271,32 @@ fn cell_data_type(cell: &DynCell) -> Result<DataType, KeyOwnedError> {
     }
 }
 
+/// Serialized form of floating point components. Text formats such as JSON can neither represent
+/// NaN and infinities nor guarantee that a decimal rendering parses back to the same value.
+#[derive(Serialize, Deserialize)]
+enum FloatBits {
+    F32Bits(u32),
+    F64Bits(u64),
+}
+
+/// Serialized key component; plain float cells are still accepted when reading.
+#[derive(Deserialize)]
+#[serde(untagged)]
+enum SerializedCell {
+    Float(FloatBits),
+    Cell(DynCell),
+}
+
+impl From<SerializedCell> for DynCell {
+    fn from(cell: SerializedCell) -> Self {
+        match cell {
+            SerializedCell::Float(FloatBits::F32Bits(bits)) => DynCell::F32(f32::from_bits(bits)),
+            SerializedCell::Float(FloatBits::F64Bits(bits)) => DynCell::F64(f64::from_bits(bits)),
+            SerializedCell::Cell(cell) => cell,
+        }
+    }
+}
+
 struct DynCellSeqVisitor;
 
 impl<'de> Visitor<'de> for DynCellSeqVisitor {
@@ -281,8 +311,8 @@ impl<'de> Visitor<'de> for DynCellSeqVisitor {
         A: SeqAccess<'de>,
     {
         let mut cells = Vec::new();
-        while let Some(cell) = seq.next_element::<DynCell>()? {
-            cells.push(cell);
+        while let Some(cell) = seq.next_element::<SerializedCell>()? {
+            cells.push(cell.into());
         }
         Ok(cells)
     }
-- 
2.43.0


From 49eabf8127dd137f1ad1b423a22c9b94c5fe4dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:41 +0000
Subject: [PATCH 10/13] fix: Transaction::get returns the newest visible
 memtable version and honours deletes

---
 src/db/scan.rs         | 28 ++++++++++++++++----------
 src/transaction/mod.rs | 45 +++++++++++++++++++++++++++---------------
 2 files changed, 47 insertions(+), 26 deletions(-)

diff --git a/src/db/scan.rs b/src/db/scan.rs
index b5b0987..a1c1cb5 100644
--- a/src/db/scan.rs
+++ b/src/db/scan.rs
@@ -808,10 +808,11 @@ where
         Ok(streams)
     }
 
-    pub(crate) fn scan_immutable_rows_at(
+    /// Newest visible version per key of each sealed memtable; deletes carry no row.
+    pub(crate) fn scan_immutable_versions_at(
         &self,
         read_ts: Timestamp,
-    ) -> Result<Vec<(KeyRow, DynRow)>, KeyExtractError> {
+    ) -> Result<Vec<(KeyRow, Timestamp, Option<DynRow>)>, KeyExtractError> {
         let mut rows = Vec::new();
         let segments = self.seal_state_lock().immutables.clone();
         for segment in segments {
@@ -824,10 +825,13 @@ where
                                 err.to_string(),
                             ))
                         })?;
-                        let (key_row, _) = key_view.into_parts();
-                        rows.push((key_row, row));
+                        let (key_row, ts) = key_view.into_parts();
+                        rows.push((key_row, ts, Some(row)));
+                    }
+                    Ok(ImmutableVisibleEntry::Tombstone(key_view)) => {
+                        let (key_row, ts) = key_view.into_parts();
+                        rows.push((key_row, ts, None));
                     }
-                    Ok(ImmutableVisibleEntry::Tombstone(_)) => {}
                     Err(err) => return Err(KeyExtractError::from(err)),
                 }
             }
@@ -835,10 +839,11 @@ where
         Ok(rows)
     }
 
-    pub(crate) fn scan_mutable_rows_at(
+    /// Newest visible version per key of the mutable memtable; deletes carry no row.
+    pub(crate) fn scan_mutable_versions_at(
         &self,
         read_ts: Timestamp,
-    ) -> Result<Vec<(KeyRow, DynRow)>, KeyExtractError> {
+    ) -> Result<Vec<(KeyRow, Timestamp, Option<DynRow>)>, KeyExtractError> {
         let mut rows = Vec::new();
         let mem = self.mem.read();
         let scan = mem.scan_visible(None, read_ts)?;
@@ -850,10 +855,13 @@ where
                             err.to_string(),
                         ))
                     })?;
-                    let (key_row, _) = key_view.into_parts();
-                    rows.push((key_row, row));
+                    let (key_row, ts) = key_view.into_parts();
+                    rows.push((key_row, ts, Some(row)));
+                }
+                Ok(DynRowScanEntry::Tombstone(key_view)) => {
+                    let (key_row, ts) = key_view.into_parts();
+                    rows.push((key_row, ts, None));
                 }
-                Ok(DynRowScanEntry::Tombstone(_)) => {}
                 Err(err) => return Err(KeyExtractError::from(err)),
             }
         }
diff --git a/src/transaction/mod.rs b/src/transaction/mod.rs
index 7188f62..365ed08 100644
--- a/src/transaction/mod.rs
+++ b/src/transaction/mod.rs
@@ -5,7 +5,11 @@
 //! snapshot-bound scans with read-your-writes semantics. It integrates with the DB’s MVCC
 //! clock and manifest/WAL plumbing for durable commits.
 
-use std::{collections::BTreeMap, fmt, sync::Arc};
+use std::{
+    collections::{BTreeMap, btree_map::Entry},
+    fmt,
+    sync::Arc,
+};
 
 use arrow_array::RecordBatch;
 use arrow_schema::{Fields, SchemaRef};
@@ -464,8 +468,8 @@ where
                 DynMutation::Delete(_) => None,
             });
         }
-        let rows = self.read_mutable_rows(&*self.handle)?;
-        Ok(rows.get(key).map(clone_dyn_row))
+        let mut versions = self.read_memtable_versions(&*self.handle)?;
+        Ok(versions.remove(key).and_then(|(_, row)| row))
     }
 
     /// Begin building a scan query with fluent API.
@@ -529,27 +533,36 @@ where
         Ok(())
     }
 
-    fn read_mutable_rows<C>(
+    /// Newest version per key visible in the memtables at the snapshot; deletes carry no row.
+    fn read_memtable_versions<C>(
         &self,
         db: &DbInner<C, E>,
-    ) -> Result<BTreeMap<KeyOwned, DynRow>, TransactionError>
+    ) -> Result<BTreeMap<KeyOwned, (Timestamp, Option<DynRow>)>, TransactionError>
     where
         C: crate::manifest::ManifestFs<E>,
         <C as fusio::fs::Fs>::File: fusio::durability::FileCommit,
     {
         let read_ts = self.read_ts();
-        let mut out = BTreeMap::new();
-        let rows = db
-            .scan_mutable_rows_at(read_ts)
+        let mut versions = db
+            .scan_immutable_versions_at(read_ts)
             .map_err(TransactionError::KeyExtract)?;
-        for (key_row, row) in rows {
-            out.insert(key_row.to_owned(), row);
-        }
-        for (key, row) in db
-            .scan_immutable_rows_at(read_ts)
-            .map_err(TransactionError::KeyExtract)?
-        {
-            out.entry(key.to_owned()).or_insert(row);
+        versions.extend(
+            db.scan_mutable_versions_at(read_ts)
+                .map_err(TransactionError::KeyExtract)?,
+        );
+        // Oldest source first: on equal timestamps the more recent source wins.
+        let mut out: BTreeMap<KeyOwned, (Timestamp, Option<DynRow>)> = BTreeMap::new();
+        for (key, ts, row) in versions {
+            match out.entry(key.to_owned()) {
+                Entry::Vacant(slot) => {
+                    slot.insert((ts, row));
+                }
+                Entry::Occupied(mut slot) => {
+                    if ts >= slot.get().0 {
+                        slot.insert((ts, row));
+                    }
+                }
+            }
         }
         Ok(out)
     }
-- 
2.43.0


From e4f01a1cba888e5bdb8d732d21c2abbf0dfa555b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:34 +0000
Subject: [PATCH 11/13] fix: never reissue commit timestamps after reopening a
 table with flushed SSTs

---
 src/db/builder.rs |  4 ++++
 src/db/mod.rs     | 31 +++++++++++++++++++++++++++----
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/db/builder.rs b/src/db/builder.rs
index 701f7ca..fa388c3 100644
--- a/src/db/builder.rs
+++ b/src/db/builder.rs
@@ -1140,6 +1140,10 @@ where
             wal_cfg.clone(),
             executor,
         );
+        inner
+            .restore_commit_clock(None)
+            .await
+            .map_err(DbBuildError::Manifest)?;
 
         inner.minor_compaction = minor_compaction_state;
         if let Some(options) = compaction_options.as_ref() {
diff --git a/src/db/mod.rs b/src/db/mod.rs
index 6b9c595..9f2c3a4 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -754,10 +754,9 @@ where
         }
 
         let last_commit_ts = db.replay_wal_events(events)?;
-        let effective_commit = last_commit_ts.or(state_commit_hint);
-        if let Some(ts) = effective_commit {
-            db.commit_clock.advance_to_at_least(ts.saturating_add(1));
-        }
+        db.restore_commit_clock(last_commit_ts.max(state_commit_hint))
+            .await
+            .map_err(manifest_error_as_key_extract)?;
 
         Ok(db)
     }
@@ -1203,6 +1202,30 @@ where
         }
     }
 
+    /// Advance the commit clock past every commit recovered from the WAL or recorded in the
+    /// SSTs of the latest manifest version, so that no timestamp is ever issued twice.
+    async fn restore_commit_clock(
+        &self,
+        recovered: Option<Timestamp>,
+    ) -> Result<(), ManifestError> {
+        let snapshot = self
+            .manifest
+            .snapshot_latest_with_fallback(self.manifest_table, &self.table_meta)
+            .await?;
+        let flushed = snapshot.latest_version.and_then(|version| {
+            version
+                .ssts()
+                .iter()
+                .flatten()
+                .filter_map(|entry| entry.stats().and_then(|stats| stats.max_commit_ts))
+                .max()
+        });
+        if let Some(ts) = recovered.max(flushed) {
+            self.commit_clock.advance_to_at_least(ts.saturating_add(1));
+        }
+        Ok(())
+    }
+
     async fn manifest_wal_floor(&self) -> Option<WalSegmentRef> {
         self.manifest
             .wal_floor(self.manifest_table)
-- 
2.43.0


From 20636a76172d8bc6ff7387f82debbbc3a2c63276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:53 +0000
Subject: [PATCH 12/13] fix: keep WAL segments of memtables sealed while a
 flush is running

---
 src/db/mod.rs | 2 +-
 src/db/wal.rs | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/db/mod.rs b/src/db/mod.rs
index 9f2c3a4..82c66d5 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -1111,7 +1111,7 @@ where
             builder.add_immutable(seg)?;
         }
         let existing_floor = self.manifest_wal_floor().await;
-        let live_floor = self.mutable_wal_range_snapshot().map(|range| range.first);
+        let live_floor = self.wal_live_frame_floor_after_flush(flush_count);
         let (wal_ids, wal_refs) = if let Some(cfg) = &self.wal_config {
             match manifest_ext::collect_wal_segment_refs(cfg, existing_floor.as_ref(), live_floor)
                 .await
diff --git a/src/db/wal.rs b/src/db/wal.rs
index 1a7e49e..155a7c0 100644
--- a/src/db/wal.rs
+++ b/src/db/wal.rs
@@ -342,11 +342,17 @@ where
     }
 
     pub(crate) fn wal_live_frame_floor(&self) -> Option<u64> {
+        self.wal_live_frame_floor_after_flush(0)
+    }
+
+    /// Lowest WAL frame still needed once the oldest `flushed` immutables are persisted.
+    pub(crate) fn wal_live_frame_floor_after_flush(&self, flushed: usize) -> Option<u64> {
         let mutable_floor = self.mutable_wal_range_snapshot().map(|range| range.first);
         let seal = self.seal_state_lock();
         let immutable_floor = seal
             .immutable_wal_ranges
             .iter()
+            .skip(flushed)
             .filter_map(|range| range.as_ref().map(|r| r.first))
             .min();
 
-- 
2.43.0


From e046bdbf0e1abf2dc2b96da6bde35cb114ea895e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:09 +0000
Subject: [PATCH 13/13] fix: never truncate the live WAL tail while collecting
 segment references

---
 src/wal/manifest_ext.rs |  4 ++--
 src/wal/storage.rs      | 45 +++++++++++++++++++++++++++++++++--------
 2 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/src/wal/manifest_ext.rs b/src/wal/manifest_ext.rs
index 3950b90..cb846e2 100644
--- a/src/wal/manifest_ext.rs
+++ b/src/wal/manifest_ext.rs
@@ -23,7 +23,7 @@ pub(crate) async fn collect_wal_segment_refs(
         .await?
         .and_then(|handle| handle.state().last_segment_seq);
 
-    let Some(tail) = storage.tail_metadata_with_hint(wal_state_hint).await? else {
+    let Some(tail) = storage.live_tail_metadata_with_hint(wal_state_hint).await? else {
         return Ok(Vec::new());
     };
 
@@ -47,7 +47,7 @@ pub(crate) async fn collect_wal_segment_refs(
 
     if tail.active.bytes > 0 {
         let bounds = storage
-            .segment_frame_bounds(&tail.active.path)
+            .segment_frame_bounds_within(&tail.active.path, tail.active.bytes)
             .await?
             .ok_or({
                 WalError::Corrupt("active wal segment contained no frames despite non-zero length")
diff --git a/src/wal/storage.rs b/src/wal/storage.rs
index 7a7a041..461da9d 100644
--- a/src/wal/storage.rs
+++ b/src/wal/storage.rs
@@ -174,6 +174,15 @@ impl WalStorage {
     pub(crate) async fn segment_frame_bounds(
         &self,
         path: &Path,
+    ) -> WalResult<Option<SegmentFrameBounds>> {
+        self.segment_frame_bounds_within(path, usize::MAX).await
+    }
+
+    /// Frame bounds of the first `len` bytes of a segment.
+    pub(crate) async fn segment_frame_bounds_within(
+        &self,
+        path: &Path,
+        len: usize,
     ) -> WalResult<Option<SegmentFrameBounds>> {
         let mut file = self
             .fs
@@ -194,7 +203,7 @@ impl WalStorage {
             ))
         })?;
 
-        decode_frame_bounds(&data)
+        decode_frame_bounds(&data[..data.len().min(len)])
     }
 
     fn should_attempt_fallback(
@@ -257,10 +266,28 @@ impl WalStorage {
         Ok(entries)
     }
 
-    /// Inspect the WAL tail while hinting at the highest expected sealed segment.
+    /// Inspect the WAL tail while hinting at the highest expected sealed segment, cutting off an
+    /// incomplete last frame. Must not run while a writer is appending to the log.
     pub(crate) async fn tail_metadata_with_hint(
         &self,
         wal_state_hint: Option<u64>,
+    ) -> WalResult<Option<TailMetadata>> {
+        self.inspect_tail(wal_state_hint, true).await
+    }
+
+    /// Inspect the tail of a WAL that may be live: an incomplete last frame is one the writer is
+    /// still appending, so it is left alone and not counted.
+    pub(crate) async fn live_tail_metadata_with_hint(
+        &self,
+        wal_state_hint: Option<u64>,
+    ) -> WalResult<Option<TailMetadata>> {
+        self.inspect_tail(wal_state_hint, false).await
+    }
+
+    async fn inspect_tail(
+        &self,
+        wal_state_hint: Option<u64>,
+        repair: bool,
     ) -> WalResult<Option<TailMetadata>> {
         let mut segments = self.list_segments_with_hint(wal_state_hint).await?;
         if segments.is_empty() {
@@ -301,13 +328,15 @@ impl WalStorage {
 
         if truncated_tail {
             let safe_len = last_valid_offset.unwrap_or(0);
-            let mut preserved = buffer.unwrap_or_else(Vec::new);
-            if preserved.len() > safe_len {
-                preserved.truncate(safe_len);
-            } else if preserved.len() < safe_len {
-                preserved.resize(safe_len, 0);
+            if repair {
+                let mut preserved = buffer.unwrap_or_else(Vec::new);
+                if preserved.len() > safe_len {
+                    preserved.truncate(safe_len);
+                } else if preserved.len() < safe_len {
+                    preserved.resize(safe_len, 0);
+                }
+                self.overwrite_segment(&active.path, preserved).await?;
             }
-            self.overwrite_segment(&active.path, preserved).await?;
             active.bytes = safe_len;
         } else {
             active.bytes = file_len;
-- 
2.43.0

