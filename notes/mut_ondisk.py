S='ondisk/sstable.rs'; G='ondisk/merge.rs'
M=[
(S,'Some(ref existing) if existing <= seg_min => {}','Some(ref existing) if existing >= seg_min => {}'),
(S,'Some(ref existing) if existing >= seg_max => {}','Some(_) => {}'),
(S,'Some(curr) if curr >= seg_max => {}','Some(curr) if curr > seg_min => {}'),
(S,'if data_rows == 0 && delete_rows == 0 {','if data_rows == 0 {'),
(S,'if data_rows == 0 && delete_rows == 0 {','if data_rows == 0 {',1),
(S,'self.staged.rows += data_rows;','self.staged.rows += data_rows + delete_rows;'),
(S,'self.staged.tombstones += segment_tombstones;','self.staged.tombstones = segment_tombstones;',1),
(S,'if staged_immutable_segments > 1 {','if staged_immutable_segments > 2 {'),
(S,'.then_with(|| rhs.commit_ts.cmp(&lhs.commit_ts))','.then_with(|| lhs.commit_ts.cmp(&rhs.commit_ts))'),
(S,'.then_with(|| rhs.commit_ts.cmp(&lhs.commit_ts))','.then_with(|| lhs.commit_ts.cmp(&rhs.commit_ts))',1),
(S,'row_offset = row_offset.saturating_add(batch.num_rows());','row_offset = row_offset.saturating_add(row_indices.len().saturating_sub(1));'),
(S,'if mvcc.commit_ts.len() != batch.num_rows() {','if mvcc.commit_ts.len() < batch.num_rows() {'),
(S,'if commit_col.null_count() > 0 {','if commit_col.null_count() > 1 {'),
(S,'if !segment.deletes.is_empty() {','if segment.deletes.len() > 1 {'),
(S,'self.delete_written = true;','self.delete_written = batch.num_rows() > 1;'),
(S,'let last = extract_key_at(&batch.data, extractor, data_rows - 1)?;','let last = extract_key_at(&batch.data, extractor, 0)?;'),
(S,'let last = extract_delete_key_at(delete_batch, extractor, delete_batch.num_rows() - 1)?;','let last = extract_delete_key_at(delete_batch, extractor, 0)?;'),
(S,'if let Some(writer) = self.delete_writer.take() {\n            writer.close().await?;\n        }','if let Some(writer) = self.delete_writer.take() {\n            drop(writer);\n        }'),
(S,'if let Some(writer) = self.delete_writer.take() {\n            writer.close().await?;','if let Some(writer) = self.delete_writer.take() {\n            let _ = writer.close().await;'),
(S,'let delete_file_name = format!("{:020}.delete.parquet", id.raw());','let delete_file_name = format!("{:020}.parquet", id.raw());'),
(S,'.with_wal_ids(wal_ids),','.with_wal_ids(wal_ids.filter(|w| w.len() > 2)),'),
(S,'tombstones: staged.tombstones,','tombstones: staged.segments,'),
(S,'usize::try_from(data_bytes).unwrap_or(usize::MAX)','usize::try_from(data_bytes / 2).unwrap_or(usize::MAX)'),
(S,'let level_name = format!("L{level}");','let level_name = format!("L{}", level.min(6));'),
(S,'if self.staged.segments == 0 {','if self.staged.rows == 0 {'),
(G,'Ordering::Less => Ordering::Greater,','Ordering::Less => Ordering::Less,'),
(G,'(RowKind::Delete, RowKind::Data) => Ordering::Greater,','(RowKind::Delete, RowKind::Data) => Ordering::Less,'),
(G,'other => other,\n                },\n                other => other,','other => other.reverse(),\n                },\n                other => other,'),
(G,'if batch.data.num_rows() > 0 {','if batch.data.num_rows() > 1 {'),
(G,'if skip_key.is_some_and(|k| k == &key) {\n                        self.advance(kind);\n                        continue;\n                    }\n                    let commit_ts = commit_ts_at(','if skip_key.is_some_and(|k| k > &key) {\n                        self.advance(kind);\n                        continue;\n                    }\n                    let commit_ts = commit_ts_at('),
(G,'if buffered.front().is_some_and(|b| *idx >= b.num_rows()) {','if buffered.front().is_some_and(|b| *idx + 1 >= b.num_rows()) {'),
(G,'*idx = 0;','*idx = 0;\n            buffered.clear();'),
(G,'self.tombstones += delete.num_rows();',''),
(G,'self.bytes += delete.get_array_memory_size();',''),
(G,'Some(cur) if cur <= *key => Some(cur),','Some(cur) if cur < *key => Some(cur),'),
(G,'Some(cur) if cur >= *key => Some(cur),','Some(cur) if cur <= *key => Some(cur),'),
(G,'Some(cur) if cur >= ts => Some(cur),','Some(cur) if cur <= ts => Some(cur),'),
(G,'self.pending_rows >= chunk_rows','self.pending_rows > chunk_rows'),
(G,'if self.data_parts.is_empty() && self.delete_parts.is_empty() {','if self.data_parts.is_empty() {'),
(G,'self.delete_parts.clear();\n        self.pending_rows = 0;\n        Ok(())','self.pending_rows = 0;\n        Ok(())'),
(G,'self.rows >= cap','self.rows > cap'),
(G,'over_rows || over_bytes','over_rows && over_bytes'),
(G,'            || self.rows > 0\n            || self.tombstones > 0','            || self.rows > 0'),
(G,'!self.batches.is_empty()\n            || !self.data_parts.is_empty()\n            || !self.delete_parts.is_empty()\n            || self.rows > 0\n            || self.tombstones > 0','!self.data_parts.is_empty() || self.rows > 0'),
(G,'wal.dedup();',''),
(G,'wal.sort();',''),
(G,'self.tombstones = 0;\n        self.bytes = 0;','self.bytes = 0;'),
(G,'cleanup_descriptors(&config, &written_desc).await;',''),
(G,'written_desc.push(table.descriptor().clone());',''),
(G,'let winner = &group[0];','let winner = &group[group.len() - 1];'),
(G,'if let Some(path) = desc.delete_path() {\n            let _ = fs.remove(path).await;\n        }',''),
(G,'let _ = fs.remove(path).await;','if fs.remove(path).await.is_err() { continue; }'),
(G,'if row >= batch.num_rows() {\n        return Err(SsTableError::KeyExtract(KeyExtractError::RowOutOfBounds(\n            row,\n            batch.num_rows(),\n        )));\n    }',''),
(G,'if row >= commit_col.len() {\n        return Err(SsTableError::KeyExtract(KeyExtractError::RowOutOfBounds(\n            row,\n            commit_col.len(),\n        )));\n    }\n    Ok(Timestamp::new(commit_col.value(row)))','Ok(Timestamp::new(commit_col.value(row.min(commit_col.len() - 1))))'),
(G,'(0..key_len).map(|idx| batch.column(idx).clone()).collect()','extractor.key_indices().iter().map(|idx| batch.column(*idx).clone()).collect()'),
(G,'self.target.level(),','self.inputs[0].level(),'),
(G,'iterations > max_iters','iterations >= max_iters'),
(G,'self.max_iterations = Some(max_iterations.max(1));','self.max_iterations = Some(max_iterations);'),
(G,'self.max_output_bytes = max_bytes;','self.max_output_bytes = max_rows;'),
]
