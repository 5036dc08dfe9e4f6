# behaviour-preserving edits of the on-disk code (every check must stay quiet)
G='ondisk/merge.rs'
M=[
(G,"""        match self.key.cmp(&other.key) {
            Ordering::Less => Ordering::Greater,
            Ordering::Greater => Ordering::Less,
            Ordering::Equal => match self.commit_ts.cmp(&other.commit_ts) {
                Ordering::Equal => match self.seq.cmp(&other.seq) {
                    Ordering::Equal => match (self.kind, other.kind) {
                        (RowKind::Delete, RowKind::Data) => Ordering::Greater,
                        (RowKind::Data, RowKind::Delete) => Ordering::Less,
                        _ => Ordering::Equal,
                    },
                    other => other,
                },
                other => other,
            },
        }""","""        let by_kind = match (self.kind, other.kind) {
            (RowKind::Delete, RowKind::Data) => Ordering::Greater,
            (RowKind::Data, RowKind::Delete) => Ordering::Less,
            _ => Ordering::Equal,
        };
        other
            .key
            .cmp(&self.key)
            .then_with(|| self.commit_ts.cmp(&other.commit_ts))
            .then_with(|| self.seq.cmp(&other.seq))
            .then(by_kind)"""),
(G,"""        match self.key.cmp(&other.key) {
            Ordering::Less => Ordering::Greater,
            Ordering::Greater => Ordering::Less,
            Ordering::Equal => match""","""        match other.key.cmp(&self.key) {
            Ordering::Less => Ordering::Less,
            Ordering::Greater => Ordering::Greater,
            Ordering::Equal => match"""),
(G,"""            let buffered = match kind {
                RowKind::Data => &self.data,
                RowKind::Delete => &self.deletes,
            };
            if !buffered.is_empty() {
                return Ok(());
            }
            let Some(batch) = self.source.next().await? else {
                return Ok(());
            };
            if batch.data.num_rows() > 0 {
                self.data.push_back(batch.data);
            }
            if let Some(delete) = batch.delete
                && delete.num_rows() > 0
            {
                self.deletes.push_back(delete);
            }""","""            let ready = match kind {
                RowKind::Data => self.data.front().is_some(),
                RowKind::Delete => self.deletes.front().is_some(),
            };
            if ready {
                return Ok(());
            }
            match self.source.next().await? {
                None => return Ok(()),
                Some(SsTableStreamBatch { data, delete }) => {
                    if let Some(delete) = delete.filter(|batch| batch.num_rows() > 0) {
                        self.deletes.push_back(delete);
                    }
                    if data.num_rows() != 0 {
                        self.data.push_back(data);
                    }
                }
            }"""),
(G,"""        let (buffered, idx) = match kind {
            RowKind::Data => (&mut self.data, &mut self.data_idx),
            RowKind::Delete => (&mut self.deletes, &mut self.delete_idx),
        };
        *idx += 1;
        if buffered.front().is_some_and(|b| *idx >= b.num_rows()) {
            buffered.pop_front();
            *idx = 0;
        }""","""        match kind {
            RowKind::Data => {
                self.data_idx += 1;
                if let Some(front) = self.data.front()
                    && self.data_idx >= front.num_rows()
                {
                    self.data_idx = 0;
                    self.data.pop_front();
                }
            }
            RowKind::Delete => {
                let next = self.delete_idx + 1;
                let exhausted = match self.deletes.front() {
                    Some(front) => next >= front.num_rows(),
                    None => false,
                };
                if exhausted {
                    self.deletes.pop_front();
                }
                self.delete_idx = if exhausted { 0 } else { next };
            }
        }"""),
(G,"""                    if skip_key.is_some_and(|k| k == &key) {
                        self.advance(kind);
                        continue;
                    }
                    let commit_ts = commit_ts_at(batch, self.data_idx)?;
                    let seq = sequence_at(batch, self.data_idx)?;""","""                    let shadowed = match skip_key {
                        Some(skip) => *skip == key,
                        None => false,
                    };
                    if shadowed {
                        self.advance(RowKind::Data);
                        continue;
                    }
                    let seq = sequence_at(batch, self.data_idx)?;
                    let commit_ts = commit_ts_at(batch, self.data_idx)?;"""),
(G,"""        let Some(batch) = self.data.front() else {
            return Ok(());
        };
        let index = [row_idx as u32];
        let data = take_record_batch(batch, &index)?;
        output.push_data(data);
        Ok(())""","""        if let Some(batch) = self.data.front() {
            output.push_data(take_record_batch(batch, &[row_idx as u32])?);
        }
        Ok(())"""),
(G,"""        self.pending_rows += data.num_rows();
        self.rows += data.num_rows();
        self.bytes += data.get_array_memory_size();
        self.data_parts.push(data);""","""        let added = data.num_rows();
        self.bytes += data.get_array_memory_size();
        self.rows += added;
        self.pending_rows += added;
        self.data_parts.push(data);"""),
(G,"""        self.min_key = match self.min_key.take() {
            Some(cur) if cur <= *key => Some(cur),
            _ => Some(key.clone()),
        };
        self.max_key = match self.max_key.take() {
            Some(cur) if cur >= *key => Some(cur),
            _ => Some(key.clone()),
        };""","""        if self.min_key.as_ref().is_none_or(|cur| key < cur) {
            self.min_key = Some(key.clone());
        }
        if self.max_key.as_ref().is_none_or(|cur| key > cur) {
            self.max_key = Some(key.clone());
        }"""),
(G,"""        self.min_commit_ts = match self.min_commit_ts.take() {
            Some(cur) if cur <= ts => Some(cur),
            _ => Some(ts),
        };
        self.max_commit_ts = match self.max_commit_ts.take() {
            Some(cur) if cur >= ts => Some(cur),
            _ => Some(ts),
        };""","""        self.min_commit_ts = Some(self.min_commit_ts.map_or(ts, |cur| cur.min(ts)));
        self.max_commit_ts = Some(self.max_commit_ts.map_or(ts, |cur| cur.max(ts)));"""),
(G,"""        self.pending_rows >= chunk_rows
""","""        !(self.pending_rows < chunk_rows)
"""),
(G,"""        let data_batch = if self.data_parts.is_empty() {
            RecordBatch::new_empty(data_schema.clone())
        } else {
            concat_batches(&data_schema, &self.data_parts).map_err(SsTableError::Parquet)?
        };
        let delete_batch = if self.delete_parts.is_empty() {
            None
        } else {
            let schema = self.delete_parts[0].schema();
            Some(concat_batches(&schema, &self.delete_parts).map_err(SsTableError::Parquet)?)
        };
        self.batches.push(SsTableStreamBatch {
            data: data_batch,
            delete: delete_batch,
        });
        self.data_parts.clear();
        self.delete_parts.clear();
        self.pending_rows = 0;""","""        let data_parts = std::mem::take(&mut self.data_parts);
        let delete_parts = std::mem::take(&mut self.delete_parts);
        let delete = match delete_parts.first() {
            None => None,
            Some(first) => {
                let schema = first.schema();
                Some(concat_batches(&schema, &delete_parts).map_err(SsTableError::Parquet)?)
            }
        };
        let data = match data_parts.is_empty() {
            true => RecordBatch::new_empty(data_schema.clone()),
            false => concat_batches(&data_schema, &data_parts).map_err(SsTableError::Parquet)?,
        };
        self.pending_rows = 0;
        self.batches.push(SsTableStreamBatch { data, delete });"""),
(G,"""        let over_rows = max_rows.map(|cap| self.rows >= cap).unwrap_or(false);
        let over_bytes = max_bytes.map(|cap| self.bytes >= cap).unwrap_or(false);
        over_rows || over_bytes""","""        if let Some(cap) = max_bytes
            && cap <= self.bytes
        {
            return true;
        }
        max_rows.is_some_and(|cap| self.rows >= cap)"""),
(G,"""        !self.batches.is_empty()
            || !self.data_parts.is_empty()
            || !self.delete_parts.is_empty()
            || self.rows > 0
            || self.tombstones > 0""","""        let empty = self.rows == 0
            && self.tombstones == 0
            && self.batches.is_empty()
            && self.data_parts.is_empty()
            && self.delete_parts.is_empty();
        !empty"""),
(G,"""        if !wal_ids.is_empty() {
            let mut wal = wal_ids.to_vec();
            wal.sort();
            wal.dedup();
            writer.set_wal_ids(Some(wal));
        }""","""        if !wal_ids.is_empty() {
            let unique: std::collections::BTreeSet<FileId> = wal_ids.iter().copied().collect();
            writer.set_wal_ids(Some(unique.into_iter().collect()));
        }"""),
(G,"""        self.batches.clear();
        self.data_parts.clear();
        self.delete_parts.clear();
        self.pending_rows = 0;
        self.rows = 0;
        self.tombstones = 0;
        self.bytes = 0;
        self.min_key = None;
        self.max_key = None;
        self.min_commit_ts = None;
        self.max_commit_ts = None;""","""        *self = Self::new();"""),
]
S='ondisk/sstable.rs'; C='ondisk/scan.rs'; B='ondisk/bloom.rs'
M+=[
# merge.rs, second half
(G,"""            let mut group = vec![entry];
            while let Some(next) = heap.peek() {
                if next.key == group[0].key {
                    group.push(heap.pop().expect("heap pop must succeed"));
                } else {
                    break;
                }
            }
""","""            let mut group = vec![entry];
            while heap.peek().is_some_and(|next| next.key == group[0].key) {
                if let Some(same) = heap.pop() {
                    group.push(same);
                }
            }
"""),
(G,"""            for candidate in &group {
                output_state.update_commit_bounds(candidate.commit_ts);
            }

            let winner = &group[0];
            let group_key = winner.key.clone();
            output_state.update_key_bounds(&group_key);
            match winner.kind {
                RowKind::Data => {
                    sources[winner.source_idx].append_data(winner.row_idx, &mut output_state)?
                }
                RowKind::Delete => {
                    sources[winner.source_idx].append_delete(winner.row_idx, &mut output_state)?
                }
            }
""","""            let group_key = group[0].key.clone();
            output_state.update_key_bounds(&group_key);
            group
                .iter()
                .for_each(|candidate| output_state.update_commit_bounds(candidate.commit_ts));

            let HeapEntry {
                kind,
                source_idx,
                row_idx,
                ..
            } = group[0].clone();
            let source = &sources[source_idx];
            if kind == RowKind::Delete {
                source.append_delete(row_idx, &mut output_state)?;
            } else {
                source.append_data(row_idx, &mut output_state)?;
            }
"""),
(G,"""            for candidate in group {
                sources[candidate.source_idx].advance(candidate.kind);
                sources[candidate.source_idx]
                    .enqueue(candidate.kind, &mut heap, Some(&group_key))
                    .await?;
            }
""","""            for HeapEntry {
                kind, source_idx, ..
            } in group
            {
                let source = &mut sources[source_idx];
                source.advance(kind);
                source.enqueue(kind, &mut heap, Some(&group_key)).await?;
            }
"""),
(G,"""        let Some(generator) = &self.next_output_id else {
            return Err(SsTableError::MissingIdAllocator);
        };
        let id = generator.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        Ok(SsTableDescriptor::new(
            SsTableId::new(id),
            self.target.level(),
        ))""","""        let level = self.target.level();
        self.next_output_id
            .as_ref()
            .map(|generator| generator.fetch_add(1, std::sync::atomic::Ordering::SeqCst))
            .map(|id| SsTableDescriptor::new(SsTableId::new(id), level))
            .ok_or(SsTableError::MissingIdAllocator)"""),
(G,"""    let keys = extractor.project_view(batch, &[row])?;
    let key_row = keys
        .into_iter()
        .next()
        .ok_or(SsTableError::SidecarMismatch("key projection empty"))?;
    KeyOwned::from_key_row(&key_row).map_err(SsTableError::KeyOwned)""","""    let mut keys = extractor.project_view(batch, &[row])?;
    let Some(key_row) = keys.pop() else {
        return Err(SsTableError::SidecarMismatch("key projection empty"));
    };
    Ok(KeyOwned::from_key_row(&key_row)?)"""),
(G,"""    if let Some(seq_col) = batch
        .column_by_name(MVCC_SEQUENCE_COL)
        .and_then(|arr| arr.as_any().downcast_ref::<UInt64Array>())
    {
        if row >= seq_col.len() {
            return Err(SsTableError::KeyExtract(KeyExtractError::RowOutOfBounds(
                row,
                seq_col.len(),
            )));
        }
        return Ok(seq_col.value(row));
    }
    Ok(row as u64)
}

pub(super) fn sequence_at_delete""","""    let seq_col = batch
        .column_by_name(MVCC_SEQUENCE_COL)
        .and_then(|arr| arr.as_any().downcast_ref::<UInt64Array>());
    match seq_col {
        None => Ok(row as u64),
        Some(col) if row < col.len() => Ok(col.value(row)),
        Some(col) => Err(SsTableError::KeyExtract(KeyExtractError::RowOutOfBounds(
            row,
            col.len(),
        ))),
    }
}

pub(super) fn sequence_at_delete"""),
(G,"""    let commit_ts: Vec<Timestamp> = (0..commits.len())
        .map(|idx| Timestamp::new(commits.value(idx)))
        .collect();
    Ok(DeleteSidecar::new(keys, commit_ts))""","""    let mut commit_ts = Vec::with_capacity(commits.len());
    for raw in commits.values() {
        commit_ts.push(Timestamp::new(*raw));
    }
    Ok(DeleteSidecar::new(keys, commit_ts))"""),
(G,"""    let key_columns: Vec<_> = (0..key_len).map(|idx| batch.column(idx).clone()).collect();
""","""    let key_columns: Vec<_> = batch.columns().iter().take(key_len).cloned().collect();
"""),
(G,"""        if let Some(path) = desc.data_path() {
            let _ = fs.remove(path).await;
        }
        if let Some(path) = desc.mvcc_path() {
            let _ = fs.remove(path).await;
        }
        if let Some(path) = desc.delete_path() {
            let _ = fs.remove(path).await;
        }""","""        let paths = [desc.data_path(), desc.mvcc_path(), desc.delete_path()];
        for path in paths.into_iter().flatten() {
            let _ = fs.remove(path).await;
        }"""),
# sstable.rs
(S,"""        match self.min_key {
            Some(ref existing) if existing <= seg_min => {}
            _ => self.min_key = Some(seg_min.clone()),
        }
        match self.max_key {
            Some(ref existing) if existing >= seg_max => {}
            _ => self.max_key = Some(seg_max.clone()),
        }""","""        let lower = match &self.min_key {
            Some(existing) => seg_min < existing,
            None => true,
        };
        if lower {
            self.min_key = Some(seg_min.clone());
        }
        let higher = match &self.max_key {
            Some(existing) => existing < seg_max,
            None => true,
        };
        if higher {
            self.max_key = Some(seg_max.clone());
        }"""),
(S,"""        match self.min_commit_ts {
            Some(curr) if curr <= seg_min => {}
            _ => self.min_commit_ts = Some(seg_min),
        }
        match self.max_commit_ts {
            Some(curr) if curr >= seg_max => {}
            _ => self.max_commit_ts = Some(seg_max),
        }""","""        self.min_commit_ts = self.min_commit_ts.map(|curr| curr.min(seg_min)).or(Some(seg_min));
        self.max_commit_ts = Some(match self.max_commit_ts {
            Some(curr) => std::cmp::max(curr, seg_max),
            None => seg_max,
        });"""),
(S,"""        for entry in segment.row_iter() {
            if entry.tombstone {
                segment_tombstones += 1;
            }
            seg_min_ts = Some(match seg_min_ts {
                Some(current) if current <= entry.commit_ts => current,
                _ => entry.commit_ts,
            });
            seg_max_ts = Some(match seg_max_ts {
                Some(current) if current >= entry.commit_ts => current,
                _ => entry.commit_ts,
            });
        }""","""        for entry in segment.row_iter() {
            let ts = entry.commit_ts;
            segment_tombstones += usize::from(entry.tombstone);
            seg_min_ts = Some(seg_min_ts.map_or(ts, |current| current.min(ts)));
            seg_max_ts = Some(seg_max_ts.map_or(ts, |current| current.max(ts)));
        }"""),
(S,"""        self.staged.segments += 1;
        self.staged.rows += data_rows;
        self.staged.tombstones += segment_tombstones;
        let mvcc = segment.mvcc_columns().clone();
        let data_with_commit = append_commit_column(segment.storage().clone(), &mvcc)?;
        let staged_segment = StagedSegment {
            data_with_commit,
            deletes: segment.delete_sidecar().clone(),
        };
        self.segments.push(staged_segment);
        self.staged_immutable_segments += 1;
        Ok(())""","""        let data_with_commit =
            append_commit_column(segment.storage().clone(), segment.mvcc_columns())?;
        self.segments.push(StagedSegment {
            deletes: segment.delete_sidecar().clone(),
            data_with_commit,
        });
        self.staged_immutable_segments += 1;
        self.staged.tombstones += segment_tombstones;
        self.staged.rows += data_rows;
        self.staged.segments += 1;
        Ok(())"""),
(S,"""            let commits = commit_ts_column(&batch.data)?;
            for idx in 0..data_rows {
                let ts = Timestamp::new(commits.value(idx));
                seg_min_ts = Some(seg_min_ts.map(|t| std::cmp::min(t, ts)).unwrap_or(ts));
                seg_max_ts = Some(seg_max_ts.map(|t| std::cmp::max(t, ts)).unwrap_or(ts));
            }""","""            let commits = commit_ts_column(&batch.data)?;
            for raw in commits.values().iter() {
                let ts = Timestamp::new(*raw);
                seg_min_ts = match seg_min_ts {
                    Some(t) if t < ts => Some(t),
                    _ => Some(ts),
                };
                seg_max_ts = match seg_max_ts {
                    Some(t) if t > ts => Some(t),
                    _ => Some(ts),
                };
            }"""),
(S,"""        if self.staged.segments == 0 {
            return Err(SsTableError::NoImmutableSegments);
        }

        let ParquetTableWriter {
            config,
            descriptor,
            staged,
            mut segments,
            wal_ids,
            staged_immutable_segments,
        } = self;

        if staged_immutable_segments > 1 {
            // Multi-immutable flush can interleave key ranges across sealed segments. Normalize
            // to a single globally ordered run so source-level dedup in `SstableScan` stays sound.
            segments = normalize_immutable_flush_segments(segments, config.as_ref())?;
        }
""","""        let ParquetTableWriter {
            config,
            descriptor,
            staged,
            segments,
            wal_ids,
            staged_immutable_segments,
        } = self;
        if staged.segments == 0 {
            return Err(SsTableError::NoImmutableSegments);
        }

        let segments = if staged_immutable_segments > 1 {
            normalize_immutable_flush_segments(segments, config.as_ref())?
        } else {
            segments
        };
"""),
(S,"""    keys.sort_by(|lhs, rhs| {
        lhs.key
            .cmp(&rhs.key)
            .then_with(|| rhs.commit_ts.cmp(&lhs.commit_ts))
            .then_with(|| rhs.sequence.cmp(&lhs.sequence))
            .then_with(|| lhs.row_idx.cmp(&rhs.row_idx))
    });
    let sorted_indices: Vec<u32> = keys.into_iter().map(|entry| entry.row_idx).collect();
    take_record_batch(&merged, &sorted_indices)""","""    keys.sort_unstable_by(|lhs, rhs| match lhs.key.cmp(&rhs.key) {
        std::cmp::Ordering::Equal => match rhs.commit_ts.cmp(&lhs.commit_ts) {
            std::cmp::Ordering::Equal => match rhs.sequence.cmp(&lhs.sequence) {
                std::cmp::Ordering::Equal => lhs.row_idx.cmp(&rhs.row_idx),
                by_sequence => by_sequence,
            },
            by_commit => by_commit,
        },
        by_key => by_key,
    });
    let mut order = Vec::with_capacity(keys.len());
    for SortKey { row_idx, .. } in &keys {
        order.push(*row_idx);
    }
    take_record_batch(&merged, &order)"""),
(S,"""        all_batches.push(batch.clone());
        if batch.num_rows() == 0 {
            continue;
        }

        let row_indices: Vec<usize> = (0..batch.num_rows()).collect();
        let key_rows = extractor.project_view(batch, &row_indices)?;
        let commits = commit_ts_column(batch)?;""","""        let rows = batch.num_rows();
        all_batches.push(batch.clone());
        if rows == 0 {
            continue;
        }

        let commits = commit_ts_column(batch)?;
        let row_indices = (0..rows).collect::<Vec<usize>>();
        let key_rows = extractor.project_view(batch, row_indices.as_slice())?;"""),
(S,"""    if mvcc.commit_ts.len() != batch.num_rows() {
        return Err(SsTableError::SidecarMismatch(
            "commit_ts length mismatch data rows",
        ));
    }
    let commit_values = UInt64Array::from_iter_values(mvcc.commit_ts.iter().map(|ts| ts.get()));
    let mut fields = batch.schema().fields().to_vec();
    fields.push(Field::new(MVCC_COMMIT_COL, DataType::UInt64, false).into());
    let mut columns = batch.columns().to_vec();
    columns.push(Arc::new(commit_values) as ArrayRef);""","""    let rows = batch.num_rows();
    if mvcc.commit_ts.len() != rows {
        return Err(SsTableError::SidecarMismatch(
            "commit_ts length mismatch data rows",
        ));
    }
    let raw: Vec<u64> = mvcc.commit_ts.iter().map(|ts| ts.get()).collect();
    let mut columns = batch.columns().to_vec();
    columns.push(Arc::new(UInt64Array::from(raw)) as ArrayRef);
    let mut fields = batch.schema().fields().to_vec();
    fields.push(Arc::new(Field::new(MVCC_COMMIT_COL, DataType::UInt64, false)));"""),
(S,"""    let commits: Vec<Timestamp> = commit_col
        .values()
        .iter()
        .map(|v| Timestamp::new(*v))
        .collect();
    let tombstone = vec![false; commits.len()];
    Ok(MvccColumns::new(commits, tombstone))""","""    let rows = commit_col.len();
    let mut commits = Vec::with_capacity(rows);
    for row in 0..rows {
        commits.push(Timestamp::new(commit_col.value(row)));
    }
    Ok(MvccColumns::new(commits, vec![false; rows]))"""),
(S,"""        if let Some(writer) = self.data_writer.as_mut() {
            writer.write(&segment.data_with_commit).await?;
        } else {
            return Err(SsTableError::WriterClosed);
        }
        if !segment.deletes.is_empty() {
            let delete_batch = segment
                .deletes
                .to_record_batch()
                .map_err(|err| SsTableError::Parquet(ParquetError::ArrowError(err.to_string())))?;
            self.write_delete_batch(delete_batch).await?;
        }
        Ok(())""","""        let Some(writer) = self.data_writer.as_mut() else {
            return Err(SsTableError::WriterClosed);
        };
        writer.write(&segment.data_with_commit).await?;
        let deletes = &segment.deletes;
        if deletes.is_empty() {
            return Ok(());
        }
        let delete_batch = deletes
            .to_record_batch()
            .map_err(|err| SsTableError::Parquet(ParquetError::ArrowError(err.to_string())))?;
        self.write_delete_batch(delete_batch).await"""),
(S,"""        if let Some(writer) = self.delete_writer.as_mut() {
            writer.write(&batch).await?;
            self.delete_written = true;
            Ok(())
        } else {
            Err(SsTableError::WriterClosed)
        }""","""        match self.delete_writer.as_mut() {
            Some(writer) => {
                self.delete_written = true;
                writer.write(&batch).await?;
                Ok(())
            }
            None => Err(SsTableError::WriterClosed),
        }"""),
(S,"""        let delete_path = if self.delete_written {
            Some(self.delete_path.clone())
        } else {
            None
        };

        Ok((data_path, delete_path, data_bytes))""","""        let delete_path = self.delete_written.then(|| self.delete_path.clone());
        Ok((data_path, delete_path, data_bytes))"""),
(S,"""    let data_file_name = format!("{:020}.parquet", id.raw());
    let data_part = PathPart::parse(&data_file_name)
        .map_err(|err| SsTableError::InvalidPath(err.to_string()))?;
    let data_path = dir_path.child(data_part);

    let delete_file_name = format!("{:020}.delete.parquet", id.raw());
    let delete_part = PathPart::parse(&delete_file_name)
        .map_err(|err| SsTableError::InvalidPath(err.to_string()))?;
    let delete_path = dir_path.child(delete_part);
""","""    let raw = id.raw();
    let child = |name: String| -> Result<Path, SsTableError> {
        let part =
            PathPart::parse(&name).map_err(|err| SsTableError::InvalidPath(err.to_string()))?;
        Ok(dir_path.child(part))
    };
    let data_path = child(format!("{raw:020}.parquet"))?;
    let delete_path = child(format!("{raw:020}.delete.parquet"))?;
"""),
(S,"""    let mut columns = Vec::with_capacity(batch.num_columns());
    for col in batch.columns() {
        let taken = arrow_take(col.as_ref(), &idx_array, None)
            .map_err(|err| SsTableError::Parquet(ParquetError::ArrowError(err.to_string())))?;
        columns.push(taken);
    }
""","""    let columns = batch
        .columns()
        .iter()
        .map(|col| {
            arrow_take(col.as_ref(), &idx_array, None)
                .map_err(|err| SsTableError::Parquet(ParquetError::ArrowError(err.to_string())))
        })
        .collect::<Result<Vec<_>, SsTableError>>()?;
"""),
(S,"""        let column_count = column_index[row_group_idx].len();
        if column_count != expected_columns {""","""        let column_count = column_index[row_group_idx].len();
        let offsets = offset_index[row_group_idx].len();
        if !(column_count == expected_columns) {"""),
# scan.rs
(C,"""            match (peeked_data, peeked_delete) {
                (None, None) => {
                    // Both streams exhausted
                    return Poll::Ready(None);
                }
                (Some(data), None) => {
                    // Only data remains
                    if let Some(entry) =
                        process_data_entry(data, this.current_key, this.emitted_for_key)
                    {
                        return Poll::Ready(Some(Ok(entry)));
                    }
                    // Skipped (dedup), continue loop
                }""","""            match (peeked_data, peeked_delete) {
                (None, None) => return Poll::Ready(None),
                (Some(data), None) => {
                    match process_data_entry(data, this.current_key, this.emitted_for_key) {
                        Some(entry) => return Poll::Ready(Some(Ok(entry))),
                        None => continue,
                    }
                }"""),
(C,"""                            let data_ts = data.key_ts.timestamp();
                            if delete.ts >= data_ts {
                                // Delete wins (or tie) - consume both
                                if let Some(entry) = process_delete_entry(
                                    delete,
                                    this.current_key,
                                    this.emitted_for_key,
                                ) {
                                    return Poll::Ready(Some(Ok(entry)));
                                }
                            } else {
                                // Data wins (newer timestamp) - consume both
                                if let Some(entry) =
                                    process_data_entry(data, this.current_key, this.emitted_for_key)
                                {
                                    return Poll::Ready(Some(Ok(entry)));
                                }
                            }""","""                            let winner = if data.key_ts.timestamp() > delete.ts {
                                process_data_entry(data, this.current_key, this.emitted_for_key)
                            } else {
                                process_delete_entry(delete, this.current_key, this.emitted_for_key)
                            };
                            if let Some(entry) = winner {
                                return Poll::Ready(Some(Ok(entry)));
                            }"""),
(C,"""    let is_new_key = current_key
        .as_ref()
        .map(|k| k != &data.key_owned)
        .unwrap_or(true);

    if is_new_key {
        *current_key = Some(data.key_owned.clone());
        *emitted_for_key = false;
    }

    if *emitted_for_key {
        return None; // Skip duplicate
    }

    *emitted_for_key = true;""","""    let same_key = matches!(current_key, Some(k) if *k == data.key_owned);
    if same_key && *emitted_for_key {
        return None;
    }
    if !same_key {
        *current_key = Some(data.key_owned.clone());
    }

    *emitted_for_key = true;"""),
(C,"""                    if key_ts.timestamp() > read_ts {
                        continue; // Skip invisible
                    }
                    return Poll::Ready(Some(Ok(DataEntry {
                        batch,
                        key_ts,
                        row,
                        key_owned,
                    })));""","""                    if key_ts.timestamp() <= read_ts {
                        let entry = DataEntry {
                            batch,
                            key_ts,
                            row,
                            key_owned,
                        };
                        return Poll::Ready(Some(Ok(entry)));
                    }
                    continue;"""),
(C,"""        let batch = match ready!(data_stream.as_mut().poll_next(cx)).transpose() {
            Ok(Some(b)) => b,
            Ok(None) => return Poll::Ready(None), // Stream exhausted
            Err(e) => return Poll::Ready(Some(Err(SstableScanError::Parquet(e)))),
        };
""","""        let batch = match data_stream.as_mut().poll_next(cx) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(None) => return Poll::Ready(None),
            Poll::Ready(Some(Err(e))) => {
                return Poll::Ready(Some(Err(SstableScanError::Parquet(e))));
            }
            Poll::Ready(Some(Ok(b))) => b,
        };
"""),
(C,"""        if self.remaining == 0 {
            return None;
        }

        let row_idx = self.offset;
        self.remaining -= 1;
        self.offset += 1;
""","""        self.remaining = self.remaining.checked_sub(1)?;
        let row_idx = self.offset;
        self.offset = row_idx + 1;
"""),
(C,"""        let key_row = match key_rows.into_iter().next() {
            Some(row) => row,
            None => {
                return Some(Err(SstableScanError::Key(KeyExtractError::RowOutOfBounds(
                    row_idx,
                    self.batch.num_rows(),
                ))));
            }
        };
""","""        let Some(key_row) = key_rows.into_iter().next() else {
            let rows = self.batch.num_rows();
            let err = KeyExtractError::RowOutOfBounds(row_idx, rows);
            return Some(Err(err.into()));
        };
"""),
(C,"""    let mut commit_ts = Vec::with_capacity(commit.len());
    for i in 0..commit.len() {
        commit_ts.push(Timestamp::new(commit.value(i)));
    }
    // Tombstones are handled via delete sidecar, not in data file
    let tombstones = vec![false; commit.len()];
    Ok(MvccColumns::new(commit_ts, tombstones))""","""    let commit_ts: Vec<Timestamp> = commit.values().iter().copied().map(Timestamp::new).collect();
    let tombstones = vec![false; commit_ts.len()];
    Ok(MvccColumns::new(commit_ts, tombstones))"""),
# bloom.rs
(B,"""        while self.entries.len() > self.max_entries {
            if let Some(evicted) = self.order.pop_front() {
                self.entries.remove(&evicted);
            }
        }""","""        while self.entries.len() > self.max_entries
            && let Some(evicted) = self.order.pop_front()
        {
            self.entries.remove(&evicted);
        }"""),
(B,"""                if let Some(last) = batches.last_mut()
                    && range.start <= last.end.saturating_add(self.coalesce_gap_bytes)
                {
                    last.end = last.end.max(range.end);
                    last.items.push((idx, range));
                    continue;
                }
                batches.push(Batch {
                    start: range.start,
                    end: range.end,
                    items: vec![(idx, range)],
                });""","""                match batches.last_mut() {
                    Some(last)
                        if last.end.saturating_add(self.coalesce_gap_bytes) >= range.start =>
                    {
                        if range.end > last.end {
                            last.end = range.end;
                        }
                        last.items.push((idx, range));
                    }
                    _ => batches.push(Batch {
                        start: range.start,
                        end: range.end,
                        items: vec![(idx, range)],
                    }),
                }"""),
]
