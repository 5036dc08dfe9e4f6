m='inmem/mutable/memtable.rs'; i='inmem/immutable/memtable.rs'; o='inmem/immutable/mod.rs'; p='inmem/policy.rs'
M=[
(m,'if composite.timestamp() > self.read_ts {','if composite.timestamp() >= self.read_ts {'),
(m,'                if self.emitted_for_key {\n                    continue;\n                }','                if self.emitted_for_key {\n                    return None;\n                }'),
(m,'self.emitted_for_key = true;\n                return Some(Ok(DynRowScanEntry::Tombstone','return Some(Ok(DynRowScanEntry::Tombstone'),
(m,'DynMutation::Upsert(BatchRowLoc::new(batch_id, row_idx)),','DynMutation::Upsert(BatchRowLoc::new(batch_id, 0)),'),
(m,'commit_ts_column.value(row_idx)','commit_ts_column.value(0)'),
(m,'self.batch_cursor.fetch_sub(1, Ordering::SeqCst);','let _ = 0;'),
(m,'if batch_id >= self.batch_slots.len()','if batch_id + 1 >= self.batch_slots.len()'),
(m,'if commit_ts_column.null_count() > 0','if commit_ts_column.null_count() > 1'),
(m,'if commit_ts_column.len() != rows','if commit_ts_column.len() < rows'),
(m,'if commit_array.null_count() > 0','if commit_array.null_count() > commit_array.len()'),
(m,'Ok(Ok(())) => Ok(sealed),','Ok(Ok(())) => Ok(None),'),
(m,'delete_commit_ts.push(attachment_commit);','delete_commit_ts.push(Timestamp::MIN);'),
(m,'self.delete_cursor.store(0, Ordering::SeqCst);','let _ = 0;'),
(m,'let delete_capacity = self.delete_slots.len();','let delete_capacity = self.delete_slots.len() / 2;'),
(m,'ImmutableIndexEntry::Row(upsert_row)','ImmutableIndexEntry::Row(upsert_row + delete_row)'),
(m,'Bound::Excluded(key) => Bound::Excluded(KeyTsOwned::new(key, Timestamp::MIN))','Bound::Excluded(key) => Bound::Excluded(KeyTsOwned::new(key, Timestamp::MAX))'),
(m,'Bound::Included(key) => Bound::Included(KeyTsOwned::new(key, Timestamp::MIN))','Bound::Included(key) => Bound::Excluded(KeyTsOwned::new(key, Timestamp::MIN))'),
(m,'entry.key().timestamp() > snapshot_ts','entry.key().timestamp() >= snapshot_ts'),
(m,'let lower = KeyTsOwned::new(key.clone(), Timestamp::MAX);','let lower = KeyTsOwned::new(key.clone(), snapshot_ts);'),
(m,'            if ts > max_ts {\n                max_ts = ts;','            else if ts > max_ts {\n                max_ts = ts;'),
(m,'            .next_back()\n            .map(|entry| entry.key().key().clone());','            .next()\n            .map(|entry| entry.key().key().clone());'),
(m,'Some(batch_count + delete_count)','Some(batch_count)'),
(i,'.any(|(view, _)| view.timestamp() > snapshot_ts)','.next().map_or(false, |(view, _)| view.timestamp() >= snapshot_ts)'),
(i,'.any(|(view, _)| view.timestamp() > snapshot_ts)','.all(|(view, _)| view.timestamp() > snapshot_ts)'),
(i,'            .chain(self.deletes.commit_ts.iter());',';'),
(i,'            if *ts < min_ts {','            if *ts > min_ts {'),
(i,'Bound::Included(KeyTsViewRaw::from_owned(key, Timestamp::MIN))','Bound::Included(KeyTsViewRaw::from_owned(key, Timestamp::MAX))'),
(i,'Bound::Excluded(KeyTsViewRaw::from_owned(key, Timestamp::MIN))','Bound::Excluded(KeyTsViewRaw::from_owned(key, Timestamp::MAX))'),
(i,'if commit_ts.len() != batch.num_rows()','if commit_ts.len() < batch.num_rows()'),
(o,'&& min_commit_ts > read_ts','&& min_commit_ts >= read_ts'),
(o,'if let Some((min_commit_ts, _)) = segment','if let Some((_, min_commit_ts)) = segment'),
(o,'(segment.min_key(), segment.max_key())','(segment.max_key(), segment.max_key())'),
(p,'* stats.entry_overhead >= self.limit','* stats.entry_overhead > self.limit'),
(p,'elapsed >= self.min_interval','elapsed > self.min_interval'),
(p,'Some(cnt) if cnt >= self.batches','Some(cnt) if cnt > self.batches'),
]
