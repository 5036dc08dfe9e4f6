I='inmem/mutable/memtable.rs'; Q='query/scan.rs'; S='query/stream/mod.rs'; G='query/stream/merge.rs'; MM='inmem/immutable/memtable.rs'
M=[
# loop rewritten: into_iter().enumerate() -> index counter
[(I,"for (row_idx, key_row) in key_rows.into_iter().enumerate() {\n            let key_size","let mut next_row = 0usize;\n        for key_row in key_rows {\n            let row_idx = next_row;\n            next_row += 1;\n            let key_size")],
[(I,"for (row_idx, key_row) in key_rows.into_iter().enumerate() {\n            let key_size","for row_idx in 0..key_rows.len() {\n            let key_row = &key_rows[row_idx];\n            let key_size")],
[(I,"for (row_idx, key_row) in key_rows.into_iter().enumerate() {\n            let key_size","let mut row_idx = 0;\n while row_idx < key_rows.len() {\n            let key_row = &key_rows[row_idx];\n            let key_size"),
 (I,"DynMutation::Upsert(BatchRowLoc::new(batch_id, row_idx)),\n            );","DynMutation::Upsert(BatchRowLoc::new(batch_id, row_idx)),\n            );\n row_idx += 1;")],
# helper extracted
[(I,"            let has_existing = self\n                .index\n                .range(\n                    KeyTsOwned::new(key_owned.clone(), Timestamp::MAX)\n                        ..=KeyTsOwned::new(key_owned.clone(), Timestamp::MIN),\n                )\n                .next()\n                .is_some();","            let has_existing = self.has_versions(&key_owned);"),
 (I,"    /// Attempt to insert a delete batch.","    fn has_versions(&self, key: &KeyOwned) -> bool {\n let lo = KeyTsOwned::new(key.clone(), Timestamp::MAX); let hi = KeyTsOwned::new(key.clone(), Timestamp::MIN);\n self.index.range(lo..=hi).next().is_some() }\n    /// Attempt to insert a delete batch.")],
# slot reservation helper
[(I,"        let batch_id = self.batch_cursor.fetch_add(1, Ordering::SeqCst);\n        if batch_id >= self.batch_slots.len() {\n            // Undo the increment so we don't leak slots\n            self.batch_cursor.fetch_sub(1, Ordering::SeqCst);\n            return Err(()); // Capacity exhausted\n        }","        let Some(batch_id) = Self::reserve(&self.batch_cursor, self.batch_slots.len()) else { return Err(()); };"),
 (I,"    /// Attempt to insert a delete batch.","    fn reserve(cursor: &AtomicUsize, capacity: usize) -> Option<usize> {\n let slot = cursor.fetch_add(1, Ordering::SeqCst); if slot < capacity { Some(slot) } else { cursor.fetch_sub(1, Ordering::SeqCst); None } }\n    /// Attempt to insert a delete batch.")],
# fetch_update CAS
[(I,"        let batch_id = self.batch_cursor.fetch_add(1, Ordering::SeqCst);\n        if batch_id >= self.batch_slots.len() {\n            // Undo the increment so we don't leak slots\n            self.batch_cursor.fetch_sub(1, Ordering::SeqCst);\n            return Err(()); // Capacity exhausted\n        }","        let cap = self.batch_slots.len();\n let Ok(batch_id) = self.batch_cursor.fetch_update(Ordering::SeqCst, Ordering::SeqCst, |c| (c < cap).then_some(c + 1)) else { return Err(()); };")],
# match -> if let / let else
[(I,"        let key_rows = match extractor.project_view(&batch, &row_indices) {\n            Ok(rows) => rows,\n            Err(e) => return Ok(Err(e)),\n        };","        let projected = extractor.project_view(&batch, &row_indices);\n        if let Err(e) = projected { return Ok(Err(e)); }\n let key_rows = projected.unwrap();")],
[(I,"        let row_indices: Vec<usize> = (0..batch.num_rows()).collect();\n        let key_rows = match extractor","        let mut row_indices = Vec::with_capacity(batch.num_rows());\n for i in 0..batch.num_rows() { row_indices.push(i); }\n        let key_rows = match extractor")],
[(I,"        let row_indices: Vec<usize> = (0..batch.num_rows()).collect();\n        let key_rows = match extractor","        let row_indices = Vec::from_iter(0..batch.num_rows());\n        let key_rows = match extractor")],
# combined validation
[(I,"        if commit_array.null_count() > 0 {\n            return Ok(Err(KeyExtractError::Arrow(ArrowError::ComputeError(\n                \"commit_ts column contained null\".to_string(),\n            ))));\n        }","        Ok(Ok(())) as Result<Result<(), KeyExtractError>, ()>;\n".replace("Ok(Ok(())) as Result<Result<(), KeyExtractError>, ()>;","let invalid = commit_array.null_count() != 0;\n        if invalid {\n            return Ok(Err(KeyExtractError::Arrow(ArrowError::ComputeError(\n                \"commit_ts column contained null\".to_string(),\n            ))));\n        }"))],
# seal: std::mem::take
[(I,"std::mem::replace(&mut self.index, SkipMap::new())","std::mem::take(&mut self.index)")],
[(I,"        self.metrics.reset_counters();\n\n        let batch = if slices.is_empty() {\n            RecordBatch::new_empty(schema.clone())\n        } else if slices.len() == 1 {\n            pop_single_batch(&mut slices, \"upsert slices\")?\n        } else {\n            concat_batches(schema, &slices)?\n        };","        self.metrics.reset_counters();\n\n        let batch = match slices.len() {\n 0 => RecordBatch::new_empty(schema.clone()),\n 1 => pop_single_batch(&mut slices, \"upsert slices\")?,\n _ => concat_batches(schema, &slices)?,\n        };")],
[(I,"        let batch = if slices.is_empty() {\n            RecordBatch::new_empty(schema.clone())\n        } else if slices.len() == 1 {\n            pop_single_batch(&mut slices, \"upsert slices\")?\n        } else {\n            concat_batches(schema, &slices)?\n        };","        let batch = if slices.is_empty() {\n            RecordBatch::new_empty(schema.clone())\n        } else {\n            concat_batches(schema, &slices)?\n        };")],
# seal: iterate with while let
[(I,"        for (view, mutation) in index.into_iter() {\n            let ts","        let mut drained = index.into_iter();\n        while let Some((view, mutation)) = drained.next() {\n            let ts")],
[(Q,"        if let Some(lower) = &self.lower {\n            match max_key.cmp(&lower.key) {\n                std::cmp::Ordering::Less => return false,\n                std::cmp::Ordering::Equal if !lower.inclusive => return false,\n                _ => {}\n            }\n        }","        let below = |bound: &KeyBound| { let key = max_key; if bound.inclusive { *key < bound.key } else { *key <= bound.key } };\n        if self.lower.as_ref().is_some_and(below) { return false; }")],
[(Q,"        if let (Some(lower), Some(upper)) = (&self.lower, &self.upper) {\n            match lower.key.cmp(&upper.key) {\n                std::cmp::Ordering::Greater => {\n                    self.empty = true;\n                }\n                std::cmp::Ordering::Equal => {\n                    if !(lower.inclusive && upper.inclusive) {\n                        self.empty = true;\n                    }\n                }\n                std::cmp::Ordering::Less => {}\n            }\n        }","        let (Some(lower), Some(upper)) = (&self.lower, &self.upper) else { return; };\n let closed = lower.inclusive && upper.inclusive;\n        if lower.key > upper.key || (lower.key == upper.key && !closed) { self.empty = true; }")],
[(Q,"        let implied_total: usize = selection.iter().map(|sel| sel.row_count).sum();","        let mut implied_total = 0usize;\n        for sel in selection.iter() { implied_total += sel.row_count; }")],
[(Q,"        let implied_total: usize = selection.iter().map(|sel| sel.row_count).sum();","        let implied_total = selection.iter().fold(0usize, |acc, sel| acc + sel.row_count);")],
[(Q,"    for idx in (0..chars.len()).rev() {\n        if let Some(next) = next_scalar_char(chars[idx]) {\n            chars[idx] = next;\n            chars.truncate(idx + 1);\n            return Some(chars.into_iter().collect());\n        }\n    }\n    None","    while let Some(last) = chars.pop() {\n        if let Some(next) = next_scalar_char(last) {\n            chars.push(next);\n            return Some(chars.into_iter().collect());\n        }\n    }\n    None")],
[(Q,"    let mut next = u32::from(current).checked_add(1)?;\n    while next <= u32::from(char::MAX) {\n        if let Some(ch) = char::from_u32(next) {\n            return Some(ch);\n        }\n        next += 1;\n    }\n    None","    ((current as u32 + 1)..=(char::MAX as u32)).find_map(char::from_u32)")],
[(G,"key_cmp\n            .then(ts_cmp)\n            .then(self.source_priority.cmp(&other.source_priority))\n            .then(self.stream_idx.cmp(&other.stream_idx))","key_cmp\n            .then_with(|| ts_cmp)\n            .then_with(|| self.source_priority.cmp(&other.source_priority))\n            .then_with(|| self.stream_idx.cmp(&other.stream_idx))")],
[(G,"key_cmp\n            .then(ts_cmp)\n            .then(self.source_priority.cmp(&other.source_priority))\n            .then(self.stream_idx.cmp(&other.stream_idx))","if key_cmp != Ordering::Equal { return key_cmp; }\n if ts_cmp != Ordering::Equal { return ts_cmp; }\n (self.source_priority, self.stream_idx).cmp(&(other.source_priority, other.stream_idx))")],
[(G,"        *value = value.saturating_sub(1);","        if *value > 0 { *value -= 1; }")],
[(G,"    if let Some(value) = limit {\n        *value = value.saturating_sub(1);\n    }","    *limit = limit.map(|value| value.saturating_sub(1));")],
[(S,"        matches!(\n            self,\n            StreamEntry::TxnTombstone(_)\n                | StreamEntry::MemTableTombstone(_)\n                | StreamEntry::SstableTombstone(_)\n        )","        match self { StreamEntry::Txn(_) | StreamEntry::MemTable(_) | StreamEntry::Sstable(_) => false, _ => true }")],
]
