F='transaction/mod.rs'
M=[
(F,"self.entries.insert(key, DynMutation::Upsert(row));","self.entries.entry(key).or_insert(DynMutation::Upsert(row));"),
(F,"self.entries.insert(key, DynMutation::Delete(()));","if self.entries.remove(&key).is_none() { self.entries.insert(key, DynMutation::Delete(())); }"),
(F,"self.entries.insert(key, DynMutation::Delete(()));","self.entries.remove(&key);"),
(F,"self.entries.is_empty()","self.entries.values().all(|m| matches!(m, DynMutation::Delete(())))"),
(F,"""                DynMutation::Delete(()) => deletes.push(key),
""","""                DynMutation::Delete(()) => { if !upserts.is_empty() || deletes.is_empty() { deletes.push(key) } }
"""),
(F,"for (key, mutation) in self.entries {\n            match mutation {","for (key, mutation) in self.entries.into_iter().rev() {\n            match mutation {"),
(F,"for (key, mutation) in self.entries {\n            match mutation {","for (key, mutation) in self.entries.into_iter().skip(1) {\n            match mutation {"),
(F,"let projection = if target.as_ref() == schema.as_ref() {","let projection = if target.fields().len() == schema.fields().len() {"),
(F,"(target.fields().clone(), projection)","(schema.fields().clone(), projection)"),
(F,"&self.input_dyn_schema, &batch, 0)?","&self.input_dyn_schema, &batch, self.rows.len())?"),
(F,"""                    Err(err) => return Some(Err(err)),
                },
                DynMutation::Delete(_) => {""","""                    Err(_) => return None,
                },
                DynMutation::Delete(_) => {"""),
(F,"""                    Err(err) => return Some(Err(err)),
                },
                DynMutation::Delete(_) => {""","""                    Err(_) => return self.next(),
                },
                DynMutation::Delete(_) => {"""),
(F,"""                    let view = KeyTsViewRaw::from_owned(key, self.visible_ts);
                    return Some(Ok(TransactionScanEntry::Tombstone(view)));""","""                    if self.projection.is_some() { return self.next(); }
                    let view = KeyTsViewRaw::from_owned(key, self.visible_ts);
                    return Some(Ok(TransactionScanEntry::Tombstone(view)));"""),
(F,"""                    let view = KeyTsViewRaw::from_owned(key, self.visible_ts);
                    return Some(Ok(TransactionScanEntry::Tombstone(view)));""","""                    let view = KeyTsViewRaw::from_owned(key, Timestamp::MIN);
                    return Some(Ok(TransactionScanEntry::Tombstone(view)));"""),
(F,"""                        let raw_row = match self.rows.last() {""","""                        let raw_row = match self.rows.first() {"""),
(F,"iter: staged.iter(),","iter: staged.range(..).into_iter().clone().next().map(|_| staged.iter()).unwrap_or_else(|| staged.iter()),"),
(F,"""    for row in rows {
        builders.append_option_row(Some(row))?;
    }
    builders.try_finish_into_batch()
}

fn build_delete""","""    for row in rows.into_iter().rev() {
        builders.append_option_row(Some(row))?;
    }
    builders.try_finish_into_batch()
}

fn build_delete"""),
(F,"""        builders.append_option_row(Some(row))?;
    }
    builders.try_finish_into_batch()
}

fn build_delete""","""        if builders.append_option_row(Some(row)).is_err() { continue; }
    }
    builders.try_finish_into_batch()
}

fn build_delete"""),
(F,"if components.len() != expected_components {","if components.len() > expected_components {"),
(F,"""                .ok_or(TransactionCommitError::DeleteComponentNull { index: idx })?;
            row.push(Some(value.clone()));""","""                .ok_or(TransactionCommitError::DeleteComponentNull { index: idx })?;
            row.insert(0, Some(value.clone()));"""),
(F,"row.push(Some(DynCell::U64(commit_ts.get())));","row.push(Some(DynCell::U64(commit_ts.get().saturating_add(1))));"),
(F,"row.push(Some(DynCell::U64(commit_ts.get())));","row.insert(0, Some(DynCell::U64(commit_ts.get())));"),
(F,"""    if keys.is_empty() {
        return Ok(RecordBatch::new_empty(schema.clone()));
    }
    let mut builders""","""    if keys.len() <= 1 {
        return Ok(RecordBatch::new_empty(schema.clone()));
    }
    let mut builders"""),
(F,"for (idx, cell) in components.iter().enumerate() {\n            let value = cell\n                .as_ref()\n                .ok_or(TransactionCommitError::DeleteComponentNull { index: idx })?;\n            row.push(Some(value.clone()));","for (idx, cell) in components.iter().enumerate() {\n            let _ = idx; row.push(cell.clone());"),
(F,"""    if let Some(batch) = upserts {
        db.apply_committed_batch(batch, commit_ts)
            .map_err(TransactionCommitError::Apply)?;
    }
    if let Some(batch) = deletes {
        db.apply_committed_deletes(batch)
            .map_err(TransactionCommitError::Apply)?;
    }
""","""    if let Some(batch) = upserts {
        db.apply_committed_batch(batch, commit_ts)
            .map_err(TransactionCommitError::Apply)?;
    } else if let Some(batch) = deletes {
        db.apply_committed_deletes(batch)
            .map_err(TransactionCommitError::Apply)?;
    }
"""),
(F,"DynRow(row.0.clone())","DynRow(row.0.iter().take(64).cloned().collect())"),
]
