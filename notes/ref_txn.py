F='transaction/mod.rs'
M=[
(F,"""        for (key, mutation) in self.entries {
            match mutation {
                DynMutation::Upsert(row) => upserts.push(row),
                DynMutation::Delete(()) => deletes.push(key),
            }
        }
        (upserts, deletes)""","""        self.entries.into_iter().for_each(|(key, mutation)| match mutation {
            DynMutation::Upsert(row) => upserts.push(row),
            DynMutation::Delete(()) => deletes.push(key),
        });
        (upserts, deletes)"""),
(F,"""        self.entries.insert(key, DynMutation::Delete(()));""","""        *self.entries.entry(key).or_insert(DynMutation::Delete(())) = DynMutation::Delete(());"""),
(F,"""        self.entries.insert(key, DynMutation::Upsert(row));""","""        if let Some(slot) = self.entries.get_mut(&key) {
            *slot = DynMutation::Upsert(row);
            return;
        }
        self.entries.insert(key, DynMutation::Upsert(row));"""),
(F,"self.entries.is_empty()","self.len() == 0"),
(F,"""                    let view = KeyTsViewRaw::from_owned(key, self.visible_ts);
                    return Some(Ok(TransactionScanEntry::Tombstone(view)));""","""                    return Some(Ok(TransactionScanEntry::Tombstone(KeyTsViewRaw::from_owned(key, self.visible_ts))));"""),
(F,"""        if let Some((key, mutation)) = self.iter.next() {
            match mutation {
                DynMutation::Upsert(row) => match self.materialize_row(row) {
                    Ok(owned_row) => {
                        self.rows.push(owned_row);
                        let raw_row = match self.rows.last() {
                            Some(stored) => match stored.as_raw() {
                                Ok(raw) => raw,
                                Err(err) => return Some(Err(err)),
                            },
                            None => {
                                return Some(Err(DynViewError::Invalid {
                                    column: 0,
                                    path: "transaction_scan".to_string(),
                                    message: "staged row buffer unexpectedly empty".to_string(),
                                }));
                            }
                        };
                        let view = KeyTsViewRaw::from_owned(key, self.visible_ts);
                        return Some(Ok(TransactionScanEntry::Row((view, raw_row))));
                    }
                    Err(err) => return Some(Err(err)),
                },
                DynMutation::Delete(_) => {
                    let view = KeyTsViewRaw::from_owned(key, self.visible_ts);
                    return Some(Ok(TransactionScanEntry::Tombstone(view)));
                }
            }
        }
        None
    }
}""","""        let (key, mutation) = self.iter.next()?;
        let view = KeyTsViewRaw::from_owned(key, self.visible_ts);
        let DynMutation::Upsert(row) = mutation else {
            return Some(Ok(TransactionScanEntry::Tombstone(view)));
        };
        let owned_row = match self.materialize_row(row) {
            Ok(r) => r,
            Err(err) => return Some(Err(err)),
        };
        let at = self.rows.len();
        self.rows.push(owned_row);
        Some(self.rows[at].as_raw().map(|raw| TransactionScanEntry::Row((view, raw))))
    }
}"""),
(F,"""        let (fields, projection) = match projection_schema {
            Some(target) => {
                let projection = if target.as_ref() == schema.as_ref() {
                    None
                } else {
                    Some(DynProjection::from_schema(
                        schema.as_ref(),
                        target.as_ref(),
                    )?)
                };
                (target.fields().clone(), projection)
            }
            None => (schema.fields().clone(), None),
        };""","""        let target = projection_schema.unwrap_or(schema);
        let fields = target.fields().clone();
        let projection = if target.as_ref() != schema.as_ref() {
            Some(DynProjection::from_schema(schema.as_ref(), target.as_ref())?)
        } else {
            None
        };"""),
(F,"""        if let Some(projection) = &self.projection {
            let mut builders""","""        let Some(projection) = self.projection.as_ref() else {
            return DynRowOwned::from_dyn_row(self.fields.clone(), clone_dyn_row(row));
        };
        {
            let mut builders""",),
(F,"""    for row in rows {
        builders.append_option_row(Some(row))?;
    }
    builders.try_finish_into_batch()
}

fn build_delete""","""    rows.into_iter()
        .try_for_each(|row| builders.append_option_row(Some(row)))?;
    builders.try_finish_into_batch()
}

fn build_delete"""),
(F,"""        let mut row = Vec::with_capacity(expected_components + 1);
        for (idx, cell) in components.iter().enumerate() {
            let value = cell
                .as_ref()
                .ok_or(TransactionCommitError::DeleteComponentNull { index: idx })?;
            row.push(Some(value.clone()));
        }
        row.push(Some(DynCell::U64(commit_ts.get())));
        builders
            .append_option_row(Some(DynRow(row)))
            .map_err(TransactionCommitError::RowEncoding)?;""","""        let cells = delete_cells(components, commit_ts)?;
        builders
            .append_option_row(Some(DynRow(cells)))
            .map_err(TransactionCommitError::RowEncoding)?;"""),
]
M[-1]=[M[-1],(F,"fn clone_dyn_row(","""fn delete_cells(
    components: &[Option<DynCell>],
    commit_ts: Timestamp,
) -> Result<Vec<Option<DynCell>>, TransactionCommitError> {
    if let Some(index) = components.iter().position(Option::is_none) {
        return Err(TransactionCommitError::DeleteComponentNull { index });
    }
    let mut row = components.to_vec();
    row.push(Some(DynCell::U64(commit_ts.get())));
    Ok(row)
}

fn clone_dyn_row(""")]
M+=[
(F,"""        let mut row = Vec::with_capacity(expected_components + 1);
        for (idx, cell) in components.iter().enumerate() {
            let value = cell
                .as_ref()
                .ok_or(TransactionCommitError::DeleteComponentNull { index: idx })?;
            row.push(Some(value.clone()));
        }
        row.push(Some(DynCell::U64(commit_ts.get())));""","""        let row = components
            .iter()
            .enumerate()
            .map(|(index, cell)| match cell {
                Some(value) => Ok(Some(value.clone())),
                None => Err(TransactionCommitError::DeleteComponentNull { index }),
            })
            .chain(std::iter::once(Ok(Some(DynCell::U64(commit_ts.get())))))
            .collect::<Result<Vec<_>, _>>()?;"""),
(F,"""    if keys.is_empty() {
        return Ok(RecordBatch::new_empty(schema.clone()));
    }
    let mut builders""","""    let mut builders"""),
(F,"DynRow(row.0.clone())","DynRow(row.0.iter().cloned().collect())"),
(F,"DynRow(row.0.clone())","let DynRow(cells) = row;\n    DynRow(cells.to_vec())"),
(F,"""    Ok(())
}

fn clone_dyn_row""","""    Ok::<(), TransactionCommitError>(())
}

fn clone_dyn_row"""),
]
# fix up
for i,m in enumerate(M):
    if isinstance(m,tuple) and 'let Some(projection) = self.projection.as_ref() else' in m[2]:
        M[i]=[m,(F,"""            DynRowOwned::from_dyn_row(self.fields.clone(), projected)
        } else {
            DynRowOwned::from_dyn_row(self.fields.clone(), clone_dyn_row(row))
        }""","""            DynRowOwned::from_dyn_row(self.fields.clone(), projected)
        }""")]
