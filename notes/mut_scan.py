S='ondisk/scan.rs'
PD='''            if this.peeked_data.is_none() {
                match poll_next_data_entry('''
M=[
(S,'if key_ts.timestamp() > read_ts {','if key_ts.timestamp() >= read_ts {'),
(S,'if ts > read_ts {','if ts >= read_ts {'),
(S,'if ts > read_ts {','if ts > Timestamp::MAX {'),
(S,'if key_ts.timestamp() > read_ts {\n                        continue; // Skip invisible','if key_ts.timestamp() > read_ts {\n                        *data_iter = None; break; // Skip invisible') if 0 else (S,'if delete.ts >= data_ts {','if delete.ts > data_ts {'),
(S,'if delete.ts >= data_ts {','if delete.ts <= data_ts {'),
(S,'*this.peeked_delete = Some(delete);',''),
(S,'*this.peeked_data = Some(data);',''),
(S,'Poll::Ready(None) => {} // Data exhausted','Poll::Ready(None) => return Poll::Ready(None), // Data exhausted'),
(S,'                        this.delete_stream.set(None);\n','                        this.delete_stream.set(None);\n                        return Poll::Ready(None);\n'),
(S,'''                    if let Some(entry) =
                        process_delete_entry(delete, this.current_key, this.emitted_for_key)
                    {
                        return Poll::Ready(Some(Ok(entry)));
                    }
                    // Skipped (dedup), continue loop''','''                    if let Some(entry) =
                        process_delete_entry(delete, this.current_key, this.emitted_for_key)
                    {
                        return Poll::Ready(Some(Ok(entry)));
                    }
                    return Poll::Ready(None);'''),
(S,'''    let is_new_key = current_key
        .as_ref()
        .map(|k| k != &data.key_owned)
        .unwrap_or(true);''','''    let is_new_key = current_key
        .as_ref()
        .map(|k| k != &data.key_owned)
        .unwrap_or(false);'''),
(S,'.map(|k| k != &data.key_owned)','.map(|k| k < &data.key_owned)') if 0 else (S,'.map(|k| k != &delete.key)','.map(|k| k == &delete.key)'),
(S,'        *current_key = Some(data.key_owned.clone());\n',''),
(S,'        *current_key = Some(delete.key.clone());\n',''),
(S,'''        *current_key = Some(delete.key.clone());
        *emitted_for_key = false;''','''        *current_key = Some(delete.key.clone());'''),
(S,'''        *current_key = Some(data.key_owned.clone());
        *emitted_for_key = false;''','''        *current_key = Some(data.key_owned.clone());'''),
(S,'''    *emitted_for_key = true;
    let row_ref''','''    let row_ref'''),
(S,'''    *emitted_for_key = true;
    let key_ts_owned''','''    let key_ts_owned'''),
(S,'''                None => {
                    // Iterator exhausted
                    *data_iter = None;
                }''','''                None => {
                    return Poll::Ready(None);
                }'''),
(S,'''                    *delete_iter = None;
                }''','''                    return Poll::Ready(None);
                }'''),
(S,'Err(e) => return Poll::Ready(Some(Err(SstableScanError::Parquet(e)))),','Err(_) => return Poll::Ready(None),',1),
(S,'Err(e) => return Poll::Ready(Some(Err(SstableScanError::Parquet(e)))),','Err(_) => return Poll::Ready(None),',2),
(S,'Some(Err(e)) => return Poll::Ready(Some(Err(e))),\n                None => {\n                    // Iterator exhausted\n                    *delete_iter','Some(Err(_)) => continue,\n                None => {\n                    // Iterator exhausted\n                    *delete_iter'),
(S,'            remaining: num_rows,\n        })','            remaining: num_rows.saturating_sub(1),\n        })',1),
(S,'            remaining: num_rows,\n        })','            remaining: num_rows.saturating_sub(1),\n        })',2),
(S,'            offset: 0,\n','            offset: 1,\n',1),
(S,'            offset: 0,\n','            offset: 1,\n',2),
(S,'        if mvcc_len != num_rows {','        if mvcc_len < num_rows {'),
(S,'.project_view(&self.batch, &[row_idx])','.project_view(&self.batch, &[self.offset])',1),
(S,'.project_view(&self.batch, &[row_idx])','.project_view(&self.batch, &[self.offset])',2),
(S,'.project_row_raw(&self.dyn_schema, &self.batch, row_idx)','.project_row_raw(&self.dyn_schema, &self.batch, self.offset)'),
(S,'self.mvcc.commit_ts.get(row_idx).copied()','self.mvcc.commit_ts.first().copied()'),
(S,'self.commit_col.value(row_idx)','self.commit_col.value(0)'),
(S,'    if commit.null_count() > 0 {','    if commit.null_count() > 1 {'),
(S,'for i in 0..commit.len() {','for i in 1..commit.len() {'),
(S,'.column_by_name(MVCC_COMMIT_COL)\n            .and_then','.columns().last()\n            .and_then'),
(S,'let commit_binding = batch.column_by_name(MVCC_COMMIT_COL);','let commit_binding = batch.columns().last();'),
(S,'SstableRowRef::new(data.batch, data.key_ts, data.row)','{ let k = KeyTsViewRaw::new(data.key_ts.key().clone(), Timestamp::MIN); SstableRowRef::new(data.batch, k, data.row) }'),
(S,'KeyTsOwned::new(delete.key, delete.ts)','KeyTsOwned::new(delete.key, Timestamp::MAX)'),
(S,'''                        Ordering::Less => {
                            // Data key comes first, put delete back
                            *this.peeked_delete = Some(delete);
                            if let Some(entry) =
                                process_data_entry(data, this.current_key, this.emitted_for_key)
                            {
                                return Poll::Ready(Some(Ok(entry)));
                            }''','''                        Ordering::Less => {
                            // Data key comes first, put delete back
                            *this.peeked_delete = Some(delete);
                            *this.current_key = None;
                            if let Some(entry) =
                                process_data_entry(data, this.current_key, this.emitted_for_key)
                            {
                                return Poll::Ready(Some(Ok(entry)));
                            }'''),
(S,'''                            } else {
                                // Data wins''','''                            } else {
                                *this.peeked_delete = None; *this.current_key = Some(delete.key.clone()); *this.emitted_for_key = true;
                                // Data wins'''),
(S,'''            Poll::Pending => return Poll::Pending,
                }
            }

            // Advance''','''            Poll::Pending => {}
                }
            }

            // Advance''') if 0 else (S,'                    Poll::Pending => return Poll::Pending,\n','                    Poll::Pending => {}\n',1),
(S,'                    Poll::Pending => return Poll::Pending,\n','                    Poll::Pending => {}\n',2),
]
M=[m for m in M if m]
