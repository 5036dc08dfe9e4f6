B='ondisk/bloom.rs'; D='ondisk/metadata.rs'; S='ondisk/sstable.rs'
M=[(B,'self.entries.len() > self.max_entries','self.entries.len() > self.max_entries + 1'),
(B,'self.order.pop_front()','self.order.pop_back()'),
(B,'entry.insert(value);\n            return;','return;'),
(D,'entry.insert(metadata);\n            return;','return;'),
(D,'self.entries.len() > self.max_entries','self.entries.len() >= self.max_entries'),
(D,'max_entries.max(1)','max_entries'),
(B,'last.end = last.end.max(range.end)','last.end = range.end'),
(B,'range.start <= last.end.saturating_add','range.start < last.end.saturating_add'),
(B,'results[idx] = Some(buffer.slice(offset..offset + len));','results[idx] = Some(buffer.slice(offset..));'),
(B,'let offset = (range.start - batch.start) as usize;','let offset = 0usize; let _ = &batch.start;'),
(B,'indexed.sort_by_key(|(_, range)| range.start);','indexed.sort_by_key(|(_, range)| range.end);'),
(B,'offset..offset + length','offset..offset + length + 1'),
(B,'row_group: row_group_idx,\n            column: column_idx','row_group: column_idx,\n            column: row_group_idx'),
(S,'if column_count != expected_columns','if column_count < expected_columns'),
(S,'if offset_index.len() != row_groups','if offset_index.len() > row_groups'),
(S,'if row_groups == 0 {','if row_groups <= 1 {'),
(S,'self.max_row_group_rows = rows.max(1)','self.max_row_group_rows = rows'),
(S,'self.merge_iteration_budget = budget.max(1)','self.max_row_group_rows = budget.max(1)'),
]
