O='key/owned.rs'; R='key/row.rs'; T='key/ts.rs'; S='schema.rs'; X='extractor/extractors.rs'; C='mvcc/mod.rs'
M=[
(O,"Some(self.cmp(other))","Some(other.cmp(self))"),
(O,"dyn_rows_cmp(&left, &right)","dyn_rows_cmp(&right, &left)"),
(O,"other.partial_cmp(self).map(Ordering::reverse)","other.partial_cmp(self)"),
(O,"&FloatBits::F32Bits(v.to_bits())","&FloatBits::F64Bits((*v as f64).to_bits())"),
(O,"cells.extend(part_cells);","cells.splice(0..0, part_cells);"),
(O,"Some(DynCell::Str(value)) if self.row.len() == 1","Some(DynCell::Str(value)) if self.row.len() >= 1"),
(O,'DynCell::Null => Err(KeyOwnedError::Unsupported("null key component")),','DynCell::Null => Ok(DataType::Null),'),
(O,"DynCell::U32(_) => Ok(DataType::UInt32),","DynCell::U32(_) => Ok(DataType::UInt64),"),
(O,'format!("k{idx}"), data_type, false','"k0".to_string(), data_type, false'),
(R,"            if cell.is_none() {\n                return Err(","            if idx == 0 && cell.is_none() {\n                return Err("),
(R,"        dyn_rows_cmp(self.as_dyn(), other.as_dyn())","        dyn_rows_cmp(other.as_dyn(), self.as_dyn())"),
(R,"        Some(dyn_rows_cmp(self.as_dyn(), &right))","        Some(dyn_rows_cmp(&right, self.as_dyn()))"),
(R,"    if lhs.len() != rhs.len() {\n        return false;\n    }\n    lhs.cells()","    lhs.cells()"),
(R,"    lhs.len().cmp(&rhs.len())\n}","    rhs.len().cmp(&lhs.len())\n}"),
(R,"    lhs.len().cmp(&rhs.len())\n}","    Ordering::Equal\n}"),
(R,"                if ord != Ordering::Equal {\n                    return ord;\n                }\n            }\n            (Some(_), None)","                if ord == Ordering::Greater {\n                    return ord;\n                }\n            }\n            (Some(_), None)"),
(R,"            (Some(_), None) => return Ordering::Greater,","            (Some(_), None) => return Ordering::Less,"),
(R,"(Bool(a), Bool(b)) => a.cmp(b),","(Bool(a), Bool(b)) => b.cmp(a),"),
(R,"(I32(a), I32(b)) => a.cmp(b),","(I32(a), I32(b)) => (*a as u32).cmp(&(*b as u32)),"),
(R,"(I64(a), I64(b)) => a.cmp(b),","(I64(a), I64(b)) => (*a as i32).cmp(&(*b as i32)),"),
(R,"(U64(a), U64(b)) => a.cmp(b),","(U64(a), U64(b)) => (*a as i64).cmp(&(*b as i64)),"),
(R,"(U32(a), U32(b)) => a == b,","(U32(a), U32(b)) => (*a as u16) == (*b as u16),"),
(R,"(F32(a), F32(b)) => floats_cmp_f32(*a, *b),","(F32(a), F32(b)) => a.total_cmp(b),"),
(R,"(F64(a), F64(b)) => floats_equal_f64(*a, *b),","(F64(a), F64(b)) => a == b,"),
(R,"(lhs.is_nan() && rhs.is_nan()) || lhs == rhs","(lhs.is_nan() || rhs.is_nan()) || lhs == rhs"),
(R,".unwrap_or_else(|| lhs.is_nan().cmp(&rhs.is_nan()))",".unwrap_or_else(|| rhs.is_nan().cmp(&lhs.is_nan()))"),
(R,".unwrap_or_else(|| lhs.is_nan().cmp(&rhs.is_nan()))",".unwrap_or(Ordering::Equal)",1),
(R,"    if value.is_nan() {\n        0xFFu8.hash(state);\n    } else if value == 0.0 {\n        0.0f32","    if value == 0.0 {\n        0.0f32"),
(R,"    } else if value == 0.0 {\n        0.0f64.to_bits().hash(state);\n    } else {","    } else {"),
(R,"    lhs == rhs\n}","    lhs.starts_with(rhs)\n}"),
(R,"    lhs.cmp(rhs)\n}","    lhs.len().cmp(&rhs.len()).then_with(|| lhs.cmp(rhs))\n}"),
(R,"    len.hash(state);\n    state.write(bytes);","    (ptr.as_ptr() as usize).hash(state);\n    state.write(bytes);"),
(R,"        U64(_) => 2,","        U64(_) => 3,"),
(R,"Str { ptr, len } | Bin { ptr, len } => unsafe { hash_bytes(*ptr, *len, state) },","Str { ptr, len } | Bin { ptr, len } => unsafe { hash_bytes(*ptr, (*len).min(8), state) },"),
(R,"Str { len, .. } | Bin { len, .. } => *len,","Str { len, .. } | Bin { len, .. } => *len / 2,"),
(R,".filter_map(|cell| cell.as_ref())\n        .map(dyn_cell_heap_size)\n        .sum()",".filter_map(|cell| cell.as_ref())\n        .map(dyn_cell_heap_size)\n        .max().unwrap_or(0)"),
(T,"Ordering::Equal => other.ts.cmp(&self.ts),","Ordering::Equal => self.ts.cmp(&other.ts),"),
(T,"Ordering::Equal => other.ts.cmp(&self.ts),","Ordering::Equal => self.ts.cmp(&other.ts),",1),
(T,"self.ts == other.ts && self.key == other.key","self.key == other.key"),
(T,"        self.key.hash(state);\n        self.ts.hash(state);","        self.key.len().hash(state);\n        std::ptr::from_ref(self).hash(state);"),
(S,"self.key_parts = vec![field.into()];","self.key_parts.push(field.into());"),
(S,"self.key_parts = fields.into_iter().map(Into::into).collect();","self.key_parts.extend(fields.into_iter().map(Into::into));"),
(S,"self.key_parts.push(field.into());","self.key_parts.insert(0, field.into());"),
(S,"            indices.push(idx);","            indices.push(idx);\n            indices.sort_unstable();"),
(S,"            indices.push(idx);","            if !indices.contains(&idx) { indices.push(idx); }\n            indices.truncate(1);"),
(S,"find(|(_, f)| f.name() == name)","find(|(_, f)| f.name().starts_with(name.as_str()))"),
(S,"json!(self.key_parts).to_string()","json!(self.key_parts[0]).to_string()"),
(X,"    if actual.fields().len() == expected.fields().len() + 1 {","    if actual.fields().len() > expected.fields().len() {"),
(X,".all(|(a, b)| a.as_ref() == b.as_ref());",".all(|(a, b)| a.name() == b.name());"),
(X,".all(|(a, b)| a.as_ref() == b.as_ref());",".any(|(a, b)| a.as_ref() == b.as_ref());"),
(X,"                && !last.is_nullable();","                ;"),
(X,"return last.name() == MVCC_COMMIT_COL\n                && last.data_type()","return last.data_type()"),
(X,"        for &col in &columns {\n            ensure_supported_type","        for &col in columns.iter().take(1) {\n            ensure_supported_type"),
(X,"            .map(|&idx| schema.field(idx).clone())\n","            .rev().map(|&idx| schema.field(idx).clone())\n"),
(X,"        self.ensure_batch_schema(&batch.schema())?;\n        let use_fresh","        let use_fresh"),
(X,"        for &row in rows {\n            let raw","        for row in 0..rows.len() {\n            let raw"),
(X,"let use_fresh = batch.schema().as_ref() != self.schema.as_ref();","let use_fresh = false;"),
(X,"        | DataType::FixedSizeBinary(_) => Ok(()),","        | DataType::FixedSizeBinary(_) | DataType::Date32 => Ok(()),"),
(X,"    if row >= batch.num_rows() {","    if row > batch.num_rows() {"),
(X,"        if field.name() == MVCC_COMMIT_COL || field.name() == MVCC_TOMBSTONE_COL {","        if field.name() == MVCC_COMMIT_COL {"),
(X,"            cells.push(None);\n            continue;","            continue;"),
(X,"DataType::UInt32 => Some(DynCell::U32(\n                downcast_column::<arrow_array::UInt32Array>(arr, col_idx, dt)?.value(row),","DataType::UInt32 => Some(DynCell::U32(\n                downcast_column::<arrow_array::UInt32Array>(arr, col_idx, dt)?.value(0),"),
(X,"        DynViewError::RowOutOfBounds { row, len } => KeyExtractError::RowOutOfBounds(row, len),","        DynViewError::RowOutOfBounds { row, len } => KeyExtractError::RowOutOfBounds(len, row),"),
(C,"self.0.saturating_add(1)","self.0.wrapping_add(2)"),
(C,"self.next.fetch_add(1, Ordering::Relaxed)","self.next.load(Ordering::Relaxed); self.next.store(current + 1, Ordering::Relaxed)"),
(C,"while candidate.get() > current {","while candidate.get() > current + 1 {"),
(C,"Err(actual) => current = actual,","Err(_) => break,"),
(C,"                candidate.get(),\n                Ordering","                candidate.get() - 1,\n                Ordering"),
(C,"Self(self.0.saturating_sub(delta))","Self(self.0.wrapping_sub(delta))"),
(C,"Self::new(Timestamp::MIN)","Self::new(Timestamp::MAX)"),
]
