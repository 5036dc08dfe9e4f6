# behaviour-preserving refactorings of key/extractor/schema/mvcc code: rules must stay quiet
O,R,T,X,V,S='key/owned.rs','key/row.rs','key/ts.rs','extractor/extractors.rs','mvcc/mod.rs','schema.rs'
M=[
(R,"""    lhs.cells()
        .iter()
        .zip(rhs.cells().iter())
        .all(|(a, b)| match (a, b) {
            (Some(left), Some(right)) => dyn_cells_equal(left, right),
            _ => false,
        })
""","""    for (a, b) in lhs.cells().iter().zip(rhs.cells().iter()) {
        let (Some(left), Some(right)) = (a, b) else {
            return false;
        };
        if !dyn_cells_equal(left, right) {
            return false;
        }
    }
    true
"""),
(R,"""                let ord = dyn_cells_cmp(left, right);
                if ord != Ordering::Equal {
                    return ord;
                }
            }
            (Some(_), None)""","""                match dyn_cells_cmp(left, right) {
                    Ordering::Equal => {}
                    ord => return ord,
                }
            }
            (Some(_), None)"""),
(R,"""                if ord != Ordering::Equal {
                    return ord;
                }
            }
            (Some(_), None)""","""                if ord.is_ne() {
                    return ord;
                }
            }
            (Some(_), None)"""),
(R,"""    for (a, b) in lhs.cells().iter().zip(rhs.cells()) {
        match (a, b) {""","""    let shared = lhs.len().min(rhs.len());
    for idx in 0..shared {
        match (&lhs.cells()[idx], &rhs.cells()[idx]) {"""),
(R,"""    lhs.len().cmp(&rhs.len())
}""","""    let (left_len, right_len) = (lhs.len(), rhs.len());
    left_len.cmp(&right_len)
}"""),
(R,"""    for cell in row.cells().iter().flatten() {
        dyn_cells_hash(cell, state);
    }""","""    row.cells()
        .iter()
        .flatten()
        .for_each(|cell| dyn_cells_hash(cell, state));"""),
(R,"""    for cell in row.cells().iter().flatten() {
        dyn_cells_hash(cell, state);
    }""","""    for cell in row.cells() {
        if let Some(cell) = cell {
            dyn_cells_hash(cell, state);
        }
    }"""),
(R,"""        for (idx, cell) in raw.cells().iter().enumerate() {
            if cell.is_none() {
                return Err(KeyRowError::NullComponent { index: idx });
            }
        }
        Ok(Self { raw })""","""        match raw.cells().iter().position(|cell| cell.is_none()) {
            Some(index) => Err(KeyRowError::NullComponent { index }),
            None => Ok(Self { raw }),
        }"""),
(R,"""    (lhs.is_nan() && rhs.is_nan()) || lhs == rhs
}

fn floats_equal_f64""","""    if lhs.is_nan() && rhs.is_nan() {
        return true;
    }
    lhs == rhs
}

fn floats_equal_f64"""),
(R,"""    (lhs.is_nan() && rhs.is_nan()) || lhs == rhs
}

fn floats_equal_f64""","""    lhs == rhs || (rhs.is_nan() && lhs.is_nan())
}

fn floats_equal_f64"""),
(R,"""    lhs.partial_cmp(&rhs)
        .unwrap_or_else(|| lhs.is_nan().cmp(&rhs.is_nan()))
}

fn floats_cmp_f64""","""    match lhs.partial_cmp(&rhs) {
        Some(ordering) => ordering,
        None => lhs.is_nan().cmp(&rhs.is_nan()),
    }
}

fn floats_cmp_f64"""),
(R,"""    lhs.partial_cmp(&rhs)
        .unwrap_or_else(|| lhs.is_nan().cmp(&rhs.is_nan()))
}

fn floats_cmp_f64""","""    match (lhs.is_nan(), rhs.is_nan()) {
        (true, true) => Ordering::Equal,
        (true, false) => Ordering::Greater,
        (false, true) => Ordering::Less,
        (false, false) => lhs.partial_cmp(&rhs).unwrap_or(Ordering::Equal),
    }
}

fn floats_cmp_f64"""),
(R,"""        (Struct(a), Struct(b)) => {
            let view_a = unsafe { a.as_view() };
            let view_b = unsafe { b.as_view() };
            for idx in""","""        (Struct(first), Struct(second)) => {
            let view_b = unsafe { second.as_view() };
            let view_a = unsafe { first.as_view() };
            for idx in"""),
(R,"""        value.to_bits().hash(state);
    }
}

fn hash_float_f64""","""        let bits = value.to_bits();
        bits.hash(state);
    }
}

fn hash_float_f64"""),
(R,"""    if value.is_nan() {
        0xFFu8.hash(state);
    } else if value == 0.0 {
        // 0.0 and -0.0 are equal, so they must hash alike.
        0.0f32.to_bits().hash(state);
    } else {
        value.to_bits().hash(state);
    }""","""    if value.is_nan() {
        0xFFu8.hash(state);
        return;
    }
    let canonical = if value == 0.0 { 0.0f32 } else { value };
    canonical.to_bits().hash(state);"""),
(T,"""        self.ts == other.ts && self.key == other.key""","""        self.key == other.key && self.ts == other.ts"""),
(T,"""        match self.key.cmp(&other.key) {
            Ordering::Equal => other.ts.cmp(&self.ts),
            ordering => ordering,
        }""","""        self.key
            .cmp(&other.key)
            .then_with(|| other.ts.cmp(&self.ts))"""),
(T,"""        match self.key.cmp(&other.key) {
            Ordering::Equal => other.ts.cmp(&self.ts),
            ordering => ordering,
        }""","""        let by_key = self.key.cmp(&other.key);
        if by_key == Ordering::Equal {
            self.ts.cmp(&other.ts).reverse()
        } else {
            by_key
        }""",1),
(O,"""        for part in parts.into_iter() {
            let (part_fields, part_cells) = part.into_row().into_parts();
            field_refs.extend(part_fields.iter().cloned());
            cells.extend(part_cells);
        }""","""        for part in parts {
            let (fields_of_part, cells_of_part) = part.into_row().into_parts();
            for field in fields_of_part.iter() {
                field_refs.push(field.clone());
            }
            for cell in cells_of_part {
                cells.push(cell);
            }
        }"""),
(O,"""            match value {
                DynCell::F32(v) => seq.serialize_element(&FloatBits::F32Bits(v.to_bits()))?,
                DynCell::F64(v) => seq.serialize_element(&FloatBits::F64Bits(v.to_bits()))?,
                value => seq.serialize_element(value)?,
            }""","""            if let DynCell::F32(v) = value {
                seq.serialize_element(&FloatBits::F32Bits(v.to_bits()))?;
            } else if let DynCell::F64(v) = value {
                seq.serialize_element(&FloatBits::F64Bits(v.to_bits()))?;
            } else {
                seq.serialize_element(value)?;
            }"""),
(O,"""        let mut field_refs = Vec::with_capacity(cells.len());
        let mut owned_cells = Vec::with_capacity(cells.len());
        for (idx, cell) in cells.into_iter().enumerate() {
            let data_type =
                cell_data_type(&cell).map_err(|err| DeError::custom(err.to_string()))?;
            field_refs.push(Arc::new(Field::new(format!("k{idx}"), data_type, false)));
            owned_cells.push(Some(cell));
        }""","""        let mut field_refs = Vec::with_capacity(cells.len());
        for (idx, cell) in cells.iter().enumerate() {
            let data_type =
                cell_data_type(cell).map_err(|err| DeError::custom(err.to_string()))?;
            field_refs.push(Arc::new(Field::new(format!("k{idx}"), data_type, false)));
        }
        let owned_cells = cells.into_iter().map(Some).collect::<Vec<_>>();"""),
(O,"""        let left = self.as_raw().expect("owned key must remain convertible");
        let right = other.as_raw().expect("owned key must remain convertible");
        dyn_rows_cmp(&left, &right)""","""        let right = other.as_raw().expect("owned key must remain convertible");
        dyn_rows_cmp(
            &self.as_raw().expect("owned key must remain convertible"),
            &right,
        )"""),
(X,"""        let heads_match = head_actual
            .iter()
            .zip(expected.fields().iter())
            .all(|(a, b)| a.as_ref() == b.as_ref());
        if heads_match && let Some(last) = tail_actual.first() {
            return last.name() == MVCC_COMMIT_COL
                && last.data_type() == &DataType::UInt64
                && !last.is_nullable();
        }""","""        for (a, b) in head_actual.iter().zip(expected.fields().iter()) {
            if a.as_ref() != b.as_ref() {
                return false;
            }
        }
        if let Some(last) = tail_actual.first() {
            return !last.is_nullable()
                && last.data_type() == &DataType::UInt64
                && last.name() == MVCC_COMMIT_COL;
        }"""),
(X,"""        for &col in &columns {
            ensure_supported_type(schema.field(col).data_type(), col)?;
        }
""","""        columns
            .iter()
            .try_for_each(|&col| ensure_supported_type(schema.field(col).data_type(), col))?;
"""),
(X,"""        let mut out = Vec::with_capacity(rows.len());
        for &row in rows {
            let raw = projection
                .project_row_raw(&dyn_schema, batch, row)
                .map_err(map_view_err)?;
            let fields = raw.fields().clone();
            let key = KeyRow::from_dyn(raw).map_err(|err| map_key_row_err(err, row, &fields))?;
            out.push(key);
        }
        Ok(out)""","""        rows.iter()
            .map(|&row| {
                let raw = projection
                    .project_row_raw(&dyn_schema, batch, row)
                    .map_err(map_view_err)?;
                let fields = raw.fields().clone();
                KeyRow::from_dyn(raw).map_err(|err| map_key_row_err(err, row, &fields))
            })
            .collect()"""),
(X,"""        let use_fresh = batch.schema().as_ref() != self.schema.as_ref();
        let (dyn_schema, projection) = if use_fresh {
            let dyn_schema""","""        let same = batch.schema().as_ref() == self.schema.as_ref();
        let (dyn_schema, projection) = if !same {
            let dyn_schema"""),
(X,"""        if arr.is_null(row) {
            cells.push(None);
            continue;
        }
        let dt = arr.data_type();""","""        let dt = arr.data_type();
        if arr.is_null(row) {
            cells.push(None);
            continue;
        }"""),
(X,"""        if schemas_compatible(self.schema.as_ref(), batch_schema.as_ref()) {
            Ok(())
        } else {
            Err(KeyExtractError::SchemaMismatch {
                expected: self.schema.clone(),
                actual: batch_schema.clone(),
            })
        }""","""        if !schemas_compatible(self.schema.as_ref(), batch_schema.as_ref()) {
            return Err(KeyExtractError::SchemaMismatch {
                expected: self.schema.clone(),
                actual: batch_schema.clone(),
            });
        }
        Ok(())"""),
(V,"""        let current = self.next.fetch_add(1, Ordering::Relaxed);
        Timestamp::new(current)""","""        Timestamp::new(self.next.fetch_add(1, Ordering::SeqCst))"""),
(V,"""        let mut current = self.next.load(Ordering::Relaxed);
        while candidate.get() > current {
            match self.next.compare_exchange(
                current,
                candidate.get(),
                Ordering::Relaxed,
                Ordering::Relaxed,
            ) {
                Ok(_) => break,
                Err(actual) => current = actual,
            }
        }""","""        self.next.fetch_max(candidate.get(), Ordering::Relaxed);"""),
(V,"""            match self.next.compare_exchange(
                current,
                candidate.get(),
                Ordering::Relaxed,
                Ordering::Relaxed,
            ) {
                Ok(_) => break,
                Err(actual) => current = actual,
            }""","""            if let Err(actual) = self.next.compare_exchange_weak(
                current,
                candidate.get(),
                Ordering::AcqRel,
                Ordering::Relaxed,
            ) {
                current = actual;
            } else {
                return;
            }"""),
(S,"""            let Some((idx, _)) = fields.iter().enumerate().find(|(_, f)| f.name() == name) else {
                return Err(KeyExtractError::NoSuchField { name: name.clone() });
            };
            indices.push(idx);""","""            match fields.iter().position(|f| f.name() == name) {
                Some(idx) => indices.push(idx),
                None => return Err(KeyExtractError::NoSuchField { name: name.clone() }),
            }"""),
(S,"""        let mut indices = Vec::with_capacity(self.key_parts.len());
        for name in &self.key_parts {
            let Some((idx, _)) = fields.iter().enumerate().find(|(_, f)| f.name() == name) else {
                return Err(KeyExtractError::NoSuchField { name: name.clone() });
            };
            indices.push(idx);
        }
""","""        let indices = self
            .key_parts
            .iter()
            .map(|name| {
                fields
                    .iter()
                    .position(|f| f.name() == name)
                    .ok_or_else(|| KeyExtractError::NoSuchField { name: name.clone() })
            })
            .collect::<Result<Vec<_>, _>>()?;
"""),
]
