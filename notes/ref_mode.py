D='mode/dyn_config.rs'; MO='mode/mod.rs'
M=[
(D,'''        let Some((idx, _)) = fields
            .iter()
            .enumerate()
            .find(|(_, f)| f.name() == key_field)
        else {
            return Err(KeyExtractError::NoSuchField {
                name: key_field.to_string(),
            });
        };
        Self::from_key_col(schema, idx)''','''        match fields.iter().position(|f| f.name() == key_field) {
            Some(idx) => Self::from_key_col(schema, idx),
            None => Err(KeyExtractError::NoSuchField {
                name: key_field.to_string(),
            }),
        }'''),
(D,'''            if marks.iter().any(|(o, _)| o.is_none()) {
                return Err(KeyExtractError::NoSuchField {
                    name: "multiple tonbo.key markers require numeric ordinals".to_string(),
                });
            }
            let mut ordered: Vec<(u32, usize)> = marks
                .into_iter()
                .filter_map(|(ord, idx)| ord.map(|o| (o, idx)))
                .collect();
''','''            let mut ordered: Vec<(u32, usize)> = Vec::with_capacity(marks.len());
            for (ord, idx) in marks {
                match ord {
                    Some(o) => ordered.push((o, idx)),
                    None => {
                        return Err(KeyExtractError::NoSuchField {
                            name: "multiple tonbo.key markers require numeric ordinals".to_string(),
                        });
                    }
                }
            }
'''),
(D,'matches!(s, "true" | "TRUE" | "True" | "yes" | "YES" | "Yes")','["true", "TRUE", "True", "yes", "YES", "Yes"].contains(&s)'),
(D,'''            if t.starts_with('[') && t.ends_with(']') {
                let inner = &t[1..t.len() - 1];
                inner''','''            if let Some(inner) = t.strip_prefix('[').and_then(|rest| rest.strip_suffix(']')) {
                inner'''),
(D,'''            let mut indices: Vec<usize> = Vec::with_capacity(names.len());
            for n in names.iter() {
                let Some((idx, _)) = fields.iter().enumerate().find(|(_, f)| f.name() == n) else {
                    return Err(KeyExtractError::NoSuchField { name: n.clone() });
                };
                indices.push(idx);
            }
''','''            let indices = names
                .iter()
                .map(|n| {
                    fields
                        .iter()
                        .position(|f| f.name() == n)
                        .ok_or_else(|| KeyExtractError::NoSuchField { name: n.clone() })
                })
                .collect::<Result<Vec<usize>, _>>()?;
'''),
(D,'ordered.sort_by_key(|(ord, _)| *ord);','ordered.sort();'),
(D,'ordered.sort_by_key(|(ord, _)| *ord);','ordered.sort_by(|a, b| a.0.cmp(&b.0));'),
(D,'''                let v = v.trim();
                if let Ok(ord) = v.parse::<u32>() {
                    marks.push((Some(ord), i));
                } else if is_truthy(v) {
                    marks.push((None, i));
                }
''','''                let v = v.trim();
                match v.parse::<u32>() {
                    Ok(ord) => marks.push((Some(ord), i)),
                    Err(_) if is_truthy(v) => marks.push((None, i)),
                    Err(_) => {}
                }
'''),
(D,'''            if names.is_empty() {
                return Err(KeyExtractError::NoSuchField {
                    name: "tonbo.keys[]".to_string(),
                });
            }
            if names.len() == 1 {
                return Self::from_key_name(schema, &names[0]);
            }
''','''            match names.as_slice() {
                [] => {
                    return Err(KeyExtractError::NoSuchField {
                        name: "tonbo.keys[]".to_string(),
                    });
                }
                [only] => return Self::from_key_name(schema, only),
                _ => {}
            }
'''),
(MO,'''    let mut fields = key_schema
        .fields()
        .iter()
        .map(|field| field.as_ref().clone())
        .collect::<Vec<Field>>();
    fields.push(Field::new(MVCC_COMMIT_COL, DataType::UInt64, false));
''','''    let commit = Field::new(MVCC_COMMIT_COL, DataType::UInt64, false);
    let fields: Vec<Field> = key_schema
        .fields()
        .iter()
        .map(|field| field.as_ref().clone())
        .chain(std::iter::once(commit))
        .collect();
'''),
(MO,'''        let delete_projection =
            projection_for_columns(delete_schema.clone(), (0..key_columns).collect())?;
''','''        let mut key_positions = Vec::with_capacity(key_columns);
        for idx in 0..key_columns {
            key_positions.push(idx);
        }
        let delete_projection = projection_for_columns(delete_schema.clone(), key_positions)?;
'''),
(MO,'''            let mut entries: Vec<_> = map.into_iter().collect();
            entries.sort_by(|a, b| a.0.cmp(&b.0));
            let sorted = entries
                .into_iter()
                .map(|(key, value)| (key, canonicalize_json(value)))
                .collect();
            Value::Object(sorted)''','''            let sorted: std::collections::BTreeMap<String, Value> = map
                .into_iter()
                .map(|(key, value)| (key, canonicalize_json(value)))
                .collect();
            Value::Object(sorted.into_iter().collect())'''),
(MO,'''            let sorted = entries
                .into_iter()
                .map(|(key, value)| (key, canonicalize_json(value)))
                .collect();
            Value::Object(sorted)''','''            let mut sorted = serde_json::Map::new();
            for (key, value) in entries {
                sorted.insert(key, canonicalize_json(value));
            }
            Value::Object(sorted)'''),
(MO,'''    let key_columns = config
        .extractor
        .key_indices()
        .iter()
        .map(|idx| config.schema.field(*idx).name().clone())
        .collect();
''','''    let mut key_columns = Vec::new();
    for &idx in config.extractor.key_indices() {
        let field = config.schema.field(idx);
        key_columns.push(field.name().to_string());
    }
'''),
(MO,'''    let value =
        serde_json::to_value(schema.as_ref()).expect("arrow schema serialization should not fail");
    let canonical = canonicalize_json(value);
    let bytes =
        serde_json::to_vec(&canonical).expect("canonical schema serialization should not fail");
    hasher.update(bytes);
''','''    let canonical = serde_json::to_value(schema.as_ref())
        .map(canonicalize_json)
        .expect("arrow schema serialization should not fail");
    match serde_json::to_vec(&canonical) {
        Ok(bytes) => hasher.update(&bytes),
        Err(err) => panic!("canonical schema serialization should not fail: {err}"),
    }
'''),
]
