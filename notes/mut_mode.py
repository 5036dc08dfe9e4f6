D='mode/dyn_config.rs'; MO='mode/mod.rs'; E_='extractor/extractors.rs'
M=[
(D,'if key_col >= fields.len()','if key_col > fields.len()'),
(D,'.find(|(_, f)| f.name() == key_field)','.find(|(_, f)| f.name().starts_with(key_field))'),
(D,'.find(|(_, f)| f.name() == key_field)','.find(|(_, f)| f.name().eq_ignore_ascii_case(key_field))'),
(D,'ordered.sort_by_key(|(ord, _)| *ord);',''),
(D,'ordered.sort_by_key(|(ord, _)| *ord);','ordered.sort_by_key(|(ord, _)| std::cmp::Reverse(*ord));'),
(D,'ordered.sort_by_key(|(ord, _)| *ord);','ordered.sort_by_key(|(ord, _)| ord.to_string());'),
(D,'ordered.sort_by_key(|(ord, _)| *ord);','ordered.sort_by_key(|(ord, _)| *ord as u8);'),
(D,'ordered.sort_by_key(|(ord, _)| *ord);','ordered.sort_by_key(|(_, idx)| *idx);'),
(D,'marks.iter().any(|(o, _)| o.is_none())','marks.iter().all(|(o, _)| o.is_none())'),
(D,'if marks.len() == 1 {','if marks.len() <= 2 {'),
(D,'let idx = marks[0].1;','let idx = marks[0].0.map(|o| o as usize).unwrap_or(marks[0].1);'),
(D,'                } else if is_truthy(v) {','                } else {'),
(D,'| "True" | "yes"','| "True" | "no" | "yes"'),
(D,'                let v = v.trim();\n',''),
(D,'v.parse::<u32>()','v.parse::<u8>()'),
(D,'.split(\',\')\n','.rsplit(\',\')\n'),
(D,'p.trim().trim_matches(\'"\').to_string()','p.trim_matches(\'"\').to_string()'),
(D,'.filter(|p| !p.is_empty())','.filter(|p| p.len() > 1)'),
(D,'let inner = &t[1..t.len() - 1];','let inner = &t[1..t.len() - 2];'),
(D,'return Self::from_key_name(schema, &names[0]);','return Self::from_key_col(schema, 0);'),
(D,'return Err(KeyExtractError::NoSuchField { name: n.clone() });','continue;'),
(D,'                indices.push(idx);\n','                if !indices.contains(&idx) { indices.insert(0, idx); }\n'),
(D,'                indices.push(idx);\n            }','                indices.push(idx);\n            }\n            indices.sort_unstable();'),
(D,'if let Some(v) = md.get("tonbo.key")','if let Some(v) = md.get("tonbo.keys")'),
(D,'if !marks.is_empty() {','if !marks.is_empty() && !schema.metadata().contains_key("tonbo.keys") {'),
(MO,'        extractor.validate_schema(&schema)?;\n        let extractor: Arc<dyn KeyProjection> = extractor.into();','        let extractor: Arc<dyn KeyProjection> = extractor.into();'),
(MO,'        extractor.validate_schema(&schema)?;\n        let key_schema','        let key_schema'),
(MO,'let delete_schema = build_delete_schema(&key_schema);','let delete_schema = build_delete_schema(&schema);'),
(MO,'(0..key_columns).collect()','(0..key_columns + 1).collect()'),
(MO,'(0..key_columns).collect()','(0..1).collect()'),
(MO,'(0..key_columns).collect()','extractor.key_indices().to_vec()'),
(MO,'fields.push(Field::new(MVCC_COMMIT_COL, DataType::UInt64, false));','fields.insert(0, Field::new(MVCC_COMMIT_COL, DataType::UInt64, false));'),
(MO,'Field::new(MVCC_COMMIT_COL, DataType::UInt64, false)','Field::new(MVCC_COMMIT_COL, DataType::UInt64, true)'),
(MO,'.key_indices()\n        .iter()\n','.key_indices()\n        .iter()\n        .rev()\n'),
(MO,'.map(|idx| config.schema.field(*idx).name().clone())','.enumerate().map(|(i, _)| config.schema.field(i).name().clone())'),
(MO,'schema_fingerprint: fingerprint_schema(&config.schema),','schema_fingerprint: fingerprint_schema(&config.extractor.key_schema()),'),
(MO,'let canonical = canonicalize_json(value);','let canonical = canonicalize_json(value["fields"].clone());'),
(MO,'Value::Array(items) => Value::Array(items.into_iter().map(canonicalize_json).collect()),','Value::Array(items) => { let mut v: Vec<Value> = items.into_iter().map(canonicalize_json).collect(); v.sort_by_key(|x| x.to_string()); Value::Array(v) }'),
(MO,'.map(|(key, value)| (key, canonicalize_json(value)))','.filter(|(key, _)| key != "metadata").map(|(key, value)| (key, canonicalize_json(value)))'),
(MO,'        other => other,\n','        Value::Bool(_) => Value::Null,\n        other => other,\n'),
(MO,'name: table_name.to_string(),','name: table_name.to_lowercase(),'),
]
