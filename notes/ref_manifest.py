D='manifest/driver.rs'; O='manifest/domain.rs'; B='manifest/bootstrap.rs'; C='manifest/codec.rs'
M=[
# helper extraction of loading the version
[(D,"""            match session.get(&version_key).await? {
                Some(value) => {
                    <VersionCodec as ManifestCodec>::validate_key_value(&version_key, &value)?;
                    VersionState::try_from(value)?
                }
                None => {
                    session.end().await?;
                    return Err(ManifestError::Invariant(
                        "version referenced by table head is missing",
                    ));
                }
            }""","""            let Some(value) = session.get(&version_key).await? else {
                session.end().await?;
                return Err(ManifestError::Invariant(
                    "version referenced by table head is missing",
                ));
            };
            <VersionCodec as ManifestCodec>::validate_key_value(&version_key, &value)?;
            VersionState::try_from(value)?""")],
(D,"""        if let Some(expected) = expected_head
            && head.last_manifest_txn != expected
        {""","""        let actual = head.last_manifest_txn;
        let conflict = expected_head.is_some_and(|e| e != actual);
        if conflict {
            let expected = expected_head.flatten();"""),
(D,"""        match wal_floor {
            Some(floor) => session.put(wal_key, VersionValue::WalFloor(floor)),
            None => session.delete(wal_key),
        }""","""        if let Some(floor) = wal_floor {
            session.put(wal_key, VersionValue::WalFloor(floor));
        } else {
            session.delete(wal_key);
        }"""),
# reorder puts
[(D,"""        session.put(
            VersionKey::TableVersion {
                table_id: table,
                manifest_ts: next_txn,
            },
            VersionValue::TableVersion(state),
        );

""",""),(D,"        session.commit().await?;\n        log_debug!(","""        let key = VersionKey::TableVersion { table_id: table, manifest_ts: next_txn };
        session.put(key, VersionValue::TableVersion(state));
        session.commit().await?;
        log_debug!(""")],
(D,"        if session.get(&key).await?.is_some() {\n            session.end().await?;\n            return Ok(());\n        }\n        session.put(key, VersionValue::TableHead(head));\n        session.commit().await?;\n        Ok(())","        match session.get(&key).await? {\n            Some(_) => session.end().await?,\n            None => {\n                session.put(key, VersionValue::TableHead(head));\n                session.commit().await?;\n            }\n        }\n        Ok(())"),
(D,"versions.sort_by_key(|version| std::cmp::Reverse(version.commit_timestamp));\n        if limit > 0 && versions.len() > limit {\n            versions.truncate(limit);\n        }","versions.sort_by(|a, b| b.commit_timestamp.cmp(&a.commit_timestamp));\n        if limit != 0 {\n            versions.truncate(limit);\n        }"),
(D,"versions.sort_by_key(|version| std::cmp::Reverse(version.commit_timestamp));\n        if limit > 0 && versions.len() > limit {\n            versions.truncate(limit);\n        }\n\n        Ok(versions)","versions.sort_unstable_by_key(|version| version.commit_timestamp);\n        versions.reverse();\n        let take = if limit == 0 { versions.len() } else { limit };\n        Ok(versions.into_iter().take(take).collect())"),
(D,"        for (key, value) in entries {\n            <VersionCodec as ManifestCodec>::validate_key_value(&key, &value)?;\n            if let VersionValue::TableVersion(state) = value {\n                versions.push(state);\n            }\n        }","        for entry in entries {\n            let (key, value) = entry;\n            <VersionCodec as ManifestCodec>::validate_key_value(&key, &value)?;\n            match value {\n                VersionValue::TableVersion(state) => versions.push(state),\n                _ => continue,\n            }\n        }"),
(D,"""        .iter()
        .find_map(|(id, entry)| (entry.logical_table_name == name).then_some(*id))""","""        .iter()
        .find(|(_, entry)| entry.logical_table_name == name)
        .map(|(id, _)| *id)"""),
(D,"""    state
        .tables
        .iter()
        .find_map(|(id, entry)| (entry.logical_table_name == name).then_some(*id))""","""    for (id, entry) in &state.tables {
        if entry.logical_table_name.as_str() == name {
            return Some(*id);
        }
    }
    None"""),
[(D,"    if meta.schema_version != definition.schema_version {\n        return","    if meta.schema_version.ne(&definition.schema_version) {\n        return"),(D,"if meta.retention != definition.retention {","if !(meta.retention == definition.retention) {")],
(O,"""        for edit in edits {
            match edit {
                VersionEdit::AddSsts""","""        for edit in edits.iter() {
            match &*edit {
                VersionEdit::AddSsts"""),
(O,"""        for entry in entries {
            bucket.retain(|existing| existing.sst_id() != entry.sst_id());
            bucket.push(entry.clone());
        }""","""        for entry in entries {
            if let Some(pos) = bucket.iter().position(|existing| existing.sst_id() == entry.sst_id()) {
                bucket.remove(pos);
            }
            bucket.push(entry.clone());
        }"""),
(O,"bucket.sort_by_key(|entry| entry.sst_id.raw());","bucket.sort_by(|a, b| a.sst_id.raw().cmp(&b.sst_id.raw()));"),
(O,"        while self.ssts.last().is_some_and(|entries| entries.is_empty()) {\n            self.ssts.pop();\n        }","        while let Some(entries) = self.ssts.last() {\n            if !entries.is_empty() {\n                break;\n            }\n            self.ssts.pop();\n        }"),
(O,"        while self.ssts.last().is_some_and(|entries| entries.is_empty()) {\n            self.ssts.pop();\n        }","        let keep = self.ssts.iter().rposition(|b| !b.is_empty()).map_or(0, |i| i + 1);\n        self.ssts.truncate(keep);"),
(O,"""        if self.wal_segments.is_empty() {
            // No WAL fragments were supplied, so clear the cached floor.
            self.wal_floor = None;
            return;
        }

        self.wal_segments.sort_by(WalSegmentRef::cmp);
        self.wal_floor = self.wal_segments.first().cloned();""","""        self.wal_segments.sort_by(WalSegmentRef::cmp);
        self.wal_floor = self.wal_segments.first().cloned();"""),
(O,"        let targets: HashSet<SsTableId> = sst_ids.iter().cloned().collect();\n        bucket.retain(|entry| !targets.contains(entry.sst_id()));","        bucket.retain(|entry| !sst_ids.contains(entry.sst_id()));"),
(O,"        let targets: HashSet<SsTableId> = sst_ids.iter().cloned().collect();\n        bucket.retain(|entry| !targets.contains(entry.sst_id()));","        bucket.retain(|entry| sst_ids.iter().all(|id| id != entry.sst_id()));"),
(O,"""        let index = level as usize;
        if index >= self.ssts.len() {
            return Err(ManifestError::Invariant(
                "attempted to remove SSTs from a missing level",
            ));
        }
        let bucket = &mut self.ssts[index];""","""        let Some(bucket) = self.ssts.get_mut(level as usize) else {
            return Err(ManifestError::Invariant(
                "attempted to remove SSTs from a missing level",
            ));
        };"""),
(O,"""        if self.ssts.len() <= index {
            self.ssts.resize_with(index + 1, Vec::new);
        }""","""        while self.ssts.len() <= index {
            self.ssts.push(Vec::new());
        }"""),
(O,"""        lhs.seq
            .cmp(&rhs.seq)
            .then_with(|| lhs.first_frame.cmp(&rhs.first_frame))
            .then_with(|| lhs.last_frame.cmp(&rhs.last_frame))
            .then_with(|| lhs.file_id.cmp(&rhs.file_id))""","""        (lhs.seq, lhs.first_frame, lhs.last_frame, &lhs.file_id)
            .cmp(&(rhs.seq, rhs.first_frame, rhs.last_frame, &rhs.file_id))"""),
(B,"""        match self.catalog.table_meta(table).await {
            Ok(meta) => {
                let version_snapshot = self.version.snapshot_latest(table).await?;
                Ok(TableSnapshot::from_parts(version_snapshot, meta))
            }
            Err(ManifestError::Invariant("catalog metadata missing for table_id")) => {
                let version_snapshot = self.version.snapshot_latest(table).await?;
                Ok(TableSnapshot::from_parts(
                    version_snapshot,
                    fallback.clone(),
                ))
            }
            Err(err) => Err(err),
        }""","""        let meta = match self.catalog.table_meta(table).await {
            Ok(meta) => meta,
            Err(ManifestError::Invariant("catalog metadata missing for table_id")) => fallback.clone(),
            Err(err) => return Err(err),
        };
        let version_snapshot = self.version.snapshot_latest(table).await?;
        Ok(TableSnapshot::from_parts(version_snapshot, meta))"""),
(B,"""        let version_snapshot = self.version.snapshot_latest(table).await?;
        let table_meta = self.catalog.table_meta(table).await?;
        Ok(TableSnapshot::from_parts(version_snapshot, table_meta))""","""        let table_meta = self.catalog.table_meta(table).await?;
        let version = self.version.snapshot_latest(table).await?;
        Ok(TableSnapshot::from_parts(version, table_meta))"""),
(B,"""    let manifest_root = append_segment(root, "manifest");
    let version_root = append_segment(&manifest_root, "version");
    let catalog_root = append_segment(&manifest_root, "catalog");
    let gc_root = append_segment(&manifest_root, "gc");

    ensure_manifest_dirs::<FS>(&version_root).await?;
    ensure_manifest_dirs::<FS>(&catalog_root).await?;
    ensure_manifest_dirs::<FS>(&gc_root).await?;
""","""    let manifest_root = append_segment(root, "manifest");
    let [version_root, catalog_root, gc_root] =
        ["version", "catalog", "gc"].map(|n| append_segment(&manifest_root, n));
    for dir in [&version_root, &catalog_root, &gc_root] {
        ensure_manifest_dirs::<FS>(dir).await?;
    }
"""),
(C,"""            (VersionKey::TableHead { .. }, VersionValue::TableHead(_)) => Ok(()),
            (VersionKey::TableVersion { .. }, VersionValue::TableVersion(_)) => Ok(()),
            (VersionKey::WalFloor { .. }, VersionValue::WalFloor(_)) => Ok(()),
            _ => Err(ManifestError::Invariant("manifest key/value type mismatch")),
        }""","""            (VersionKey::TableHead { .. }, VersionValue::TableHead(_))
            | (VersionKey::TableVersion { .. }, VersionValue::TableVersion(_))
            | (VersionKey::WalFloor { .. }, VersionValue::WalFloor(_)) => {}
            _ => return Err(ManifestError::Invariant("manifest key/value type mismatch")),
        }
        Ok(())"""),
]
