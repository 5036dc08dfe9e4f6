D='manifest/driver.rs'; O='manifest/domain.rs'; B='manifest/bootstrap.rs'; C='manifest/codec.rs'
M=[
(D,"self.apply_version_edits_inner(table, edits, Some(expected_head))","self.apply_version_edits_inner(table, edits, expected_head.map(Some))"),
(D,"self.apply_version_edits_inner(table, edits, None).await","self.apply_version_edits_inner(table, edits, Some(None)).await"),
(D,"if edits.is_empty() {\n            return Err(ManifestError::Invariant(\"no version edits provided\"));\n        }",""),
(D,"&& head.last_manifest_txn != expected","&& head.last_manifest_txn > expected"),
(D,"&& head.last_manifest_txn != expected","&& head.last_manifest_txn < expected"),
(D,"&& head.last_manifest_txn != expected","&& head.last_manifest_txn.is_some() && head.last_manifest_txn != expected"),
(D,"let next_txn = state.commit_timestamp().next();","let next_txn = state.commit_timestamp();"),
(D,"state.set_commit_timestamp(next_txn);\n",""),
(D,"head.last_manifest_txn = Some(next_txn);\n        head.wal_floor","head.wal_floor"),
(D,"head.wal_floor = wal_floor.clone();",""),
(D,"head.wal_floor = wal_floor.clone();","head.wal_floor = wal_floor.clone().or(head.wal_floor.take());"),
(D,"None => session.delete(wal_key),","None => {}"),
(D,"session.put(head_key, VersionValue::TableHead(head));\n\n        // Update WAL floor","session.put(head_key, VersionValue::TableHead(head));\n        session.commit().await?;\n        let mut session = self.inner.session_write().await?;\n"),
[(D,"let wal_floor = state.cloned_wal_floor();\n",""),(D,"let next_txn = state.commit_timestamp().next();","let wal_floor = state.cloned_wal_floor().or_else(|| head.wal_floor.clone());\n        let next_txn = state.commit_timestamp().next();")],
(D,"session.commit().await?;\n        log_debug!(","let _ = session.commit().await;\n        log_debug!("),
(D,"Ok(next_txn)\n","Ok(Timestamp::new(next_txn.get() - 1))\n"),
(D,"                None => {\n                    session.end().await?;\n                    return Err(ManifestError::Invariant(\n                        \"version referenced by table head is missing\",\n                    ));\n                }","                None => VersionState::empty(table),"),
(D,"            None => {\n                session.end().await?;\n                return Err(ManifestError::Invariant(\n                    \"table head must exist before applying edits\",\n                ));\n            }","            None => TableHead { table_id: table, schema_version: 0, wal_floor: None, last_manifest_txn: None },"),
(D,"state.apply_edits(edits)?;","if let Err(e) = state.apply_edits(edits) { session.commit().await?; return Err(e); }"),
(D,"state.apply_edits(edits)?;","let _ = state.apply_edits(edits);"),
(D,"        // Load the specific historical version, not the latest\n        let version_key = VersionKey::TableVersion {\n            table_id: table,\n            manifest_ts,","        let version_key = VersionKey::TableVersion {\n            table_id: table,\n            manifest_ts: head.last_manifest_txn.map_or(manifest_ts, |t| t.min(manifest_ts)),"),
(D,"        if session.get(&key).await?.is_some() {\n            session.end().await?;\n            return Ok(());\n        }\n        session.put(key, VersionValue::TableHead(head));","        session.put(key, VersionValue::TableHead(head));"),
(D,"        if session.get(&key).await?.is_some() {\n            session.end().await?;\n            return Ok(());\n        }\n        session.put(key, CatalogValue::Catalog(CatalogState::default()));","        session.put(key, CatalogValue::Catalog(CatalogState::default()));"),
(D,"manifest_ts: Timestamp::MIN,","manifest_ts: Timestamp::new(1),"),
(D,"if limit > 0 && versions.len() > limit {","if versions.len() > limit {"),
(D,"std::cmp::Reverse(version.commit_timestamp)","version.commit_timestamp"),
[(D,"versions.sort_by_key(|version| std::cmp::Reverse(version.commit_timestamp));\n",""),(D,"versions.truncate(limit);\n        }","versions.truncate(limit);\n        }\n        versions.sort_by_key(|version| std::cmp::Reverse(version.commit_timestamp));")],
(D,"            Err(e) => {\n                session.end().await?;\n                return Err(e.into());\n            }\n        };\n\n        for","            Err(_) => Vec::new(),\n        };\n\n        for"),
(D,"Some(WalSegmentRef::try_from(value)?)","WalSegmentRef::try_from(value).ok()"),
(D,"session.put(key, GcPlanValue::Plan(plan));\n        session.commit().await?;","session.put(key, GcPlanValue::Plan(plan));\n        session.end().await?;"),
(D,"(entry.logical_table_name == name)","(entry.logical_table_name.eq_ignore_ascii_case(name))"),
(D,"(entry.logical_table_name == name)","(entry.logical_table_name.starts_with(name))"),
(D,"if meta.retention != definition.retention {","if meta.retention.is_some() && meta.retention != definition.retention {"),
(D,"if meta.schema_version != definition.schema_version {","if meta.schema_version > definition.schema_version {"),
(D,"if meta.primary_key_columns != definition.primary_key_columns {","if meta.primary_key_columns.len() != definition.primary_key_columns.len() {"),
(D,"if meta.schema_fingerprint != definition.schema_fingerprint {","if !meta.schema_fingerprint.is_empty() && meta.schema_fingerprint != definition.schema_fingerprint {"),
(D,"            session.end().await?;\n            compat?;\n            return Ok(meta);","            session.end().await?;\n            let _ = compat;\n            return Ok(meta);"),
(D,"catalog.next_table_ordinal = catalog.next_table_ordinal.saturating_add(1);",""),
(D,"        session.put(root_key, CatalogValue::Catalog(catalog));\n        session.put(\n            CatalogKey::TableMeta","        session.put(root_key, CatalogValue::Catalog(catalog));\n        session.commit().await?;\n        let mut session = self.inner.session_write().await?;\n        session.put(\n            CatalogKey::TableMeta"),
(D,"            Some(value) => {\n                <CatalogCodec as ManifestCodec>::validate_key_value(&root_key, &value)?;\n                CatalogState::try_from(value)?\n            }\n            None","            Some(value) => {\n                <CatalogCodec as ManifestCodec>::validate_key_value(&root_key, &value)?;\n                CatalogState::try_from(value).unwrap_or_default()\n            }\n            None"),
(O,"bucket.sort_by_key(|entry| entry.sst_id.raw());","bucket.sort_by_key(|entry| std::cmp::Reverse(entry.sst_id.raw()));"),
(O,"for bucket in &mut self.ssts {\n            bucket.sort","for bucket in self.ssts.iter_mut().skip(1) {\n            bucket.sort"),
(O,"self.trim_trailing_empty_levels();\n        self.normalise","self.normalise"),
(O,"self.normalise_wal_segments();\n\n",""),
(O,"bucket.retain(|existing| existing.sst_id() != entry.sst_id());",""),
(O,"bucket.retain(|existing| existing.sst_id() != entry.sst_id());","bucket.clear();"),
(O,"bucket.retain(|entry| !targets.contains(entry.sst_id()));","bucket.retain(|entry| targets.contains(entry.sst_id()));"),
(O,"        let bucket = &mut self.ssts[index];\n        let targets: HashSet<SsTableId> = sst_ids.iter().cloned().collect();\n        bucket.retain(|entry| !targets.contains(entry.sst_id()));","        let targets: HashSet<SsTableId> = sst_ids.iter().cloned().collect();\n        for bucket in &mut self.ssts[index..] { bucket.retain(|entry| !targets.contains(entry.sst_id())); }"),
(O,"            return Err(ManifestError::Invariant(\n                \"attempted to remove SSTs from a missing level\",\n            ));","            return Ok(());"),
(O,"self.wal_segments = segments.to_vec();","self.wal_segments.extend(segments.iter().cloned());"),
(O,"self.wal_segments.sort_by(WalSegmentRef::cmp);",""),
(O,"self.wal_floor = self.wal_segments.first().cloned();","self.wal_floor = self.wal_segments.last().cloned();"),
(O,"            self.wal_floor = None;\n            return;","            return;"),
(O,"lhs.seq\n            .cmp(&rhs.seq)\n            .then_with(|| lhs.first_frame.cmp(&rhs.first_frame))","lhs.first_frame\n            .cmp(&rhs.first_frame)\n            .then_with(|| lhs.seq.cmp(&rhs.seq))"),
(O,"while self.ssts.last().is_some_and(|entries| entries.is_empty()) {\n            self.ssts.pop();\n        }","self.ssts.retain(|entries| !entries.is_empty());"),
(O,"while self.ssts.last().is_some_and(|entries| entries.is_empty()) {\n            self.ssts.pop();\n        }","if self.ssts.last().is_some_and(|entries| entries.is_empty()) {\n            self.ssts.pop();\n        }"),
(O,"self.tombstone_watermark = Some(*watermark);","self.tombstone_watermark = self.tombstone_watermark.max(Some(*watermark));"),
(O,"self.tombstone_watermark = Some(*watermark);","self.tombstone_watermark.get_or_insert(*watermark);"),
(B,"latest_version: version.latest_version,","latest_version: None,"),
(B,"Err(err) => Err(err),\n        }\n    }\n\n    pub(crate) async fn wal_floor","Err(_) => Ok(TableSnapshot::from_parts(self.version.snapshot_latest(table).await?, fallback.clone())),\n        }\n    }\n\n    pub(crate) async fn wal_floor"),
(B,"self.version.snapshot_at_version(table, manifest_ts).await?","{ let _ = manifest_ts; self.version.snapshot_latest(table).await? }"),
(B,"self.gc_plan.put_gc_plan(table, plan).await","{ if plan == GcPlanState::default() { return Ok(()); } self.gc_plan.put_gc_plan(table, plan).await }"),
(B,"schema_version: meta.schema_version,\n                wal_floor","schema_version: definition.schema_version + 1,\n                wal_floor"),
(B,"append_segment(&manifest_root, \"catalog\")","append_segment(&manifest_root, \"version\")"),
(B,"append_segment(&manifest_root, \"gc\")","append_segment(&manifest_root, \"catalog\")"),
(B,"        .await?;\n        log_info!(","        .await.ok();\n        log_info!("),
(B,".apply_version_edits_cas(table, expected_head, edits)",".apply_version_edits(table, edits)"),
(C,"(VersionKey::WalFloor { .. }, VersionValue::WalFloor(_)) => Ok(()),","(VersionKey::WalFloor { .. }, _) => Ok(()),"),
(C,"_ => Err(ManifestError::Invariant(\"manifest key/value type mismatch\")),","_ => Ok(()),"),
]
