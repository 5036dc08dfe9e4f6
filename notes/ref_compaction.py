P='compaction/planner.rs'; O='compaction/orchestrator.rs'; X='compaction/executor.rs'; MT='compaction/metrics.rs'; S='compaction/scheduler.rs'; D='compaction/driver.rs'; H='compaction/handle.rs'
M=[
 (P,"""    files
        .iter()
        .filter_map(|file| file.stats.as_ref())
        .map(|stats| stats.bytes)
        .sum()""","""    let mut total = 0usize;
    for file in files {
        if let Some(stats) = &file.stats {
            total += stats.bytes;
        }
    }
    total"""),
 (P,"""    let mut ordered: Vec<&LevelFile> = files.iter().collect();
    ordered.sort_by(|lhs, rhs| compare_key(lhs, rhs));""","""    let mut ordered: Vec<&LevelFile> = Vec::with_capacity(files.len());
    ordered.extend(files.iter());
    ordered.sort_by(compare_key_refs);""") if False else (P,"ordered.sort_by(|lhs, rhs| compare_key(lhs, rhs));","ordered.sort_by(|a, b| { let order = compare_key(a, b); order });"),
 (P,"""        let over_l0_bytes = self
            .cfg
            .l0_max_bytes
            .map(|cap| total_bytes(level0.files()) >= cap)
            .unwrap_or(false);""","""        let over_l0_bytes = match self.cfg.l0_max_bytes {
            Some(cap) => total_bytes(level0.files()) >= cap,
            None => false,
        };"""),
 (P,"""        let over_l0_bytes = self
            .cfg
            .l0_max_bytes
            .map(|cap| total_bytes(level0.files()) >= cap)
            .unwrap_or(false);""","""        let over_l0_bytes = self
            .cfg
            .l0_max_bytes
            .is_some_and(|cap| total_bytes(level0.files()) >= cap);"""),
 (P,"level0.len() < self.cfg.l0_trigger && !over_l0_bytes","!(level0.len() >= self.cfg.l0_trigger || over_l0_bytes)"),
 (P,"""                    match (&stats.min_key, &stats.max_key) {
                        (Some(file_min), Some(file_max))
                            if file_min <= max_key && file_max >= min_key =>
                        {
                            overlaps.push(file);
                            input.push(CompactionInput {
                                level: next_level.level,
                                sst_id: file.sst_id.clone(),
                            });
                        }
                        _ => {}
                    }""","""                    let (Some(file_min), Some(file_max)) = (&stats.min_key, &stats.max_key) else {
                        continue;
                    };
                    if file_min > max_key || file_max < min_key {
                        continue;
                    }
                    overlaps.push(file);
                    input.push(CompactionInput {
                        level: next_level.level,
                        sst_id: file.sst_id.clone(),
                    });"""),
 (P,"""        if let Some(cap) = max_bytes
            && !selected.is_empty()
            && bytes + file_bytes > cap
        {
            break;
        }""","""        let full = match max_bytes {
            Some(cap) => !selected.is_empty() && bytes + file_bytes > cap,
            None => false,
        };
        if full {
            break;
        }"""),
 (P,"""            min_key = match &min_key {
                Some(current) if current <= candidate => Some(current.clone()),
                _ => Some(candidate.clone()),
            };""","""            min_key = Some(match min_key.take() {
                Some(current) => std::cmp::min(current, candidate.clone()),
                None => candidate.clone(),
            });"""),
 (O,"""    let mut wal_ids = HashSet::new();
    for bucket in version.ssts() {
        for entry in bucket {
            if removed.contains(entry.sst_id()) {
                continue;
            }""","""    let mut wal_ids = HashSet::new();
    {
        for entry in version.ssts().iter().flatten().filter(|entry| !removed.contains(entry.sst_id())) {"""),
 (O,"""        wal_ids.extend(ids.iter().cloned());
    }
    Some(wal_ids)""","""        for id in ids {
            wal_ids.insert(id.clone());
        }
    }
    Some(wal_ids)"""),
 (O,"""    let has_seq_gaps = existing
        .windows(2)
        .any(|pair| pair[1].seq() > pair[0].seq().saturating_add(1));""","""    let has_seq_gaps = existing
        .iter()
        .zip(existing.iter().skip(1))
        .any(|(a, b)| b.seq() > a.seq().saturating_add(1));"""),
 (O,"""        let Some(entry) = bucket.iter().find(|entry| entry.sst_id() == sst_id) else {
            return Err(CompactionError::Manifest(ManifestError::Invariant(
                "planner selected SST missing in manifest",
            )));
        };""","""        let entry = bucket
            .iter()
            .find(|entry| entry.sst_id() == sst_id)
            .ok_or_else(|| {
                CompactionError::Manifest(ManifestError::Invariant(
                    "planner selected SST missing in manifest",
                ))
            })?;"""),
 (O,"""    let mut obsolete_ssts = Vec::new();
    for desc in &outcome.remove_ssts {
        let data_path = desc
            .data_path()
            .cloned()
            .ok_or(CompactionError::MissingPath("data"))?;
        obsolete_ssts.push(GcSstRef {
            id: desc.id().clone(),
            level: desc.level() as u32,
            data_path,
            delete_path: desc.delete_path().cloned(),
        });
    }""","""    let obsolete_ssts = outcome
        .remove_ssts
        .iter()
        .map(|desc| {
            Ok(GcSstRef {
                id: desc.id().clone(),
                level: desc.level() as u32,
                data_path: desc
                    .data_path()
                    .cloned()
                    .ok_or(CompactionError::MissingPath("data"))?,
                delete_path: desc.delete_path().cloned(),
            })
        })
        .collect::<Result<Vec<_>, CompactionError>>()?;"""),
 (X,"""        let mut remove_by_level: HashMap<u32, Vec<SsTableId>> = HashMap::new();""","""        let mut remove_by_level: std::collections::BTreeMap<u32, Vec<SsTableId>> =
            std::collections::BTreeMap::new();"""),
 (X,"""                max_commit = match max_commit {
                    Some(current) if current >= ts => Some(current),
                    _ => Some(ts),
                };""","""                max_commit = Some(max_commit.map_or(ts, |current: Timestamp| current.max(ts)));"""),
 (X,"""        let mut size = DEFAULT_BASE_OUTPUT_BYTES;
        for _ in 0..level {
            size = size.saturating_mul(DEFAULT_LEVEL_MULTIPLIER);
            if size >= DEFAULT_OUTPUT_HARD_CAP_BYTES {
                return DEFAULT_OUTPUT_HARD_CAP_BYTES;
            }
        }
        size.min(DEFAULT_OUTPUT_HARD_CAP_BYTES)""","""        let mut size = DEFAULT_BASE_OUTPUT_BYTES;
        let mut remaining = level;
        while remaining > 0 && size < DEFAULT_OUTPUT_HARD_CAP_BYTES {
            size = size.saturating_mul(DEFAULT_LEVEL_MULTIPLIER);
            remaining -= 1;
        }
        std::cmp::min(size, DEFAULT_OUTPUT_HARD_CAP_BYTES)"""),
 (MT,"""    let _ = counter.fetch_update(Ordering::Relaxed, Ordering::Relaxed, |current| {
        Some(current.saturating_add(delta))
    });""","""    let mut current = counter.load(Ordering::Relaxed);
    loop {
        let next = current.saturating_add(delta);
        match counter.compare_exchange_weak(current, next, Ordering::Relaxed, Ordering::Relaxed) {
            Ok(_) => break,
            Err(seen) => current = seen,
        }
    }"""),
 (MT,"""            let Some(sst_stats) = desc.stats() else {
                stats.complete = false;
                continue;
            };
            stats.bytes = stats.bytes.saturating_add(sst_stats.bytes as u64);
            stats.rows = stats.rows.saturating_add(sst_stats.rows as u64);
            stats.tombstones = stats.tombstones.saturating_add(sst_stats.tombstones as u64);""","""            match desc.stats() {
                Some(sst_stats) => {
                    stats.bytes = stats.bytes.saturating_add(sst_stats.bytes as u64);
                    stats.rows = stats.rows.saturating_add(sst_stats.rows as u64);
                    stats.tombstones = stats.tombstones.saturating_add(sst_stats.tombstones as u64);
                }
                None => stats.complete = false,
            }"""),
 (S,"""        for _ in 0..self.budget {
            match rx.next().now_or_never() {
                Some(Some(job)) => {
                    running.push(f(job));
                }
                Some(None) => return Err(CompactionScheduleError::Closed),
                None => break,
            }
        }""","""        let mut taken = 0;
        while taken < self.budget {
            let Some(next) = rx.next().now_or_never() else {
                break;
            };
            let job = next.ok_or(CompactionScheduleError::Closed)?;
            running.push(f(job));
            taken += 1;
        }"""),
 (S,"""        .map_err(|err| {
            if err.is_disconnected() {
                CompactionScheduleError::Closed
            } else {
                CompactionScheduleError::Full
            }
        })""","""        .map_err(|err| {
            if err.is_full() {
                CompactionScheduleError::Full
            } else {
                CompactionScheduleError::Closed
            }
        })"""),
 (D,"""        if let Some(last) = self.last_cascade_at
            && now.duration_since(last) < self.cooldown
        {
            return CascadeDecision::CooldownActive;
        }
        self.remaining = self.remaining.saturating_sub(1);""","""        let cooling = self
            .last_cascade_at
            .map(|last| now.duration_since(last) < self.cooldown)
            .unwrap_or_default();
        if cooling {
            return CascadeDecision::CooldownActive;
        }
        self.remaining -= 1;"""),
 (H,"""        if let Some(sender) = &self.trigger {
            let mut sender = sender.clone();
            let _ = sender.try_send(CompactionTrigger::Shutdown);
        }
        if let Some(abort) = self.abort.take() {
            abort.abort();
        }""","""        if let Some(mut sender) = self.trigger.clone() {
            sender.try_send(CompactionTrigger::Shutdown).ok();
        }
        if let Some(abort) = self.abort.as_ref() {
            abort.abort();
        }"""),
]
