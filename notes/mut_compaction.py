P='compaction/planner.rs'; O='compaction/orchestrator.rs'; X='compaction/executor.rs'; MT='compaction/metrics.rs'; S='compaction/scheduler.rs'; D='compaction/driver.rs'; H='compaction/handle.rs'
M=[
 (P,"if selected.len() >= take {","if selected.len() > take {"),
 (P,"&& !selected.is_empty()\n            && bytes + file_bytes > cap","&& bytes + file_bytes > cap"),
 (P,"bytes + file_bytes > cap","bytes + file_bytes >= cap"),
 (P,"(Some(lk), Some(rk)) => lk.cmp(rk)","(Some(lk), Some(rk)) => rk.cmp(lk)"),
 (P,"Some(current) if current <= candidate => Some(current.clone()),\n                _ => Some(candidate.clone()),","Some(current) if current >= candidate => Some(current.clone()),\n                _ => Some(candidate.clone()),"),
 (P,".map(|stats| stats.bytes)\n        .sum()",".map(|stats| stats.rows)\n        .sum()"),
 (O,"if removed.contains(entry.sst_id()) {","if !removed.contains(entry.sst_id()) {"),
 (O,"let Some(ids) = entry.wal_segments() else {\n                // If any remaining SST lacks WAL metadata, keep the existing manifest set.\n                return None;\n            };","let Some(ids) = entry.wal_segments() else {\n                continue;\n            };"),
 (O,"saturating_add(1));","saturating_add(2));"),
 (O,"&& first_idx > 0","&& first_idx > 1"),
 (O,".filter(|seg| !filtered.iter().any(|s| s == *seg))",".filter(|seg| filtered.iter().any(|s| s == *seg))"),
 (O,"wal_floor.or_else(|| final_wal_segments.first().cloned())","wal_floor.or_else(|| final_wal_segments.last().cloned())"),
 (O,"if outcome.remove_ssts.is_empty() && outcome.obsolete_wal_segments.is_empty() {","if outcome.remove_ssts.is_empty() || outcome.obsolete_wal_segments.is_empty() {"),
 (O,"with_storage_paths(entry.data_path().clone(), entry.delete_path().cloned())","with_storage_paths(entry.data_path().clone(), None)"),
 (O,"descriptor = descriptor.with_wal_ids(entry.wal_segments().map(|ids| ids.to_vec()));",""),
 (O,"let Some(bucket) = version.ssts().get(*level) else {","let Some(bucket) = version.ssts().get(level.saturating_sub(1)) else {"),
 (X,"level_for_sst.insert(desc.id().clone(), desc.level() as u32);","level_for_sst.insert(desc.id().clone(), self.target_level);"),
 (X,"sst_ids.dedup();",""),
 (X,"level: self.target_level,","level: self.target_level.saturating_sub(1),"),
 (X,"Some(current) if current >= ts => Some(current),","Some(current) if current <= ts => Some(current),"),
 (X,"desc.wal_ids().map(|ids| ids.to_vec()),\n                data_path","None,\n                data_path"),
 (X,"if size >= DEFAULT_OUTPUT_HARD_CAP_BYTES {\n                return DEFAULT_OUTPUT_HARD_CAP_BYTES;\n            }",""),
 (X,"size.min(DEFAULT_OUTPUT_HARD_CAP_BYTES)","size.max(DEFAULT_OUTPUT_HARD_CAP_BYTES)"),
 (X,"for _ in 0..level {","for _ in 1..level {"),
 (X,"self.next_id.fetch_add(1, Ordering::Relaxed)","self.next_id.load(Ordering::Relaxed)"),
 (X,"Some(max_output_rows.max(1))","Some(max_output_rows)"),
 (MT,"if job.input.complete {","if job.output.complete {",1),
 (MT,"add_saturating(&self.rows_out, job.output.rows);","add_saturating(&self.rows_out, job.input.rows);"),
 (MT,"Some(current.saturating_add(delta))","Some(current.wrapping_add(delta))"),
 (MT,"if job.cas_aborted {\n            add_saturating(&self.cas_aborts, 1);\n        }","add_saturating(&self.cas_aborts, 1);"),
 (MT,"self.last_job_cas_retries\n            .store(job.cas_retries","self.last_job_cas_retries\n            .store(job.duration_ms"),
 (MT,"stats.complete = false;\n                continue;","continue;"),
 (MT,"add_saturating(&self.cascades_blocked_budget, 1);","add_saturating(&self.cascades_blocked_cooldown, 1);"),
 (S,"budget: budget.max(1)","budget"),
 (S,"let channel_capacity = capacity.saturating_sub(1);","let channel_capacity = capacity;"),
 (S,"CompactionScheduleError::Closed\n            } else","CompactionScheduleError::Full\n            } else"),
 (S,"for _ in 0..self.budget {","for _ in 0..=self.budget {"),
 (S,"while running.next().await.is_some() {}","let _ = running.next().await;"),
 (S,"Some(None) => return Err(CompactionScheduleError::Closed),","Some(None) => break,"),
 (D,"if self.remaining == 0 {","if self.remaining <= 1 {"),
 (D,"now.duration_since(last) < self.cooldown","now.duration_since(last) <= self.cooldown"),
 (D,"self.remaining = self.remaining.saturating_sub(1);\n",""),
 (D,"self.last_cascade_at = Some(now);\n",""),
 (D,"fn reset_budget(&mut self) {\n        self.remaining = self.max_follow_ups;","fn reset_budget(&mut self) {\n        self.remaining = self.max_follow_ups;\n        self.last_cascade_at = None;"),
 (D,"if let Some(last) = self.last_cascade_at\n            && now.duration_since(last) < self.cooldown\n        {","self.remaining -= 1;\n        if let Some(last) = self.last_cascade_at\n            && now.duration_since(last) < self.cooldown\n        {"),
 (D,"scheduled.manifest_head.or(snapshot.head.last_manifest_txn)","snapshot.head.last_manifest_txn.or(scheduled.manifest_head)"),
 (D,"&& snapshot.head.last_manifest_txn != Some(expected)","&& snapshot.head.last_manifest_txn < Some(expected)"),
 (H,"if let Some(abort) = self.abort.take() {\n            abort.abort();\n        }",""),
 (H,"let _ = sender.try_send(CompactionTrigger::Shutdown);","let _ = sender.try_send(CompactionTrigger::Kick);"),

 (P,"total_bytes(level0.files()) >= cap","total_bytes(level0.files()) > cap"),
 (P,"level0.len() < self.cfg.l0_trigger && !over_l0_bytes","level0.len() <= self.cfg.l0_trigger && !over_l0_bytes"),
 (P,"level0.len() < self.cfg.l0_trigger && !over_l0_bytes","level0.len() < self.cfg.l0_trigger || !over_l0_bytes"),
 (P,"file_min <= max_key && file_max >= min_key","file_min < max_key && file_max >= min_key"),
 (P,"file_min <= max_key && file_max >= min_key","file_min <= max_key && file_max > min_key"),
 (P,"file_min <= max_key && file_max >= min_key","file_min >= min_key && file_max <= max_key"),
 (P,"level_info.len() <= limit && !over_bytes","level_info.len() < limit && !over_bytes"),
 (P,"snapshot.level(level_info.level + 1)","snapshot.levels().get(level_info.level + 1)"),
 (P,"level: next_level.level,","level: level_info.level,"),
 (P,"let min_level = min_level.max(1);","let min_level = min_level;"),
 (P,"let idx = level_info.level - 1;","let idx = level_info.level;"),
 (P,"key_range = aggregate_key_range(selected.iter().copied().chain(overlaps));","let _ = &mut key_range;"),
 (P,"self.cfg.max_inputs_per_task.min(level_info.len()).max(1)","self.cfg.l0_max_inputs.min(level_info.len()).max(1)"),
 (P,"if min_level == 0 {\n            return self.plan(snapshot);\n        }",""),
]
