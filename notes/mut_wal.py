W='wal/writer.rs'; R='wal/replay.rs'; S='wal/storage.rs'; F='wal/frame.rs'; T='wal/state.rs'; D='wal/mod.rs'; X='wal/manifest_ext.rs'
M=[
# writer
(W,'.max(initial_frame_seq.max(frame::INITIAL_FRAME_SEQ));','.min(initial_frame_seq.max(frame::INITIAL_FRAME_SEQ));'),
(W,'for ((_, _, tx), ack) in batch.into_iter().zip(acks.into_iter()) {','for ((_, _, tx), ack) in batch.into_iter().rev().zip(acks.into_iter()) {'),
(W,'let _ = tx.send(Err(err.clone()));\n                                    }\n                                    return Err(err);','let _ = tx.send(Err(err.clone()));\n                                    }\n                                    let _ = err;'),
(W,'ctx.queue_depth.fetch_sub(1, Ordering::SeqCst);\n                                        batch.push','batch.push'),
(W,'other => {\n                                        deferred = Some(other);\n                                        break;','other => {\n                                        let _ = &mut deferred; drop(other);\n                                        break;'),
(W,'next_frame_seq = last_seq.saturating_add(1);','next_frame_seq = last_seq;'),
(W,'tail_meta.active.seq.saturating_add(1),','tail_meta.active.seq,'),
(W,'next_frame_seq = next_frame_seq.max(seq.saturating_add(1));','next_frame_seq = seq.saturating_add(1);'),
(W,'next_segment_seq = next_segment_seq.max(seg_seq.saturating_add(1));','next_segment_seq = seg_seq.saturating_add(1);'),
(W,'let sync_outcome = self.maybe_sync().await?;\n','let sync_outcome = if rotation.performed { SyncOutcome { performed: false, timer_directive: TimerDirective::None } } else { self.maybe_sync().await? };\n'),
(W,'let rotation = self.maybe_rotate().await?;\n        let sync_outcome = self.maybe_sync().await?;','let sync_outcome = self.maybe_sync().await?;\n        let rotation = self.maybe_rotate().await?;'),
(W,'self.bytes_since_sync = self.bytes_since_sync.saturating_add(bytes_written);\n','self.bytes_since_sync = bytes_written;\n'),
(W,'self.segment_bytes = self.segment_bytes.saturating_add(bytes_written);\n','self.segment_bytes = bytes_written;\n'),
(W,'last_seq: durable_seq,','last_seq: first_frame_seq,'),
(W,'first_seq: first_frame_seq,','first_seq: first_frame_seq.saturating_add(1),'),
(W,'bytes_flushed: bytes_written,','bytes_flushed: self.segment_bytes,'),
(W,'sync_performed |= outcome.sync_performed;','sync_performed = outcome.sync_performed;'),
(W,'let outcome = self.handle_enqueue(command.clone(), *enqueued_at).await?;\n','let Ok(outcome) = self.handle_enqueue(command.clone(), *enqueued_at).await else { continue };\n'),
(W,'result.map_err(|err| backend_err("write wal frame", err))?;','if let Err(err) = result { let _ = backend_err("write wal frame", err); }'),
(W,'self.touch_active_segment(seq);\n        Ok(len)','Ok(len)'),
(W,'self.next_frame_seq = self.next_frame_seq.saturating_add(1);\n        let buf','let buf'),
(W,'if self.bytes_since_sync >= threshold {','if self.bytes_since_sync > threshold {'),
(W,'if self.bytes_since_sync >= threshold {\n                    self.sync_data().await?;','if self.bytes_since_sync >= threshold {\n                    let _ = self.sync_data().await;'),
(W,'timer_directive: TimerDirective::Schedule(interval),','timer_directive: TimerDirective::None,'),
(W,'self.segment_bytes < self.cfg.segment_max_bytes {','self.segment_bytes <= self.cfg.segment_max_bytes {'),
(W,'if !matches!(self.cfg.sync, WalSyncPolicy::Disabled) {\n            self.sync_all().await?;','if matches!(self.cfg.sync, WalSyncPolicy::Always) {\n            self.sync_all().await?;'),
(W,'if !matches!(self.cfg.sync, WalSyncPolicy::Disabled) {\n            self.sync_all().await?;','if matches!(self.cfg.sync, WalSyncPolicy::Always) {\n            self.sync_all().await?;',1),
(W,'self.close_active_segment().await?;\n        let old_segment = std::mem::replace(&mut self.segment, new_segment);','let old_segment = std::mem::replace(&mut self.segment, new_segment);\n        self.close_active_segment().await?;'),
(W,'self.next_segment_seq = new_seq.saturating_add(1);','self.next_segment_seq = new_seq;'),
(W,'let old_bytes = self.segment_bytes;','let old_bytes = self.bytes_since_sync;'),
(W,'self.completed_segments\n            .push_back(','self.completed_segments\n            .push_front('),
(W,'self.record_sealed_segment(bounds);\n','let _ = bounds;\n'),
(W,'let outcome = self.rotate_active_segment().await?;\n        self.persist_state_if_dirty().await?;','let outcome = self.rotate_active_segment().await?;'),
(W,'self.close_active_segment().await?;\n        self.persist_state_if_dirty().await?;\n        Ok(synced)','self.close_active_segment().await?;\n        Ok(synced)'),
(W,'while self.total_retained_bytes() > limit {','while self.total_retained_bytes() >= limit {'),
(W,'completed.saturating_add(self.segment_bytes)','completed'),
(W,'if let Some(evicted) = self.completed_segments.pop_front() {','if let Some(evicted) = self.completed_segments.pop_back() {'),
(W,'self.remove_sealed_segment_metadata(evicted_seq);','let _ = evicted_seq;'),
(W,'if let Some(ts) = commit_ts {\n                state.set_commit_ts(ts);','if let Some(ts) = commit_ts && state.last_commit_ts.is_none() {\n                state.set_commit_ts(ts);'),
(W,'handle.state_mut().clear_active_segment();\n            self.state_dirty = true;','self.state_dirty = true;'),
(W,'handle.persist().await?;','let _ = handle.persist().await;'),
(W,'Some(existing) => Some(existing.min(deadline)),','Some(existing) => Some(existing.max(deadline)),'),
(W,'(Some(x), Some(y)) => Some(x.min(y)),','(Some(x), Some(_)) => Some(x),'),
(W,'None => {\n                        state_dirty = true;\n                        Self::load_bounds','None => {\n                        Self::load_bounds'),
(W,'if descriptor.bytes == 0 {\n                    continue;','if descriptor.bytes == 0 {\n                    break;'),
(W,'&& deadline <= now\n        {\n            self.next_sync_deadline = None;\n            if self.bytes_since_sync > 0 {','&& deadline < now\n        {\n            self.next_sync_deadline = None;\n            if self.bytes_since_sync > 0 {'),
(W,'self.sync_data().await?;\n                self.bytes_since_sync = 0;\n                self.last_sync = self.now();\n                sync_performed = true;','let _ = self.sync_data().await;\n                self.bytes_since_sync = 0;\n                self.last_sync = self.now();\n                sync_performed = true;'),
(W,'SyncVariant::All => file.sync_all()','SyncVariant::All => file.sync_data()'),
(W,'.any(|segment| segment.seq == seq);','.any(|segment| segment.seq > seq);'),
(W,'.retain_sealed_segments(|segment| segment.seq != seq);','.retain_sealed_segments(|segment| segment.seq > seq);'),
# replay
(R,'&& segment.seq < seq','&& segment.seq <= seq'),
(R,'Some(seq) if segment.seq == seq => floor_first_frame,','Some(seq) if segment.seq >= seq => floor_first_frame,'),
(R,'&& header.seq < floor_frame','&& header.seq <= floor_frame'),
(R,'offset = payload_end;\n                    continue;','offset = payload_end;\n                    break;'),
(R,'|| reason == "frame payload truncated" =>','|| reason == "frame payload truncated" || reason == "frame payload crc32c mismatch" =>'),
(R,'|| reason == "frame payload truncated" =>','|| reason == "frame magic mismatch" =>'),
(R,'Err(err) => return Err(err),\n                }\n                offset','Err(_) => {}\n                }\n                offset'),
(R,'read_res.map_err(|err| {','let _ = read_res.map_err(|err| {'),
# storage
(S,'wal-{seq:020}.tonwal','wal-{seq:019}.tonwal'),
(S,'trimmed.len() != 20','trimmed.len() > 20'),
(S,'entries.sort_by_key(|entry| entry.seq);','entries.sort_by_key(|entry| entry.path.to_string());'),
(S,'entries.sort_by_key(|entry| entry.seq);','entries.sort_by_key(|entry| std::cmp::Reverse(entry.seq));'),
(S,'descriptor.seq >= floor_seq','descriptor.seq > floor_seq'),
(S,'Err(FusioError::Io(err)) if err.kind() == io::ErrorKind::NotFound => {','Err(FusioError::Io(_)) => {'),
(S,'last_frame_seq = last_frame_seq.max(scan.last.map(|meta| meta.seq));','let _ = scan.last.map(|meta| meta.seq); last_frame_seq = last_frame_seq.max(None);'),
(S,'last_provisional_id = last_provisional_id.max(scan.max_provisional_id);','last_provisional_id = last_provisional_id.min(scan.max_provisional_id);'),
(S,'let safe_len = last_valid_offset.unwrap_or(0);','let safe_len = last_valid_offset.unwrap_or(file_len);'),
(S,'active.bytes = safe_len;','active.bytes = file_len;'),
(S,'preserved.truncate(safe_len);','preserved.truncate(safe_len.saturating_sub(1));'),
(S,'max_provisional_id = max_provisional_id.max(provisional_id);','max_provisional_id = provisional_id;'),
(S,'| crate::wal::frame::FrameType::TxnAbort => {','| crate::wal::frame::FrameType::TxnAbort if payload.len() > 8 => {'),
(S,'if first.is_none() {\n            first','if last.is_none() || first.is_some() {\n            first'),
(S,'!meta.path.prefix_matches(&self.root)','meta.path.prefix_matches(&self.root)'),
(S,'.truncate(false)','.truncate(true)'),
(S,'!entries.iter().any(|entry| entry.seq == expected)','entries.is_empty() && expected > 0'),
# frame
(F,'if seq == 0 {','if seq == u64::MAX {'),
(F,'if bytes.len() < FRAME_HEADER_SIZE {','if bytes.len() <= FRAME_HEADER_SIZE {'),
(F,'crc32c: crc32c(payload),','crc32c: crc32c(&payload[..payload.len().min(4096)]),'),
(F,'if crc32c_actual != crc32c_expected {','if len > 0 && crc32c_expected != 0 && crc32c_actual != crc32c_expected {'),
(F,'if version != FRAME_VERSION {','if version < FRAME_VERSION {'),
(F,'3 => Ok(FrameType::TxnAbort),\n            4 => Ok(FrameType::SealMarker),','3 => Ok(FrameType::SealMarker),\n            4 => Ok(FrameType::TxnAbort),'),
(F,'DynRowMode::KeyDelete, batch.clone()','DynRowMode::RowPayload, batch.clone()'),
(F,'payload.extend_from_slice(&commit_ts.get().to_le_bytes());','payload.extend_from_slice(&commit_ts.get().to_be_bytes());'),
(F,'if payload.len() != TXN_COMMIT_PAYLOAD_SIZE {','if payload.len() < TXN_COMMIT_PAYLOAD_SIZE {'),
(F,'if commit_array.null_count() > 0 {','if commit_array.null_count() > 1 {'),
(F,'.any(|value| value.map(|v| v != first).unwrap_or(true))\n    {\n        return Err(WalError::Codec(\n            "delete','.any(|value| value.map(|v| v < first).unwrap_or(true))\n    {\n        return Err(WalError::Codec(\n            "delete'),
(F,'if reader.next().transpose().map_err(codec_err)?.is_some() {','if reader.next().transpose().map_err(codec_err).ok().flatten().is_some() && false {'),
# state
(T,'.retain(|existing| existing.seq != segment.seq);','.retain(|existing| existing.seq > segment.seq);'),
(T,'self.tag = Some(new_tag);','let _ = new_tag;'),
(T,'Some((_bytes, tag)) => (WalState::default(), Some(tag)),','Some((_bytes, _tag)) => (WalState::default(), None),'),
(T,'None => CasCondition::IfNotExists,','None => CasCondition::IfMatch(String::new()),'),
(T,'self.last_frame = last_frame;','self.last_frame = self.last_frame.max(last_frame.saturating_sub(1));'),
# mod
(D,'if commit_ts.len() != rows {','if commit_ts.len() < rows {'),
(D,'.filter(|(idx, _)| *idx != commit_idx)\n        .map(|(_, field)| field.clone())','.filter(|(idx, _)| *idx < commit_idx)\n        .map(|(_, field)| field.clone())'),
(D,'.all(|value| value.map(|v| v == commit_array.value(0)).unwrap_or(false))','.all(|value| value.map(|v| v >= commit_array.value(0)).unwrap_or(false))'),
(D,'self.next_payload_seq.fetch_add(1, Ordering::SeqCst)','self.next_payload_seq.load(Ordering::SeqCst)'),
(D,'self.inner.queue_depth.fetch_sub(1, Ordering::SeqCst);\n            return','return'),
(D,'bytes[8..16].copy_from_slice(&seq.to_be_bytes());','bytes[0..8].copy_from_slice(&seq.to_be_bytes());'),
(D,'bytes[8..16].copy_from_slice(&seq.to_be_bytes());','bytes[12..16].copy_from_slice(&(seq as u32).to_be_bytes());'),
(D,'Err(_) => Err(WalError::Storage("wal writer dropped ack".into())),','Err(_) => Ok(WalAck { first_seq: self.seq, last_seq: self.seq, bytes_flushed: 0, elapsed: std::time::Duration::ZERO }),'),
(D,'vec![commit_ts.get(); batch.num_rows()]','vec![commit_ts.get(); batch.num_rows().max(1)]'),
(D,'join_result.map_err(|err| WalError::Storage(err.to_string()))?','{ let _ = join_result.map_err(|err| WalError::Storage(err.to_string())); }'),
# manifest ext
(X,'&& bounds.last_seq >= live_floor','&& bounds.first_seq >= live_floor'),
(X,'Some(cutoff) => seq > cutoff,','Some(cutoff) => seq >= cutoff,'),
(X,'None => true,','None => live_frame_floor.is_none(),'),
(X,'.filter(|descriptor| descriptor.seq < floor.seq())','.filter(|descriptor| descriptor.seq <= floor.seq())'),
(X,'bounds.first_seq, bounds.last_seq)','bounds.last_seq, bounds.last_seq)'),
(X,'if tail.active.bytes > 0 {','if tail.active.bytes > 0 && !tail.completed.is_empty() {'),
]
