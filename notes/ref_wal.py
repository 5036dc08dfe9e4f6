W='wal/writer.rs'; R='wal/replay.rs'; S='wal/storage.rs'; F='wal/frame.rs'; T='wal/state.rs'; D='wal/mod.rs'
M=[
# replay
(R,"""            if let Some(seq) = floor_seq
                && segment.seq < seq
            {
                continue;
            }

            let segment_floor_first_frame = match floor_seq {
                Some(seq) if segment.seq == seq => floor_first_frame,
                _ => None,
            };
""","""            let segment_floor_first_frame = match floor_seq {
                Some(seq) => match segment.seq.cmp(&seq) {
                    std::cmp::Ordering::Less => continue,
                    std::cmp::Ordering::Equal => floor_first_frame,
                    std::cmp::Ordering::Greater => None,
                },
                None => None,
            };
"""),
(R,"""                match decode_frame(header.frame_type, payload) {
                    Ok(event) => events.push(event),
                    Err(err) => return Err(err),
                }
                offset = payload_end;""","""                let event = decode_frame(header.frame_type, payload)?;
                events.push(event);
                offset = payload_end;"""),
(R,"""                let payload = &data[payload_start..payload_end];
                if let Some(floor_frame) = segment_floor_first_frame
                    && header.seq < floor_frame
                {
                    offset = payload_end;
                    continue;
                }

                match decode_frame(header.frame_type, payload) {
                    Ok(event) => events.push(event),
                    Err(err) => return Err(err),
                }
                offset = payload_end;""","""                let below_floor = segment_floor_first_frame.is_some_and(|floor_frame| header.seq < floor_frame);
                if !below_floor {
                    events.push(decode_frame(header.frame_type, &data[payload_start..payload_end])?);
                }
                offset = payload_end;"""),
(R,"        for segment in segments {\n            if let Some(seq) = floor_seq\n                && segment.seq < seq\n            {\n                continue;\n            }\n","        for segment in segments\n            .into_iter()\n            .filter(|segment| floor_seq.is_none_or(|seq| segment.seq >= seq))\n        {\n"),
[(R,"        match self.cfg.recovery {\n            WalRecoveryMode::PointInTime","        self.check_mode()?;\n        match self.cfg.recovery {\n            WalRecoveryMode::PointInTime"),(R,"    #[cfg(all(test, feature = \"tokio\"))]\n    pub(crate) async fn scan(","    fn check_mode(&self) -> WalResult<()> {\n        Ok(())\n    }\n\n    #[cfg(all(test, feature = \"tokio\"))]\n    pub(crate) async fn scan(")],
# storage
(S,"""            if descriptor.seq >= floor_seq {
                continue;
            }
            self.remove_segment(&descriptor.path).await?;
            removed += 1;""","""            if descriptor.seq < floor_seq {
                self.remove_segment(&descriptor.path).await?;
                removed += 1;
            }"""),
(S,"""        let segments = self.list_segments_with_hint(None).await?;
        for descriptor in segments {
            if descriptor.seq >= floor_seq {
                continue;
            }
""","""        let segments = self.list_segments_with_hint(None).await?;
        let stale: Vec<_> = segments
            .into_iter()
            .filter(|descriptor| descriptor.seq < floor_seq)
            .collect();
        for descriptor in stale {
"""),
(S,"""        let mut truncated_tail = truncated;
        if !truncated_tail {
            if let Some(offset) = last_valid_offset {
                if offset < file_len {
                    truncated_tail = true;
                }
            } else if file_len > 0 {
                truncated_tail = true;
            }
        }
""","""        let truncated_tail = truncated || last_valid_offset.unwrap_or(0) < file_len;
"""),
(S,"""                if preserved.len() > safe_len {
                    preserved.truncate(safe_len);
                } else if preserved.len() < safe_len {
                    preserved.resize(safe_len, 0);
                }""","""                preserved.resize(safe_len, 0);"""),
(S,"""        let mut segments = self.list_segments_with_hint(wal_state_hint).await?;
        if segments.is_empty() {
            return Ok(None);
        }

        let mut active = segments.pop().expect("segments.pop matches prior is_empty");
        let completed = segments;""","""        let mut completed = self.list_segments_with_hint(wal_state_hint).await?;
        let Some(mut active) = completed.pop() else {
            return Ok(None);
        };"""),
(S,"""        for descriptor in completed.iter().filter(|segment| segment.bytes > 0) {
            let scan""","""        for descriptor in &completed {
            if descriptor.bytes == 0 {
                continue;
            }
            let scan"""),
(S,"""        let Some(expected) = wal_state_hint else {
            return false;
        };
        !entries.iter().any(|entry| entry.seq == expected)""","""        match wal_state_hint {
            Some(expected) => entries.iter().all(|entry| entry.seq != expected),
            None => false,
        }"""),
(S,"""            if !meta.path.prefix_matches(&self.root) {
                continue;
            }

            if let Some(descriptor) = self.describe_segment(meta.path).await? {
                entries.push(descriptor);
            }
        }

        Ok(entries)""","""            if meta.path.prefix_matches(&self.root)
                && let Some(descriptor) = self.describe_segment(meta.path).await?
            {
                entries.push(descriptor);
            }
        }

        Ok(entries)"""),
(S,"entries.sort_by_key(|entry| entry.seq);","entries.sort_by(|a, b| a.seq.cmp(&b.seq));"),
(S,"entries.sort_by_key(|entry| entry.seq);\n        entries.dedup_by(|lhs, rhs| lhs.seq == rhs.seq && lhs.path == rhs.path);","entries.sort_by_key(|entry| entry.seq);\n        entries.dedup_by(|rhs, lhs| lhs.path == rhs.path && lhs.seq == rhs.seq);"),
# writer
(W,"""        let mut bytes_written = 0usize;
        let first_frame_seq = self.next_frame_seq;
        for frame in frames.drain(..) {
            let frame_bytes = self.write_frame(frame).await?;
            bytes_written = bytes_written.saturating_add(frame_bytes);
        }
""","""        let first_frame_seq = self.next_frame_seq;
        let bytes_written = self.write_frames(frames.drain(..).collect()).await?;
"""),
(W,"            let frame_bytes = self.write_frame(frame).await?;\n            bytes_written = bytes_written.saturating_add(frame_bytes);","            bytes_written = bytes_written.saturating_add(self.write_frame(frame).await?);"),
(W,"""        self.segment_bytes = self.segment_bytes.saturating_add(bytes_written);
        self.bytes_since_sync = self.bytes_since_sync.saturating_add(bytes_written);
""","""        self.bytes_since_sync = self.bytes_since_sync.saturating_add(bytes_written);
        self.segment_bytes = self.segment_bytes.saturating_add(bytes_written);
"""),
(W,"""        let seq = self.next_frame_seq;
        self.next_frame_seq = self.next_frame_seq.saturating_add(1);
        let buf""","""        let seq = self.next_frame_seq;
        self.next_frame_seq = seq.saturating_add(1);
        let buf"""),
(W,"""        let mut acks = Vec::with_capacity(batch.len());
        let mut sync_performed = false;
        let mut timer_directive = TimerDirective::None;
""","""        let mut acks = Vec::new();
        acks.reserve(batch.len());
        let mut timer_directive = TimerDirective::None;
        let mut sync_performed = false;
"""),
(W,"sync_performed |= outcome.sync_performed;","sync_performed = sync_performed || outcome.sync_performed;"),
(W,"""            if self.segment_bytes > 0 {
                let rotation = self.rotate_active_segment().await?;
                if rotation.sync_performed {
                    sync_performed = true;
                }
                self.persist_state_if_dirty().await?;
            }
            self.rotation_deadline = None;""","""            if self.segment_bytes != 0 {
                let rotation = self.rotate_active_segment().await?;
                sync_performed |= rotation.sync_performed;
                self.persist_state_if_dirty().await?;
            }
            self.rotation_deadline = None;"""),
(W,"""                self.next_sync_deadline = match self.next_sync_deadline {
                    Some(existing) => Some(existing.min(deadline)),
                    None => Some(deadline),
                };""","""                self.next_sync_deadline = Some(
                    self.next_sync_deadline
                        .map_or(deadline, |existing| existing.min(deadline)),
                );"""),
(W,"""            if let Some(handle) = state.as_ref() {""","""            if let Some(handle) = &state {"""),
(W,"""            if let Some(seq) = handle.state().last_frame_seq {
                next_frame_seq = next_frame_seq.max(seq.saturating_add(1));
            }
            if let Some(seg_seq) = handle.state().last_segment_seq {
                next_segment_seq = next_segment_seq.max(seg_seq.saturating_add(1));
            }""","""            if let Some(seg_seq) = handle.state().last_segment_seq {
                next_segment_seq = next_segment_seq.max(seg_seq.saturating_add(1));
            }
            if let Some(seq) = handle.state().last_frame_seq
                && seq >= next_frame_seq
            {
                next_frame_seq = seq.saturating_add(1);
            }"""),
(W,"        let sync_performed = rotation.sync_performed || sync_outcome.performed;\n        let timer_directive = if rotation.performed {\n            TimerDirective::Cancel\n        } else {\n            sync_outcome.timer_directive\n        };","        let timer_directive = match rotation.performed {\n            true => TimerDirective::Cancel,\n            false => sync_outcome.timer_directive,\n        };\n        let sync_performed = sync_outcome.performed || rotation.sync_performed;"),
(W,"                                    for ((_, _, tx), ack) in batch.into_iter().zip(acks.into_iter()) {\n                                        let _ = tx.send(Ok(ack));\n                                    }","                                    let mut acks = acks.into_iter();\n                                    for (_, _, tx) in batch {\n                                        if let Some(ack) = acks.next() {\n                                            let _ = tx.send(Ok(ack));\n                                        }\n                                    }"),
]
# helper used by the extraction above
M[15]=[M[15],(W,"    async fn write_frame(&mut self, frame: Frame) -> WalResult<usize> {","    async fn write_frames(&mut self, frames: Vec<Frame>) -> WalResult<usize> {\n        let mut written = 0usize;\n        for frame in frames {\n            written = written.saturating_add(self.write_frame(frame).await?);\n        }\n        Ok(written)\n    }\n\n    async fn write_frame(&mut self, frame: Frame) -> WalResult<usize> {")]
