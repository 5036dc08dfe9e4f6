S='wal/storage.rs'; R='wal/replay.rs'; X='wal/manifest_ext.rs'; D='wal/mod.rs'
M=[
(S,'''    let mut remaining = data;
    let mut first = None;
    let mut last = None;
    while !remaining.is_empty() {
        let (header, rest) = FrameHeader::decode_from(remaining)?;
        if first.is_none() {
            first = Some(header.seq);
        }
        last = Some(header.seq);
        remaining = rest;
    }

    match (first, last) {
        (Some(first_seq), Some(last_seq)) => Ok(Some(SegmentFrameBounds {
            first_seq,
            last_seq,
        })),
        _ => Ok(None),
    }''','''    let (head, mut remaining) = FrameHeader::decode_from(data)?;
    let mut bounds = SegmentFrameBounds {
        first_seq: head.seq,
        last_seq: head.seq,
    };
    while !remaining.is_empty() {
        let (header, rest) = FrameHeader::decode_from(remaining)?;
        bounds.last_seq = header.seq;
        remaining = rest;
    }
    Ok(Some(bounds))'''),
(S,'''    let raw = filename?;
    let trimmed = raw.strip_prefix("wal-")?.strip_suffix(".tonwal")?;
    if trimmed.len() != 20 {
        return None;
    }
    trimmed.parse().ok()''','''    let digits = filename
        .and_then(|raw| raw.strip_prefix("wal-"))
        .and_then(|raw| raw.strip_suffix(".tonwal"))
        .filter(|digits| digits.len() == 20)?;
    digits.parse::<u64>().ok()'''),
(S,'''        let mut removed = 0usize;
        let segments = self.list_segments_with_hint(None).await?;
        for descriptor in segments {
            if descriptor.seq >= floor_seq {
                continue;
            }
            self.remove_segment(&descriptor.path).await?;
            removed += 1;
        }
        Ok(removed)''','''        let doomed: Vec<SegmentDescriptor> = self
            .list_segments_with_hint(None)
            .await?
            .into_iter()
            .take_while(|descriptor| descriptor.seq < floor_seq)
            .collect();
        for descriptor in &doomed {
            self.remove_segment(&descriptor.path).await?;
        }
        Ok(doomed.len())'''),
(S,'''        entries.sort_by_key(|entry| entry.seq);
        entries.dedup_by(|lhs, rhs| lhs.seq == rhs.seq && lhs.path == rhs.path);''','''        entries.sort_by(|lhs, rhs| lhs.seq.cmp(&rhs.seq));
        entries.dedup_by(|lhs, rhs| (lhs.seq, &lhs.path) == (rhs.seq, &rhs.path));'''),
(S,'''                    let mut id_bytes = [0u8; 8];
                    id_bytes.copy_from_slice(&payload[..8]);
                    Some(u64::from_le_bytes(id_bytes))''','''                    let id_bytes: [u8; 8] = payload[..8].try_into().expect("eight bytes");
                    Some(u64::from_le_bytes(id_bytes))'''),
(S,'''        let mut truncated_tail = truncated;
        if !truncated_tail {
            if let Some(offset) = last_valid_offset {
                if offset < file_len {
                    truncated_tail = true;
                }
            } else if file_len > 0 {
                truncated_tail = true;
            }
        }
''','''        let truncated_tail = truncated || last_valid_offset.unwrap_or(0) < file_len;
'''),
(R,'''            let mut offset: usize = 0;
            while offset < data.len() {
                let slice = &data[offset..];
                let header = match FrameHeader::decode_from(slice) {
                    Ok((header, _)) => header,''','''            let mut offset: usize = 0;
            let total = data.len();
            while offset != total {
                let header = match FrameHeader::decode_from(&data[offset..]) {
                    Ok((header, _)) => header,'''),
(R,'''                match decode_frame(header.frame_type, payload) {
                    Ok(event) => events.push(event),
                    Err(err) => return Err(err),
                }''','''                events.push(decode_frame(header.frame_type, payload)?);'''),
(R,'''            let segment_floor_first_frame = match floor_seq {
                Some(seq) if segment.seq == seq => floor_first_frame,
                _ => None,
            };''','''            let segment_floor_first_frame = floor
                .filter(|f| f.seq() == segment.seq)
                .map(|f| f.first_frame());'''),
(X,'''    if let Some(live_floor) = live_frame_floor
        && bounds.last_seq >= live_floor
    {
        return true;
    }

    match manifest_cutoff {
        Some(cutoff) => seq > cutoff,
        None => true,
    }''','''    let live = live_frame_floor.is_some_and(|floor| floor <= bounds.last_seq);
    live || manifest_cutoff.is_none_or(|cutoff| cutoff < seq)'''),
(X,'''        let removable = segments
            .into_iter()
            .filter(|descriptor| descriptor.seq < floor.seq())
            .count();
        Ok(removable)''','''        let mut removable = 0;
        for descriptor in &segments {
            if descriptor.seq < floor.seq() {
                removable += 1;
            }
        }
        Ok(removable)'''),
(S,'''        for descriptor in completed.iter().filter(|segment| segment.bytes > 0) {
            let scan = self.scan_tail(&descriptor.path).await?;''','''        for descriptor in completed.iter() {
            if descriptor.bytes == 0 {
                continue;
            }
            let scan = self.scan_tail(&descriptor.path).await?;'''),
]
