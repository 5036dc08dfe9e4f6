F='wal/frame.rs'
M=[
(F,"""        let mut magic_bytes = [0u8; 4];
        magic_bytes.copy_from_slice(&header_bytes[0..4]);
        let magic = u32::from_le_bytes(magic_bytes);""","""        let magic = u32::from_le_bytes(header_bytes[0..4].try_into().expect("four bytes"));"""),
(F,"""        let mut seq_bytes = [0u8; 8];
        seq_bytes.copy_from_slice(&header_bytes[8..16]);
        let seq = u64::from_le_bytes(seq_bytes);""","""        let seq = match header_bytes[8..].first_chunk::<8>() {
            Some(b) => u64::from_le_bytes(*b),
            None => return Err(WalError::Corrupt("frame header truncated")),
        };"""),
(F,"""        if bytes.len() < FRAME_HEADER_SIZE {
            return Err(WalError::Corrupt("frame header truncated"));
        }

        let (header_bytes, rest) = bytes.split_at(FRAME_HEADER_SIZE);""","""        let Some((header_bytes, rest)) = bytes.split_at_checked(FRAME_HEADER_SIZE) else {
            return Err(WalError::Corrupt("frame header truncated"));
        };"""),
(F,"""        let payload_len = len as usize;
        if rest.len() < payload_len {
            return Err(WalError::Corrupt("frame payload truncated"));
        }

        let (payload, remaining) = rest.split_at(payload_len);""","""        let payload_len = len as usize;
        let payload = rest
            .get(..payload_len)
            .ok_or(WalError::Corrupt("frame payload truncated"))?;
        let remaining = &rest[payload_len..];"""),
(F,"""        let mut version_bytes = [0u8; 2];
        version_bytes.copy_from_slice(&header_bytes[4..6]);
        let version = u16::from_le_bytes(version_bytes);""","""        let version = u16::from(header_bytes[4]) | (u16::from(header_bytes[5]) << 8);"""),
(F,"""        let mut len_bytes = [0u8; 4];
        len_bytes.copy_from_slice(&header_bytes[16..20]);
        let len = u32::from_le_bytes(len_bytes);""","""        let len = header_bytes[16..20]
            .iter()
            .rev()
            .fold(0u32, |acc, b| (acc << 8) | u32::from(*b));"""),
(F,"""        buf.extend_from_slice(&self.magic.to_le_bytes());
        buf.extend_from_slice(&self.version.to_le_bytes());""","""        let mut head = [0u8; 6];
        head[..4].copy_from_slice(&self.magic.to_le_bytes());
        head[4..].copy_from_slice(&self.version.to_le_bytes());
        buf.extend_from_slice(&head);"""),
(F,"""        buf.extend_from_slice(&self.seq.to_le_bytes());
        buf.extend_from_slice(&self.len.to_le_bytes());""","""        buf.extend(self.seq.to_le_bytes().iter().copied());
        for b in self.len.to_le_bytes() {
            buf.push(b);
        }"""),
(F,"""        let mut ipc_buf = Vec::new();
    {
        let mut writer =
            StreamWriter::try_new(&mut ipc_buf, batch.schema().as_ref()).map_err(codec_err)?;
        writer.write(&batch).map_err(codec_err)?;
        writer.finish().map_err(codec_err)?;
    }

    payload.extend_from_slice(&ipc_buf);""".replace("        let mut ipc_buf","    let mut ipc_buf"),"""    let schema = batch.schema();
    let mut writer = StreamWriter::try_new(payload, schema.as_ref()).map_err(codec_err)?;
    writer.write(&batch).map_err(codec_err)?;
    let payload = writer.into_inner().map_err(codec_err)?;"""),
(F,"""    payload.extend_from_slice(&ipc_buf);
    Ok(payload)""","""    let mut ipc_buf = ipc_buf;
    payload.append(&mut ipc_buf);
    Ok(payload)"""),
(F,"""    {
        let mut writer =
            StreamWriter::try_new(&mut ipc_buf, batch.schema().as_ref()).map_err(codec_err)?;
        writer.write(&batch).map_err(codec_err)?;
        writer.finish().map_err(codec_err)?;
    }
""","""    (|| -> Result<(), arrow_schema::ArrowError> {
        let mut writer = StreamWriter::try_new(&mut ipc_buf, &batch.schema())?;
        writer.write(&batch)?;
        writer.finish()
    })()
    .map_err(codec_err)?;
"""),
(F,"""    let batch = reader
        .next()
        .transpose()
        .map_err(codec_err)?
        .ok_or_else(|| WalError::Codec("txn append payload missing record batch".to_string()))?;
    if reader.next().transpose().map_err(codec_err)?.is_some() {
        return Err(WalError::Codec(
            "txn append payload contained multiple record batches".to_string(),
        ));
    }
""","""    let batch = match reader.next() {
        Some(Ok(batch)) => batch,
        Some(Err(err)) => return Err(codec_err(err)),
        None => {
            return Err(WalError::Codec(
                "txn append payload missing record batch".to_string(),
            ));
        }
    };
    match reader.next() {
        None => {}
        Some(Err(err)) => return Err(codec_err(err)),
        Some(Ok(_)) => {
            return Err(WalError::Codec(
                "txn append payload contained multiple record batches".to_string(),
            ));
        }
    }
"""),
(F,"""    let mut reader = StreamReader::try_new(Cursor::new(bytes), None).map_err(codec_err)?;
    let batch = reader
        .next()
        .transpose()
        .map_err(codec_err)?
        .ok_or_else(|| WalError::Codec("txn append payload missing record batch".to_string()))?;
    if reader.next().transpose().map_err(codec_err)?.is_some() {""","""    let reader = StreamReader::try_new(Cursor::new(bytes), None).map_err(codec_err)?;
    let mut batches = reader.collect::<Result<Vec<_>, _>>().map_err(codec_err)?;
    let extra = batches.len() > 1;
    if batches.is_empty() {
        return Err(WalError::Codec("txn append payload missing record batch".to_string()));
    }
    let batch = batches.swap_remove(0);
    if extra {"""),
(F,"""    let mut id_bytes = [0u8; 8];
    id_bytes.copy_from_slice(payload);
    let provisional_id = u64::from_le_bytes(id_bytes);
    Ok(WalEvent::TxnBegin { provisional_id })""","""    let provisional_id = <[u8; 8]>::try_from(payload)
        .map(u64::from_le_bytes)
        .map_err(|_| WalError::Corrupt("txn begin payload size mismatch"))?;
    Ok(WalEvent::TxnBegin { provisional_id })"""),
(F,"""    if payload.len() != TXN_COMMIT_PAYLOAD_SIZE {
        return Err(WalError::Corrupt("txn commit payload size mismatch"));
    }
    let mut id_bytes = [0u8; 8];
    id_bytes.copy_from_slice(&payload[0..8]);
    let mut ts_bytes = [0u8; 8];
    ts_bytes.copy_from_slice(&payload[8..16]);
    let provisional_id = u64::from_le_bytes(id_bytes);
    let commit_ts = u64::from_le_bytes(ts_bytes);""","""    let words: Vec<u64> = payload
        .chunks_exact(8)
        .map(|c| {
            let mut w = [0u8; 8];
            w.copy_from_slice(c);
            u64::from_le_bytes(w)
        })
        .collect();
    if payload.len() % 8 != 0 {
        return Err(WalError::Corrupt("txn commit payload size mismatch"));
    }
    let [provisional_id, commit_ts] = words[..] else {
        return Err(WalError::Corrupt("txn commit payload size mismatch"));
    };"""),
(F,"""    let mut payload = Vec::with_capacity(TXN_COMMIT_PAYLOAD_SIZE);
    payload.extend_from_slice(&provisional_id.to_le_bytes());
    payload.extend_from_slice(&commit_ts.get().to_le_bytes());
    payload""","""    [provisional_id.to_le_bytes(), commit_ts.get().to_le_bytes()].concat()"""),
(F,"""    let mode = payload[8];
    let row_mode = DynRowMode::from_u8(payload[9])?;
    let payload_bytes = &payload[TXN_APPEND_PREFIX_SIZE..];
""","""    let (prefix, payload_bytes) = payload.split_at(TXN_APPEND_PREFIX_SIZE);
    let &[_, _, _, _, _, _, _, _, mode, row, ..] = prefix else {
        return Err(WalError::Corrupt("txn append payload truncated"));
    };
    let row_mode = DynRowMode::from_u8(row)?;
"""),
(F,"""    payload.extend_from_slice(&[0u8; TXN_APPEND_RESERVED_BYTES]);""","""    payload.resize(TXN_APPEND_PREFIX_SIZE, 0);"""),
(F,"""        let mut buf = Vec::with_capacity(FRAME_HEADER_SIZE + self.payload.len());
        header.encode_into(&mut buf);
        buf.extend_from_slice(&self.payload);
        buf""","""        let mut buf = Vec::new();
        header.encode_into(&mut buf);
        let mut payload = self.payload;
        buf.append(&mut payload);
        buf"""),
(F,"""    let first = commit_array.value(0);
    if commit_array
        .iter()
        .any(|value| value.map(|v| v != first).unwrap_or(true))
    {""","""    let first = commit_array.value(0);
    if commit_array.values().iter().any(|v| *v != first) {"""),
(F,"""        let crc32c_actual = crc32c(payload);
        if crc32c_actual != crc32c_expected {""","""        let crc32c_actual = crc32c::crc32c_append(0, payload);
        if crc32c_actual != crc32c_expected {"""),
]
