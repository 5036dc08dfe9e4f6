# behaviour-preserving edits of the query and staging code (every check must stay quiet)
Q='query/scan.rs'; G='query/stream/merge.rs'; E='query/stream/mod.rs'; T='transaction/mod.rs'; U='query/mod.rs'
BINT="""        let lower = match (&self.lower, &other.lower) {
            (Some(a), Some(b)) => match a.key.cmp(&b.key) {
                std::cmp::Ordering::Greater => Some(a.clone()),
                std::cmp::Ordering::Less => Some(b.clone()),
                std::cmp::Ordering::Equal => Some(KeyBound {
                    key: a.key.clone(),
                    inclusive: a.inclusive && b.inclusive,
                }),
            },
            (Some(a), None) => Some(a.clone()),
            (None, Some(b)) => Some(b.clone()),
            (None, None) => None,
        };
        let upper = match (&self.upper, &other.upper) {
            (Some(a), Some(b)) => match a.key.cmp(&b.key) {
                std::cmp::Ordering::Greater => Some(b.clone()),
                std::cmp::Ordering::Less => Some(a.clone()),
                std::cmp::Ordering::Equal => Some(KeyBound {
                    key: a.key.clone(),
                    inclusive: a.inclusive && b.inclusive,
                }),
            },
            (Some(a), None) => Some(a.clone()),
            (None, Some(b)) => Some(b.clone()),
            (None, None) => None,
        };
"""
M=[
(Q,"""        if let (Some(lower), Some(upper)) = (&self.lower, &self.upper) {
            match lower.key.cmp(&upper.key) {
                std::cmp::Ordering::Greater => {
                    self.empty = true;
                }
                std::cmp::Ordering::Equal => {
                    if !(lower.inclusive && upper.inclusive) {
                        self.empty = true;
                    }
                }
                std::cmp::Ordering::Less => {}
            }
        }""","""        let (Some(lower), Some(upper)) = (self.lower.as_ref(), self.upper.as_ref()) else {
            return;
        };
        let open = !lower.inclusive || !upper.inclusive;
        if lower.key > upper.key || (open && lower.key == upper.key) {
            self.empty = true;
        }"""),
(Q,BINT,"""        fn tighter(
            a: &Option<KeyBound>,
            b: &Option<KeyBound>,
            wins: std::cmp::Ordering,
        ) -> Option<KeyBound> {
            let (x, y) = match (a, b) {
                (Some(x), Some(y)) => (x, y),
                (x, y) => return x.as_ref().or(y.as_ref()).cloned(),
            };
            let ord = x.key.cmp(&y.key);
            if ord == std::cmp::Ordering::Equal {
                return Some(KeyBound {
                    key: x.key.clone(),
                    inclusive: x.inclusive && y.inclusive,
                });
            }
            Some(if ord == wins { x.clone() } else { y.clone() })
        }
        let lower = tighter(&self.lower, &other.lower, std::cmp::Ordering::Greater);
        let upper = tighter(&self.upper, &other.upper, std::cmp::Ordering::Less);
"""),
(Q,"""        if self.empty {
            return other.clone();
        }
        if other.empty {
            return self.clone();
        }
        let lower""","""        match (self.empty, other.empty) {
            (true, _) => return other.clone(),
            (false, true) => return self.clone(),
            (false, false) => {}
        }
        let lower"""),
(Q,"""        if let Some(lower) = &self.lower {
            match max_key.cmp(&lower.key) {
                std::cmp::Ordering::Less => return false,
                std::cmp::Ordering::Equal if !lower.inclusive => return false,
                _ => {}
            }
        }
        if let Some(upper) = &self.upper {
            match min_key.cmp(&upper.key) {
                std::cmp::Ordering::Greater => return false,
                std::cmp::Ordering::Equal if !upper.inclusive => return false,
                _ => {}
            }
        }
        true""","""        let above_lower = self.lower.as_ref().is_none_or(|lower| {
            if lower.inclusive {
                *max_key >= lower.key
            } else {
                *max_key > lower.key
            }
        });
        let below_upper = match &self.upper {
            None => true,
            Some(upper) if upper.inclusive => min_key <= &upper.key,
            Some(upper) => min_key < &upper.key,
        };
        above_lower && below_upper"""),
(Q,"""        let mut bounds = Self {
            lower: Some(KeyBound {
                key: lower.0,
                inclusive: lower.1,
            }),
            upper: Some(KeyBound {
                key: upper.0,
                inclusive: upper.1,
            }),
            empty: false,
        };
        bounds.normalize_empty();
        bounds""","""        let (low_key, low_inclusive) = lower;
        let mut bounds = Self::with_upper(upper.0, upper.1);
        bounds.lower = Self::with_lower(low_key, low_inclusive).lower;
        bounds.normalize_empty();
        bounds"""),
(Q,"""        if total_rows == 0 {
            return Self::from_ranges(0, std::iter::empty());
        }
        Self::from_ranges(total_rows, std::iter::once(0..total_rows))""","""        let range = (total_rows > 0).then_some(0..total_rows);
        Self::from_ranges(total_rows, range.into_iter())"""),
(Q,"""        let implied_total: usize = selection.iter().map(|sel| sel.row_count).sum();
        if implied_total != total_rows {""","""        let mut implied_total = 0usize;
        for selector in selection.iter() {
            implied_total += selector.row_count;
        }
        if total_rows != implied_total {"""),
(Q,"""        self.len() == self.total_rows
""","""        self.total_rows == self.selection.row_count()
"""),
(Q,"""            if let Some(range) = self.current.as_mut() {
                if let Some(next) = range.next() {
                    return Some(next);
                }
                self.current = None;
            }
            let selector = self.selectors.next()?;
            if selector.row_count == 0 {
                continue;
            }
            if selector.skip {
                self.offset = self.offset.saturating_add(selector.row_count);
                continue;
            }
            let start = self.offset;
            let end = self.offset.saturating_add(selector.row_count);
            self.offset = end;
            self.current = Some(start..end);""","""            if let Some(next) = self.current.as_mut().and_then(|range| range.next()) {
                return Some(next);
            }
            self.current = None;
            let selector = self.selectors.next()?;
            let start = self.offset;
            self.offset = start.saturating_add(selector.row_count);
            if !selector.skip && selector.row_count > 0 {
                self.current = Some(start..self.offset);
            }"""),
(Q,"""        if self.is_full() {
            None
        } else {
            Some(self.selection.clone())
        }""","""        (!self.is_full()).then(|| self.selection.clone())"""),
(Q,"""    for idx in (0..chars.len()).rev() {
        if let Some(next) = next_scalar_char(chars[idx]) {
            chars[idx] = next;
            chars.truncate(idx + 1);
            return Some(chars.into_iter().collect());
        }
    }
    None""","""    while let Some(last) = chars.pop() {
        if let Some(next) = next_scalar_char(last) {
            chars.push(next);
            return Some(chars.iter().collect());
        }
    }
    None"""),
(Q,"""    let mut next = u32::from(current).checked_add(1)?;
    while next <= u32::from(char::MAX) {
        if let Some(ch) = char::from_u32(next) {
            return Some(ch);
        }
        next += 1;
    }
    None""","""    let first = u32::from(current) + 1;
    (first..=u32::from(char::MAX)).find_map(char::from_u32)"""),
(G,"""        for (offset, stream) in streams.iter_mut().enumerate() {
            let priority = stream.priority();
            stream_priority.push(priority);
            if let Some(entry) = stream.next().await {
                peeked.push(Reverse(HeapEntry::new(offset, priority, entry?, order)));
            }
        }""","""        for offset in 0..streams.len() {
            let stream = &mut streams[offset];
            let priority = stream.priority();
            stream_priority.push(priority);
            let Some(entry) = stream.next().await.transpose()? else {
                continue;
            };
            peeked.push(Reverse(HeapEntry::new(offset, priority, entry, order)));
        }"""),
(G,"""            if let Some(prev) = this.buf.replace(entry) {
                if prev.is_tombstone() {
                    continue;
                }
                decrement_limit(this.limit);
                return Poll::Ready(Some(Ok(prev)));
            }""","""            match this.buf.replace(entry) {
                Some(prev) if !prev.is_tombstone() => {
                    decrement_limit(this.limit);
                    return Poll::Ready(Some(Ok(prev)));
                }
                _ => {}
            }"""),
(G,"""        loop {
            match this.buf.take() {
                Some(entry) if entry.is_tombstone() => continue,
                Some(entry) => {
                    decrement_limit(this.limit);
                    break Poll::Ready(Some(Ok(entry)));
                }
                None => break Poll::Ready(None),
            }
        }""","""        let last = this.buf.take().filter(|entry| !entry.is_tombstone());
        if last.is_some() {
            decrement_limit(this.limit);
        }
        Poll::Ready(last.map(Ok))"""),
(G,"""        let ordering = self.order.unwrap_or(Order::Asc);
        let key_cmp = match ordering {
            Order::Asc => self.entry.key_cmp(&other.entry),
        };
        // Timestamps are always ordered descending (latest first) regardless of key order.
        let ts_cmp = other.entry.ts().cmp(&self.entry.ts());
        key_cmp
            .then(ts_cmp)
            .then(self.source_priority.cmp(&other.source_priority))
            .then(self.stream_idx.cmp(&other.stream_idx))""","""        let by_key = match self.order.unwrap_or_default() {
            Order::Asc => self.entry.key_cmp(&other.entry),
        };
        if by_key != Ordering::Equal {
            return by_key;
        }
        match self.entry.ts().cmp(&other.entry.ts()).reverse() {
            Ordering::Equal => (self.source_priority, self.stream_idx)
                .cmp(&(other.source_priority, other.stream_idx)),
            by_ts => by_ts,
        }"""),
(G,"""    if let Some(value) = limit {
        *value = value.saturating_sub(1);
    }""","""    *limit = limit.map(|value| if value == 0 { 0 } else { value - 1 });"""),
(G,"""        if this.limit.as_ref().is_some_and(|limit| *limit == 0) {
            return Poll::Ready(None);
        }""","""        if let Some(0) = this.limit {
            return Poll::Ready(None);
        }"""),
(E,"""        if let (Some(left), Some(right)) = (key_row(self), key_row(other)) {
            return left.cmp(right);
        }
""","""        match (key_row(self), key_row(other)) {
            (Some(left), Some(right)) => return left.cmp(right),
            _ => {}
        }
"""),
(E,"""            StreamEntry::Txn((key_ts, _)) => key_ts.timestamp(),
            StreamEntry::TxnTombstone(key_ts) => key_ts.timestamp(),
            StreamEntry::MemTable((key_ts, _)) => key_ts.timestamp(),
            StreamEntry::MemTableTombstone(key_ts) => key_ts.timestamp(),""","""            StreamEntry::Txn((key_ts, _)) | StreamEntry::MemTable((key_ts, _)) => {
                key_ts.timestamp()
            }
            StreamEntry::TxnTombstone(key_ts) | StreamEntry::MemTableTombstone(key_ts) => {
                key_ts.timestamp()
            }"""),
(E,"""        matches!(
            self,
            StreamEntry::TxnTombstone(_)
                | StreamEntry::MemTableTombstone(_)
                | StreamEntry::SstableTombstone(_)
        )""","""        !matches!(
            self,
            StreamEntry::Txn(_) | StreamEntry::MemTable(_) | StreamEntry::Sstable(_)
        )"""),
(E,"""        self.key_cmp(other) == std::cmp::Ordering::Equal
""","""        self.key_cmp(other).is_eq()
"""),
]
M+=[
(T,"""        let mut upserts = Vec::with_capacity(self.entries.len());
        let mut deletes = Vec::new();
        for (key, mutation) in self.entries {
            match mutation {
                DynMutation::Upsert(row) => upserts.push(row),
                DynMutation::Delete(()) => deletes.push(key),
            }
        }
        (upserts, deletes)""","""        self.entries.into_iter().fold(
            (Vec::new(), Vec::new()),
            |(mut upserts, mut deletes), (key, mutation)| {
                if let DynMutation::Upsert(row) = mutation {
                    upserts.push(row);
                } else {
                    deletes.push(key);
                }
                (upserts, deletes)
            },
        )"""),
(T,"""        let mut upserts = Vec::with_capacity(self.entries.len());
        let mut deletes = Vec::new();
        for (key, mutation) in self.entries {
            match mutation {
                DynMutation::Upsert(row) => upserts.push(row),
                DynMutation::Delete(()) => deletes.push(key),
            }
        }
        (upserts, deletes)""","""        let mut deletes = Vec::new();
        let mut upserts = Vec::new();
        let mut entries = self.entries;
        while let Some((key, mutation)) = entries.pop_first() {
            match mutation {
                DynMutation::Delete(_) => deletes.push(key),
                DynMutation::Upsert(row) => upserts.push(row),
            }
        }
        (upserts, deletes)"""),
(T,"""                let projection = if target.as_ref() == schema.as_ref() {
                    None
                } else {
                    Some(DynProjection::from_schema(
                        schema.as_ref(),
                        target.as_ref(),
                    )?)
                };
                (target.fields().clone(), projection)""","""                let mut projection = None;
                if target.as_ref() != schema.as_ref() {
                    let built = DynProjection::from_schema(schema.as_ref(), target.as_ref())?;
                    projection = Some(built);
                }
                (target.fields().clone(), projection)"""),
(T,"""        if let Some((key, mutation)) = self.iter.next() {
            match mutation {
                DynMutation::Upsert(row) => match self.materialize_row(row) {
                    Ok(owned_row) => {
                        self.rows.push(owned_row);
                        let raw_row = match self.rows.last() {
                            Some(stored) => match stored.as_raw() {
                                Ok(raw) => raw,
                                Err(err) => return Some(Err(err)),
                            },
                            None => {
                                return Some(Err(DynViewError::Invalid {
                                    column: 0,
                                    path: "transaction_scan".to_string(),
                                    message: "staged row buffer unexpectedly empty".to_string(),
                                }));
                            }
                        };
                        let view = KeyTsViewRaw::from_owned(key, self.visible_ts);
                        return Some(Ok(TransactionScanEntry::Row((view, raw_row))));
                    }
                    Err(err) => return Some(Err(err)),
                },
                DynMutation::Delete(_) => {
                    let view = KeyTsViewRaw::from_owned(key, self.visible_ts);
                    return Some(Ok(TransactionScanEntry::Tombstone(view)));
                }
            }
        }
        None""","""        let (key, mutation) = self.iter.next()?;
        let view = KeyTsViewRaw::from_owned(key, self.visible_ts);
        let row = match mutation {
            DynMutation::Delete(_) => return Some(Ok(TransactionScanEntry::Tombstone(view))),
            DynMutation::Upsert(row) => row,
        };
        let owned = match self.materialize_row(row) {
            Ok(owned) => owned,
            Err(err) => return Some(Err(err)),
        };
        self.rows.push(owned);
        let stored = &self.rows[self.rows.len() - 1];
        Some(
            stored
                .as_raw()
                .map(|raw| TransactionScanEntry::Row((view, raw))),
        )"""),
(T,"""        for row_idx in 0..batch.num_rows() {
            let row = row_from_batch(batch, row_idx).map_err(TransactionError::KeyExtract)?;
            self.upsert(row)?;
        }
        Ok(())""","""        let rows = batch.num_rows();
        let mut row_idx = 0;
        while row_idx < rows {
            let row = row_from_batch(batch, row_idx).map_err(TransactionError::KeyExtract)?;
            self.upsert(row)?;
            row_idx += 1;
        }
        Ok(())"""),
(T,"""        if let Some(mutation) = self.staged.get(key) {
            return Ok(match mutation {
                DynMutation::Upsert(row) => Some(clone_dyn_row(row)),
                DynMutation::Delete(_) => None,
            });
        }
""","""        match self.staged.get(key) {
            Some(DynMutation::Upsert(row)) => return Ok(Some(clone_dyn_row(row))),
            Some(DynMutation::Delete(_)) => return Ok(None),
            None => {}
        }
"""),
(T,"""        for (component_idx, cell) in components.iter().enumerate() {
            if cell.is_none() {
                return Err(TransactionError::KeyComponentNull {
                    index: component_idx,
                });
            }
        }
        Ok(())""","""        match components.iter().position(Option::is_none) {
            Some(index) => Err(TransactionError::KeyComponentNull { index }),
            None => Ok(()),
        }"""),
(T,"""            match out.entry(key.to_owned()) {
                Entry::Vacant(slot) => {
                    slot.insert((ts, row));
                }
                Entry::Occupied(mut slot) => {
                    if ts >= slot.get().0 {
                        slot.insert((ts, row));
                    }
                }
            }""","""            let key = key.to_owned();
            let newer = out.get(&key).is_none_or(|(existing, _)| *existing <= ts);
            if newer {
                out.insert(key, (ts, row));
            }"""),
(T,"""        let mut row = Vec::with_capacity(expected_components + 1);
        for (idx, cell) in components.iter().enumerate() {
            let value = cell
                .as_ref()
                .ok_or(TransactionCommitError::DeleteComponentNull { index: idx })?;
            row.push(Some(value.clone()));
        }
        row.push(Some(DynCell::U64(commit_ts.get())));""","""        if let Some(index) = components.iter().position(|cell| cell.is_none()) {
            return Err(TransactionCommitError::DeleteComponentNull { index });
        }
        let mut row = components.to_vec();
        row.push(Some(DynCell::U64(commit_ts.get())));"""),
(T,"""    for row in rows {
        builders.append_option_row(Some(row))?;
    }
    builders.try_finish_into_batch()""","""    let mut pending = rows.into_iter();
    while let Some(row) = pending.next() {
        builders.append_option_row(Some(row))?;
    }
    builders.try_finish_into_batch()"""),
(T,"""        self.observe""","""        self.observe"""),
]
M=[m for m in M if m[1]!=m[2]]
