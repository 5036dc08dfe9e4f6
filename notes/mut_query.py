Q='query/scan.rs'; S='query/stream/mod.rs'; G='query/stream/merge.rs'
M=[
(Q,"if !(lower.inclusive && upper.inclusive) {","if !(lower.inclusive || upper.inclusive) {"),
(Q,"std::cmp::Ordering::Greater => {\n                    self.empty = true;","std::cmp::Ordering::Greater => {\n                    self.empty = false;"),
(Q,"inclusive: a.inclusive && b.inclusive,","inclusive: a.inclusive || b.inclusive,"),
(Q,"inclusive: a.inclusive && b.inclusive,","inclusive: a.inclusive || b.inclusive,",1),
(Q,"inclusive: a.inclusive || b.inclusive,","inclusive: a.inclusive && b.inclusive,"),
(Q,"inclusive: a.inclusive || b.inclusive,","inclusive: a.inclusive && b.inclusive,",1),
(Q,"(None, _) | (_, None) => None,","(None, x) | (x, None) => x.clone(),"),
(Q,"std::cmp::Ordering::Equal if !lower.inclusive => return false,","std::cmp::Ordering::Equal => return false,"),
(Q,"std::cmp::Ordering::Equal if !upper.inclusive => return false,","std::cmp::Ordering::Equal => return false,"),
(Q,"match max_key.cmp(&lower.key)","match min_key.cmp(&lower.key)"),
(Q,"if self.empty {\n            return other.clone();","if self.empty {\n            return self.clone();"),
(Q,"(Some(a), None) => Some(a.clone()),\n            (None, Some(b)) => Some(b.clone()),","(Some(_), None) => None,\n            (None, Some(b)) => Some(b.clone()),"),
(Q,"chars.truncate(idx + 1);",""),
(Q,"for idx in (0..chars.len()).rev()","for idx in 0..chars.len()"),
(Q,"while next <= u32::from(char::MAX)","while next < u32::from(char::MAX)"),
(Q,"if implied_total != total_rows","if implied_total > total_rows"),
(Q,"selection: self.selection.union(&other.selection)","selection: self.selection.intersection(&other.selection)"),
(Q,"self.offset = end;","self.offset = start;"),
(Q,"if self.is_full() {\n            None","if self.is_empty() {\n            None"),
(S,"StreamEntry::SstableTombstone(_) => None,","StreamEntry::SstableTombstone(_) => None,\n            #[allow(unreachable_patterns)] _ => None,"),
(S,"StreamEntry::MemTableTombstone(_)\n                | StreamEntry::SstableTombstone(_)\n        )","StreamEntry::MemTableTombstone(_)\n        )"),
(S,"left.partial_cmp(right.key()).unwrap_or(Ordering::Equal)","right.key().partial_cmp(left).unwrap_or(Ordering::Equal)"),
(S,"ScanStream::Immutable { .. } => SourcePriority::Immutable","ScanStream::Immutable { .. } => SourcePriority::Sstable"),
(S,"    Mutable,\n    /// Frozen memtable scan.\n    Immutable,","    Immutable,\n    /// Frozen memtable scan.\n    Mutable,"),
]
