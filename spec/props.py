"""Property catalogue: written out to properties.jsonl and MANIFEST.json by gen.py."""
P = []
def prop(id, title, statement, over, qtext, why, files, mech, tech, na=None, note=None, **anch):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), qtext=qtext, why=why, files=files.split(), mech=mech, tech=tech, na=na, note=note, anch=anch))

prop('W01', 'Acknowledged log appends are durable under the sync policy',
  'When a log submission resolves successfully, every frame of it has been written to the active segment, and under the always-sync policy has been synced to the file that received it before the acknowledgement is sent; interval policies sync once their byte or time threshold is reached. A submission whose write, flush, sync, rotation or state update failed never resolves successfully. A segment is synced before it is closed or left behind by a rotation or shutdown.',
  'crash_points fault_sequences configurations', 'every sync policy, every failing I/O step, every batch of submissions',
  'The tests use in-memory or healthy local files, so no write or sync ever fails and no crash follows an acknowledgement.',
  'src/wal/writer.rs src/wal/mod.rs', [('append and sync before acknowledging', 'src/wal/writer.rs WriterContext::handle_enqueue, sync_if_needed'), ('acknowledgement fan-out', 'src/wal/writer.rs run_writer_loop')],
  'path-sensitive effect (typestate) analysis over MIR')
prop('W02', 'Log frame sequence numbers strictly increase and are never reused',
  'Within one log, every frame ever written carries a sequence number strictly greater than all frames written before it, across rotations and restarts. The acknowledgement of a submission reports exactly the range of sequence numbers its frames received. After a restart the writer continues above both the frames found on disk and the recorded state.',
  'histories crash_points', 'every history of submissions, rotations and restarts',
  'Tests write a handful of frames in one process lifetime; reuse shows only after particular crash and restart histories.',
  'src/wal/writer.rs src/wal/storage.rs', [('sequence allocation', 'src/wal/writer.rs WriterContext::handle_enqueue'), ('continuation after restart', 'src/wal/writer.rs WriterContext::new; src/wal/storage.rs tail_metadata_with_hint')],
  'abstract interpretation of MIR with symbolic terms')
prop('W03', 'Log frames round-trip and damaged frames are rejected',
  'Decoding the bytes of an encoded frame yields the same frame type, sequence number, length and payload, for every frame. A frame whose magic, version, type, length or checksum does not match its bytes is rejected with an error, and the checksum covers the whole payload. A frame cut short at any byte is reported as truncated, never decoded.',
  'inputs crash_points', 'every frame and every corruption or truncation of its bytes',
  'Tests corrupt one or two bytes of one frame; the property is over all byte strings.',
  'src/wal/frame.rs', [('frame header codec', 'src/wal/frame.rs FrameHeader::encode/decode_from, Frame::into_bytes')],
  'encoder/decoder layout agreement by abstract interpretation of MIR')
prop('W04', 'Logged commands are recovered unchanged',
  'Each transaction command handed to the log (begin, append of rows, append of deletes, commit, abort) decodes to the event of the same kind with the same transaction id, the same rows or keys, the same commit timestamp for every row, and the same commit timestamp on the commit marker. Payloads that do not parse completely are rejected. Rows whose commit timestamps are missing, null or differ within a batch are rejected rather than logged or recovered with a wrong timestamp.',
  'inputs', 'every command and payload',
  'Tests round-trip a few fixed batches; field mix-ups need particular values to show.',
  'src/wal/frame.rs src/wal/mod.rs', [('command codec', 'src/wal/frame.rs encode_command, decode_frame'), ('commit column', 'src/wal/mod.rs append_commit_column, split_commit_column'), ('submission', 'src/wal/mod.rs WalHandle::txn_*')],
  'encoder/decoder layout agreement and value-flow analysis of MIR')
prop('W05', 'Replay yields every complete frame at or above the floor, in order',
  'Replaying a log returns, in log order, exactly the events of all complete frames in segments at or above the given floor, omitting within the floor segment only frames numbered below the floor. A torn final frame ends the replay successfully with everything before it; any other damage, and any listing, open or read failure, makes it fail. On restart the active segment is trimmed to its complete frames and nothing else is changed.',
  'crash_points inputs histories', 'every segment content, truncation point, corruption and floor',
  'Tests replay one or two small segments; the number of segments, frames and cut points is unbounded.',
  'src/wal/replay.rs src/wal/storage.rs', [('replay scan', 'src/wal/replay.rs Replayer::scan_with_floor'), ('segment listing and tail repair', 'src/wal/storage.rs list_segments_with_hint, tail_metadata_with_hint, scan_tail')],
  'trace-based path-sensitive abstract interpretation of MIR')
prop('W06', 'Log pruning and retention never drop segments that are still needed',
  'Pruning to a floor removes exactly the segments numbered below it, and a dry run removes nothing. A segment containing any frame at or above the live frame floor, or numbered above the recorded floor, stays referenced. Working out what is still needed never writes to, truncates or removes a segment (the writer may be appending to it), and ends at the last complete frame. Size-based retention removes only completed segments, oldest first, never the active one, and only while the configured budget is exceeded.',
  'histories configurations', 'every set of segments, floors and budgets',
  'Tests use three tiny segments and one floor; off-by-one boundaries need particular floors.',
  'src/wal/storage.rs src/wal/manifest_ext.rs src/wal/writer.rs', [('prune', 'src/wal/storage.rs prune_below; src/wal/manifest_ext.rs prune_wal_segments, segment_required'), ('retention', 'src/wal/writer.rs enforce_retention_limit')],
  'decision-table extraction by path-sensitive abstract interpretation of MIR')
prop('W07', 'Rotation keeps every segment, its identity and its frame range',
  'Rotating seals the active segment under its own number, file identity and first/last frame, opens a fresh segment with the next number, and loses or overwrites no existing segment. The log snapshot lists all sealed segments and the active one with ranges that cover every frame they hold. On restart the writer resumes the highest segment and recovers the same segment list.',
  'histories crash_points configurations', 'every history of appends, rotations and restarts',
  'Tests rotate a few times; wrong ranges matter only for later pruning decisions.',
  'src/wal/writer.rs src/wal/storage.rs src/wal/state.rs', [('rotation', 'src/wal/writer.rs rotate_active_segment, maybe_rotate, handle_rotation_request'), ('bounds tracking', 'src/wal/writer.rs touch_active_segment, snapshot')],
  'abstract interpretation of MIR with symbolic terms')
prop('W08', 'Persisted log state is replaced only by compare-and-swap',
  'The persisted log state is written only on condition that it has not changed since it was last loaded or written by this writer, and a first write only if none exists; a failed conditional write is reported and the remembered version is kept. Loading returns exactly the stored state and its version. Recorded frame, segment, commit-timestamp and segment-list fields each reflect the last value reported for them.',
  'schedules fault_sequences histories', 'every interleaving of writers and every failing store operation',
  'Tests have a single writer and a store that never fails.',
  'src/wal/state.rs src/wal/writer.rs', [('conditional put', 'src/wal/state.rs FsWalStateStore::put, WalStateHandle::persist'), ('progress tracking', 'src/wal/writer.rs record_frame_progress, persist_state_if_dirty')],
  'value-flow analysis of MIR')
prop('W09', 'Log failures reach every waiter',
  'If a log write, sync, rotation or the writer task itself fails, every submission in the affected batch and every later caller receives an error; nobody waits forever on a silent success. Shutdown waits for the writer and reports its failure.',
  'fault_sequences schedules', 'every failing step and every number of queued submissions',
  'No test injects a failing device or stops the writer with submissions pending.',
  'src/wal/writer.rs src/wal/mod.rs', [('acknowledgement fan-out', 'src/wal/writer.rs run_writer_loop'), ('tickets and shutdown', 'src/wal/mod.rs WalTicket::durable, WalHandle::shutdown')],
  'path-sensitive effect (typestate) analysis over MIR')
prop('W10', 'Transaction ids still present in the log are never handed out again',
  'After opening an existing log, the first transaction id handed out is above every transaction id found in any complete frame of any remaining segment, whatever the order in which transactions began, committed or aborted. Ids handed out afterwards are all distinct.',
  'histories crash_points', 'every log content left by a crash, including unfinished transactions and rotations',
  'Reuse only matters after a crash with an unfinished transaction followed by another crash; no test builds that history.',
  'src/wal/storage.rs src/wal/mod.rs', [('tail scan', 'src/wal/storage.rs scan_tail, tail_metadata_with_hint'), ('id allocation', 'src/wal/mod.rs WalHandle::next_provisional_id')],
  'path-sensitive abstract interpretation of MIR')

# ---------------------------------------------------------------- keys and versions
prop('K01', 'Keys have one total order, with equality and hash that agree with it',
  'For every pair of keys, comparison gives the natural order of the components (numbers by value with NaN last and equal to itself, strings and binary by bytes), component by component and then by length. Borrowed and owned keys compare identically in every combination, two keys are equal exactly when they compare equal, and equal keys hash alike. Components of different kinds are never equal.',
  'inputs', 'every pair of keys of every supported component kind and length',
  'Tests compare a few fixed keys; order, equality and hash must agree for all values, NaN and signed zero included.',
  'src/key/row.rs src/key/owned.rs', [('cell comparison, equality, hash', 'src/key/row.rs dyn_cells_cmp, dyn_cells_equal, dyn_cells_hash'), ('row comparison', 'src/key/row.rs dyn_rows_cmp; src/key/owned.rs impl Ord for KeyOwned')],
  'case-complete abstract interpretation of the comparison impls (MIR)')
prop('K02', 'Versions of a key are ordered newest first',
  'Composite (key, timestamp) entries order by key ascending and, within a key, by commit timestamp descending, in both the borrowed and the owned form; they are equal only when key and timestamp both are. Composite entries carry exactly the key and timestamp they were built from.',
  'inputs', 'every pair of composite entries',
  'Every index, merge and visibility decision depends on this order; tests compare two or three entries.',
  'src/key/ts.rs src/mvcc/mod.rs', [('composite order', 'src/key/ts.rs impl Ord for KeyTsViewRaw, KeyTsOwned')],
  'case-complete abstract interpretation of the comparison impls (MIR)')
prop('K03', 'Key extraction is faithful and refuses unusable key columns',
  'A table key accepts exactly the column types that have a total order, names resolve to the columns of that name in the declared order, and unknown names, empty keys and unsupported types are refused wherever they stand in the key. Projecting rows of a batch yields one key per requested row, in order, from exactly the key columns; a null key component is an error. A batch schema is accepted only if it equals the table schema, optionally followed by the non-null u64 commit column.',
  'inputs configurations', 'every schema, key declaration and batch',
  'Tests extract keys from two schemas; the decision is over all schemas and batches.',
  'src/extractor/extractors.rs src/schema.rs src/key/row.rs', [('projection', 'src/extractor/extractors.rs DynKeyProjection'), ('schema check', 'src/extractor/extractors.rs schemas_compatible'), ('builder', 'src/schema.rs SchemaBuilder::build')],
  'case-complete abstract interpretation of MIR with exact small collections')
prop('K04', 'Key serialisation and construction are lossless',
  'A key built from a value holds exactly that value, and a composite key holds its parts in order. Serialising a key and deserialising it gives a key with the same component kinds and values, for every value including NaN, infinities and all finite floats; null and composite (struct, list, map, union) components are refused instead of being written.',
  'inputs', 'every key value',
  'Tests round-trip one composite key; loss shows only for particular values (for example non-finite floats).',
  'src/key/owned.rs', [('serde of keys', 'src/key/owned.rs impl Serialize/Deserialize for KeyOwned'), ('construction', 'src/key/owned.rs KeyOwned::from, tuple')],
  'writer/reader agreement by abstract interpretation of MIR')
prop('K05', "A table's key is exactly the one its schema declares",
  'A table configured by column name or index uses exactly that column as its key; configured from schema metadata it uses the fields marked tonbo.key in ascending ordinal order (one field marked alone may use true or yes), else the columns listed in the tonbo.keys schema metadata in list order, and field markers take precedence. Unknown names, indexes out of range, several markers without ordinals, an empty list and a missing declaration are refused, as is an extractor that does not accept the schema. Deletes are recorded under the key columns in key order followed by a non-null u64 commit column. The table definition recorded in the catalog holds the table name, the key column names in key order and a fingerprint computed from the whole schema that does not depend on the order of JSON object members but does depend on column order.',
  'inputs configurations', 'every schema, marker assignment and key list',
  'Tests declare one or two key columns in schema order; a wrong order or column needs particular ordinals, names that share prefixes, or lists out of schema order.',
  'src/mode/mod.rs src/mode/dyn_config.rs', [('key from name, index, metadata', 'src/mode/dyn_config.rs DynModeConfig::from_key_col, from_key_name, from_metadata'), ('configuration and delete schema', 'src/mode/mod.rs DynModeConfig::new, build, build_delete_schema'), ('catalog definition and fingerprint', 'src/mode/mod.rs table_definition, fingerprint_schema, canonicalize_json')],
  'abstract interpretation of MIR on enumerated declarations (all numberings and lists of up to three of four columns)')
prop('C01', 'Commit timestamps are unique and never go backwards',
  'Every allocation returns a timestamp that no other allocation of the same clock returns, in any interleaving; allocation moves the clock past the returned value in one atomic step. Advancing the clock leaves it at no less than the requested timestamp and never moves it backwards. Timestamp arithmetic saturates instead of wrapping.',
  'schedules inputs', 'every interleaving of allocations and advances, every timestamp',
  'Tests allocate from one thread; lost updates need a particular interleaving.',
  'src/mvcc/mod.rs', [('allocation', 'src/mvcc/mod.rs CommitClock::alloc'), ('advance', 'src/mvcc/mod.rs CommitClock::advance_to_at_least')],
  'atomicity (read-modify-write) effect analysis over MIR')
prop('I01', 'Reading a memtable at a snapshot shows exactly the versions visible at it',
  'For every memtable content and snapshot timestamp, a scan of the mutable memtable or of a sealed segment yields, for each key in the range, the newest version whose commit timestamp is at most the snapshot: its own row if it is a row, a tombstone if it is a delete, nothing if no version is visible; each key once, in key order. A range scan covers exactly the keys inside its start and end bounds (included, excluded or open), with all their versions. A row that cannot be projected is reported, not skipped.',
  'inputs histories', 'every set of keys and versions, every snapshot timestamp, every key range',
  'Tests scan a handful of rows; the rule must hold for every arrangement of versions around the snapshot, including the version committed exactly at it.',
  'src/inmem/mutable/memtable.rs src/inmem/immutable/memtable.rs src/key/ts.rs', [('mutable scan', 'src/inmem/mutable/memtable.rs impl Iterator for DynRowScan'), ('sealed scan', 'src/inmem/immutable/memtable.rs impl Iterator for ImmutableVisibleScan'), ('range bounds', 'lower_bound_for_mutable, upper_bound_for_mutable, lower_bound_for_immutable, upper_bound_for_immutable')],
  'case-complete abstract interpretation of MIR over version arrangements (exact small collections, symbolic keys and timestamps)')
prop('I02', 'Inserting a batch indexes every row at its own timestamp, or changes nothing',
  'Inserting a batch of rows or deletes stores the batch once and adds exactly one index entry per row, under that row\'s key and that row\'s commit timestamp, pointing at that row; the batch is in place before any entry points to it. A batch that cannot be used - missing, mistyped, null or wrong-length commit timestamps, wrong schema, null key - is refused with an error and leaves the memtable, including its free slots, as it was. An empty batch uses nothing up.',
  'inputs histories', 'every batch, every fill level of the memtable',
  'Tests insert small valid batches; partial effects show only for a batch rejected at a particular point or fill level.',
  'src/inmem/mutable/memtable.rs src/extractor/extractors.rs', [('row insert', 'src/inmem/mutable/memtable.rs DynMemInner::try_insert_batch'), ('delete insert', 'src/inmem/mutable/memtable.rs DynMemInner::try_insert_delete_batch'), ('validation', 'src/inmem/mutable/memtable.rs DynMem::insert_batch_with_mvcc')],
  'effect analysis by abstract interpretation of MIR (post-state comparison per outcome)')
prop('I03', 'Sealing a memtable loses and invents nothing',
  'Sealing turns every version in the mutable memtable - each row and each tombstone, with its key and commit timestamp - into exactly one version of the sealed segment, keeps rows and delete keys paired with their own timestamps, and leaves an empty memtable with all its slots free; sealing an empty memtable yields nothing. When a full memtable makes an insert seal it, the sealed segment is returned to the caller and the insert is repeated on the fresh memtable. What the segment hands to the flush path contains every version, rows and deletes.',
  'histories inputs', 'every memtable content and fill level',
  'Tests seal one or two small memtables; the pairing must hold for every mix of rows and deletes.',
  'src/inmem/mutable/memtable.rs src/inmem/immutable/memtable.rs', [('seal', 'src/inmem/mutable/memtable.rs DynMemInner::seal'), ('auto-seal', 'src/inmem/mutable/memtable.rs DynMem::insert_batch_with_mvcc, insert_delete_batch'), ('export', 'src/inmem/immutable/memtable.rs ImmutableRowIter, DeleteSidecar::to_record_batch')],
  'case-complete abstract interpretation of MIR with exact small collections')
prop('I04', 'Pruning never skips a memtable that holds a matching visible version',
  'The key bounds and commit timestamp bounds reported for a memtable or sealed segment are the true minimum and maximum over all of its versions, tombstones included, and a sealed segment is left out of a scan only if none of its versions lies in the key range or all of them are newer than the snapshot.',
  'inputs', 'every segment content, key range and snapshot',
  'A wrong bound only shows for a segment whose extreme version is of a particular kind or exactly at a bound.',
  'src/inmem/immutable src/inmem/mutable/memtable.rs', [('pruning', 'src/inmem/immutable/mod.rs prune_segments'), ('bounds', 'src/inmem/immutable/memtable.rs ImmutableMemTable::commit_ts_bounds; src/inmem/mutable/memtable.rs DynMemInner::commit_ts_bounds, key_bounds')],
  'case-complete abstract interpretation of MIR against an enumerated oracle')
prop('I05', 'A key conflicts exactly when it has a version newer than the snapshot',
  'For every memtable content, key and snapshot timestamp, the conflict check of the mutable memtable and of a sealed segment answers yes exactly when some version of that key has a commit timestamp greater than the snapshot; a version at the snapshot itself, or of another key, is no conflict.',
  'inputs histories', 'every set of versions, every key and snapshot',
  'Write-write conflicts are lost or invented only for particular arrangements of versions around the snapshot.',
  'src/inmem/mutable/memtable.rs src/inmem/immutable/memtable.rs', [('conflict check', 'DynMemInner::has_conflict, ImmutableMemTable::has_conflict')],
  'case-complete abstract interpretation of MIR')
prop('I06', 'Seal policies fire exactly from their limit on',
  'The size, row-count, batch-count and elapsed-time policies ask for a seal exactly when the measured amount has reached the limit; a policy of several parts asks for a seal when any part does; amounts not measured never trigger one. The statistics given to policies count each write once, as a new key or as a replacement, and count both row batches and delete batches.',
  'inputs', 'every statistic and limit',
  'Off-by-one and dropped-count mistakes show only at the limit.',
  'src/inmem/policy.rs src/inmem/mutable/metrics.rs', [('policies', 'src/inmem/policy.rs impl SealPolicy'), ('statistics', 'src/inmem/mutable/memtable.rs DynMemInner::build_stats; src/inmem/mutable/metrics.rs')],
  'case-complete abstract interpretation of MIR')

prop('Q01', 'Merging sources yields each key once with its newest version',
  'For every set of sources (transaction staging, mutable memtable, sealed segments, SSTs) that each deliver their entries in key order, newest version first within a key, the merged read yields keys in ascending order, each key at most once, with the row of its newest version; when versions have the same timestamp the source of higher priority wins (transaction, then mutable, then sealed, then SST), and among equal sources the one listed first. A key whose winning version is a tombstone is not yielded, and older versions of it do not reappear, whatever sources they come from. Rows and tombstones of every source reach the merge as what they are, with their own key, timestamp and row; an error of a source surfaces. Opening a memtable source hands the snapshot timestamp and the key range on unchanged.',
  'inputs histories schedules', 'every arrangement of versions over sources, every order of sources, every pattern of pending polls',
  'Tests merge a few rows of two or three sources; the winner rule must hold for every arrangement of timestamps, tombstones and source order.',
  'src/query/stream', [('merge', 'src/query/stream/merge.rs impl Stream for MergeStream'), ('order', 'src/query/stream/merge.rs impl Ord for HeapEntry'), ('sources', 'src/query/stream/mod.rs impl Stream for ScanStream; StreamEntry')],
  'case-complete abstract interpretation of MIR over version arrangements')
prop('Q02', 'A limit yields a prefix of the unlimited result',
  'A merged read with limit n yields exactly the first n rows of the same read without limit (all of them if there are fewer, none for n = 0): deleted keys, superseded versions and duplicates do not use up the limit. A source that is temporarily pending neither loses nor repeats rows, and a source that fails makes the read fail rather than end early as if complete.',
  'inputs schedules', 'every limit, every arrangement of versions, every pattern of pending polls and source failures',
  'Tests use one limit over rows without deletions.',
  'src/query/stream/merge.rs', [('limit', 'src/query/stream/merge.rs MergeStream::poll_next, decrement_limit')],
  'case-complete abstract interpretation of MIR')
prop('Q03', 'Key ranges used for pruning never exclude an admissible key',
  'A key range built from comparison operands contains exactly the keys the comparison admits; the intersection of two ranges contains exactly the keys in both; the envelope of two ranges contains every key of either; a range is marked empty exactly when it admits no key (for an envelope: when both are). A source with smallest key a and largest key b is skipped only if no key from a to b lies in the range, bounds inclusive or exclusive as declared. The upper bound derived for a string prefix is the least string above every string with that prefix, and there is none when no such string exists.',
  'inputs', 'every pair of ranges, every prefix, every source extent',
  'Off-by-one and inclusive/exclusive mistakes show only at the bound, for particular combinations of bounds, or for prefixes ending at the edge of the character set.',
  'src/query/scan.rs', [('ranges', 'src/query/scan.rs KeyBounds'), ('prefix', 'src/query/scan.rs next_prefix_string')],
  'case-complete abstract interpretation of MIR against an enumerated oracle')
prop('Q04', 'Row sets select exactly the rows asked for',
  'A row set over a source of n rows built as all, none, from ranges or from a selection selects exactly those rows, reports their number, and is full or empty exactly when it selects every row or none; iterating it yields the selected row numbers in ascending order. Intersection and union contain exactly the common and the joint rows; combining sets over sources of different length, or a selection whose length differs from the source, is refused. Converting to a scan selection loses nothing: no selection is passed on only when all rows are selected.',
  'inputs', 'every row set up to the sizes enumerated, and selections of every alternation pattern in them',
  'Tests combine two or three sets; offset mistakes show only for particular alternations of selected and skipped runs.',
  'src/query/scan.rs', [('row sets', 'src/query/scan.rs RowSet, RowSetIter')],
  'case-complete abstract interpretation of MIR')

prop('M01', 'A table version is published atomically together with its head',
  'Applying version edits to a table writes, in a single commit of one session, the new version under the next timestamp, the head pointing at it, and the log floor equal to the floor of the new version (removed when the version has none); the new version is computed from the version the head pointed at in that same session. When anything fails before that commit (a missing head or referenced version, a record of the wrong kind, an inapplicable edit, an empty edit list, a store error) nothing is published and an error is returned; the timestamp returned is the one published. A publication guarded by an expected head is refused as a conflict exactly when the head is not the expected one. A recorded garbage-collection plan is committed under its table or reported as failed. The version, catalog and plan stores never share files.',
  'histories fault_sequences crash_points configurations', 'every current head and version, every edit list, every failing store operation',
  'Tests publish a few versions on an in-memory store that never fails and without concurrent publishers.',
  'src/manifest/driver.rs src/manifest/bootstrap.rs', [('publication', 'src/manifest/driver.rs Manifest::apply_version_edits_inner, apply_version_edits_cas'), ('facade', 'src/manifest/bootstrap.rs TonboManifest'), ('stores', 'src/manifest/bootstrap.rs init_fs_manifest, open_manifest_instance')],
  'effect analysis by abstract interpretation of MIR against a store model with injected faults')
prop('M02', 'Version edits have exactly their declared effect, in order',
  'Edits apply in list order. Adding files to a level makes each present in that level exactly once, an entry with the same id being replaced by the added one, and leaves other levels alone; removing files by id removes them from the named level only, and is refused when that level does not exist. Setting log segments replaces the whole set; setting the tombstone watermark replaces it; what no edit mentions is unchanged. The resulting version lists the files of each level by ascending id, has no trailing empty levels (inner ones stay), lists log segments in order, and its log floor is the least of them, or absent without segments.',
  'inputs', 'every version and every edit list (cases enumerated over levels, repeated and missing ids, and segment orders)',
  'Tests apply a handful of edits; ordering, replacement and trimming mistakes show only for particular combinations.',
  'src/manifest/domain.rs src/manifest/version.rs', [('edits', 'src/manifest/domain.rs VersionState::apply_edits, add_ssts, remove_ssts, normalise_wal_segments'), ('segment order', 'src/manifest/domain.rs WalSegmentRef::cmp')],
  'case-complete abstract interpretation of MIR against an enumerated oracle')
prop('M03', 'Table registration is idempotent and never rebinds a name',
  'Registering a name not in the catalog adds one entry for it with a new id, the declared metadata under that id and an increased ordinal, in one commit, leaving all other tables as they were. Registering a known name, compared exactly, returns the stored metadata if schema fingerprint, key columns in order, schema version and retention are all equal to the stored ones, and is refused otherwise; in neither case is anything written. A catalog or metadata record that is missing or of the wrong kind is an error. A registered table has a head for its own id and schema version without versions; initialising a head or catalog that already exists changes nothing. Failures surface as errors.',
  'inputs histories fault_sequences', 'every catalog, every definition, every failing store operation',
  'Tests register two or three tables; a definition that differs in one attribute only, or a failing store, is hardly sampled.',
  'src/manifest/driver.rs src/manifest/bootstrap.rs', [('registration', 'src/manifest/driver.rs Manifest::register_table, find_table_by_name, ensure_table_compat'), ('heads', 'src/manifest/driver.rs init_table_head, init_catalog_root; src/manifest/bootstrap.rs TonboManifest::register_table')],
  'case-complete abstract interpretation of MIR against a store model with injected faults')
prop('M04', 'Snapshots and version lists show exactly the committed versions asked for',
  'The latest snapshot of a table is its head together with exactly the version that head points at; a snapshot at a version timestamp carries exactly the version committed at that timestamp, or none when there is none, never another; head and version are read in one session. Table metadata is that of the table asked for; only a missing catalog entry may be replaced by the cached metadata, any other failure surfaces. The version list contains the newest versions of the table, newest first, at most as many as the limit (all when the limit is zero). The log floor read is the recorded one. Records of the wrong kind and store failures are errors.',
  'histories fault_sequences inputs', 'every version history, timestamp and limit, every failing store operation',
  'Tests read back one or two versions right after writing them on a store that never fails.',
  'src/manifest/driver.rs src/manifest/bootstrap.rs src/manifest/codec.rs', [('snapshots', 'src/manifest/driver.rs Manifest::snapshot_latest, snapshot_at_version; src/manifest/bootstrap.rs TonboManifest::snapshot_latest_with_fallback'), ('version list', 'src/manifest/driver.rs Manifest::list_versions'), ('record kinds', 'src/manifest/codec.rs VersionCodec::validate_key_value')],
  'abstract interpretation of MIR against a store model with injected faults')
prop('P01', 'A leveled compaction plan follows the thresholds and pulls in every overlap',
  'A plan is made from exactly the files of the version, each at its level with its statistics; an empty version gives none. Level 0 is compacted into level 1 when its file count reaches the trigger or its bytes reach the level-0 limit; otherwise the shallowest level (at or above the requested minimum) whose file count exceeds its threshold, or whose bytes reach its limit, is compacted into the next. Inputs are taken from that level in order of their smallest key, up to the configured number of files (at least one) and, after the first, up to the configured bytes; from level 1 on, every file of the next level whose key range touches the selected range is added. The key range of the task covers all inputs. Files without key statistics make the range unknown.',
  'inputs configurations', 'every layout and planner configuration (about 130 layouts enumerated over counts, limits and touching, overlapping and disjoint ranges)',
  'Tests plan a dozen fixed layouts; boundary counts, sizes and ranges that touch in one key are not sampled.',
  'src/compaction/planner.rs src/compaction/orchestrator.rs', [('planner', 'src/compaction/planner.rs LeveledCompactionPlanner, select_compaction_run, aggregate_key_range'), ('layout', 'src/compaction/planner.rs From<&VersionState> for CompactionSnapshot; src/compaction/orchestrator.rs plan_from_version')],
  'case-complete abstract interpretation of MIR against an enumerated oracle')
prop('P02', 'Compaction outcomes translate into exactly the right manifest edits',
  'The edits of an outcome remove every replaced file exactly once from the level it was read at, add all new files at the target level, set the remaining log segments (or the log floor alone when only that is known), set the tombstone watermark when there is one, and nothing else. An outcome built from finished outputs has one entry per output, in order, with the identity, statistics, log references and paths of that output, and the newest commit timestamp over all outputs as its watermark; an output without a data file is an error.',
  'inputs', 'every outcome (inputs, outputs, log lists and watermarks enumerated)',
  'Tests build two or three outcomes with inputs of a single level.',
  'src/compaction/executor.rs', [('edits', 'src/compaction/executor.rs CompactionOutcome::to_version_edits'), ('outcome', 'src/compaction/executor.rs CompactionOutcome::from_outputs')],
  'case-complete abstract interpretation of MIR against an enumerated oracle')
prop('P03', 'Compaction resolves its inputs exactly and drops only unreferenced log segments',
  'The inputs of a task are resolved, in order, to the files of the version at the planned levels with their statistics, log references and paths; an input that is not there is an error, never skipped. After a compaction the version lists exactly the log segments that a remaining or new file refers to; if any such file lacks references, or nothing would change, the list stays as it is; when the listed sequence numbers have gaps, segments in front of the first kept one stay. The outcome names as obsolete exactly the segments dropped from the list; its log floor is the present one, or the first kept segment. The garbage-collection plan lists exactly the replaced files with their levels and paths and the dropped segments; a replaced file without a data path is an error.',
  'inputs', 'every version, task and outcome (references, gaps and missing metadata enumerated)',
  'Tests cover single cases of each branch; the combination of gaps, missing metadata and shared references is not sampled.',
  'src/compaction/orchestrator.rs', [('inputs', 'src/compaction/orchestrator.rs resolve_inputs'), ('log references', 'src/compaction/orchestrator.rs wal_ids_for_remaining_ssts, wal_segments_after_compaction, reconcile_wal_segments'), ('garbage collection', 'src/compaction/orchestrator.rs gc_plan_from_outcome')],
  'case-complete abstract interpretation of MIR against an enumerated oracle')
prop('P04', 'Compaction scheduling is bounded: queue, budget and cascades',
  'Admitting a compaction task never waits: the task is put on the bounded queue once, with the expected manifest head and a lease carrying the owner and time to live, or it is reported as rejected (full or closed, as the queue says). Draining takes at most the configured budget of queued tasks (at least one), starts each exactly once in order, and returns only after all started tasks finished; a closed queue is reported. A follow-up compaction is allowed only while the follow-up budget of this trigger lasts (checked first) and the cooldown since the last allowed one has passed; only an allowed one spends budget and restarts the cooldown; a new trigger restores the budget and nothing else. Dropping the handle of a worker asks it to stop and aborts it.',
  'inputs schedules configurations', 'every queue state, budget, cooldown and time',
  'Tests exercise one full queue and one cascade sequence.',
  'src/compaction/scheduler.rs src/compaction/driver.rs src/compaction/handle.rs', [('scheduler', 'src/compaction/scheduler.rs CompactionScheduler'), ('cascades', 'src/compaction/driver.rs CascadeControl'), ('handle', 'src/compaction/handle.rs CompactionHandle')],
  'case-complete abstract interpretation of MIR against an enumerated oracle')
prop('P05', 'Compaction metrics report exactly what happened',
  'A metrics snapshot equals what was recorded: each trigger, queue drop (by context and reason), cascade decision and backpressure signal adds one to its own counter; a successful job adds one job, its duration, its CAS retries and, for each side whose statistics are complete, its bytes, rows and tombstones; an aborted job adds one failure, its CAS retries, and a CAS abort only if it was one; the last job, successful or not, is reported with every attribute unchanged. Counters saturate instead of wrapping. Statistics of a set of files are the sums over the files that have them, and complete only if all have.',
  'inputs histories', 'every sequence of recorded events (representative sequences with pairwise distinct values) and every set of files',
  'Tests record one or two jobs; two swapped counters or a wrapped sum stay invisible.',
  'src/compaction/metrics.rs', [('metrics', 'src/compaction/metrics.rs CompactionMetrics'), ('sums', 'src/compaction/metrics.rs CompactionIoStats')],
  'case-complete abstract interpretation of MIR against an enumerated oracle')
prop('P06', 'Compaction outputs get fresh ids and bounded sizes',
  'Every output of a compaction gets an id no other output of the same allocator has, at the requested level. Configured limits on output rows and bytes are used as given (at least 1), at every level; without configuration there is no row limit, and the byte limit is 128 MiB times ten per level, never above 512 MiB.',
  'inputs configurations', 'every level and limit configuration',
  'Tests look at one or two levels.',
  'src/compaction/executor.rs', [('limits', 'src/compaction/executor.rs LocalCompactionExecutor::output_caps_for_level, default_output_bytes_for_level, with_max_output_rows, with_max_output_bytes'), ('ids', 'src/compaction/executor.rs LocalCompactionExecutor::alloc_descriptor')],
  'case-complete abstract interpretation of MIR against an enumerated oracle')
prop('P07', 'A scheduled compaction is published once against its planned head, or not at all',
  'A scheduled compaction runs only if the manifest head is still the one it was planned against, on exactly the planned inputs; its edits are applied with a compare-and-set on that head, and its garbage-collection plan is recorded only after the edits are committed. If applying fails, with a conflict or otherwise, the outputs of that attempt are removed, and the retry, bounded in number, starts from a fresh snapshot; if the head moved, the task is dropped. Outputs that were published are never removed by it.',
  'schedules fault_sequences histories', 'every order of concurrent publications, every failing step',
  'Tests cannot schedule a concurrent publication between the plan and the compare-and-set at every point.',
  'src/compaction/driver.rs', [('publication', 'src/compaction/driver.rs CompactionDriver::run_scheduled_compaction')],
  'effect analysis by abstract interpretation of MIR against a manifest and executor model with injected conflicts')

# ------------------------------------------------------------------ transactions
prop('T01', 'A transaction\'s staged mutations: last write per key wins, all handed over',
  'What a transaction has staged is, for every key, its last upsert or delete, and nothing for other keys; counts and emptiness agree. Reading it back within the transaction shows the staged row, or its absence after a staged delete, and a scan yields staged rows once, in key order, inside the requested range, with staged deletes hiding the key. On commit every staged row and every staged delete is handed over exactly once, in key order, the deletes with the key columns followed by the commit timestamp; a row that cannot be encoded is an error.',
  'histories inputs', 'every sequence of staged upserts and deletes (all sequences up to length 4 over 2 keys, by case enumeration)',
  'Tests stage two or three rows; upsert-delete-upsert orders and mixed batches are not sampled.',
  'src/transaction/mod.rs', [('staging', 'src/transaction/mod.rs StagedMutations'), ('scan', 'src/transaction/mod.rs TransactionScan'), ('batches', 'src/transaction/mod.rs build_record_batch, build_delete_batch')],
  'case-complete abstract interpretation of MIR against an enumerated oracle')
prop('T02', 'A commit is checked under locks, logged, then applied, or has no effect',
  'Committing locks every written key, in key order, for the whole commit, and then checks each against versions newer than the snapshot, in the mutable memtable, all sealed memtables and wherever they have been flushed to; a conflict ends it without any effect. Otherwise it takes one commit timestamp, logs begin, upserts, deletes and commit under one transaction id and that timestamp, and applies exactly the staged mutations at it: under strict acknowledgement only after every frame is durable and its frame range recorded, under fast acknowledgement after logging, publishing in the background. When logging fails nothing is applied and the transaction is aborted in the log; a failure to apply or to publish is an error. An empty transaction does nothing.',
  'histories schedules fault_sequences', 'every staged set, conflict, failing step, acknowledgement mode and interleaving of commits',
  'Tests commit one or two transactions without failing log steps; the order of locking, checking, logging and applying is invisible to them.',
  'src/transaction/mod.rs', [('commit', 'src/transaction/mod.rs Transaction::commit, write_wal_transaction, WalTxnTickets, apply_staged_payloads')],
  'effect analysis by abstract interpretation of MIR with injected conflicts and failures')

prop('T03', 'A transaction reads its own writes over its snapshot and stages only sound rows',
  'Getting a key from a transaction answers with what the transaction staged for it (the row, or nothing after a staged delete); otherwise with the newest version at or below its snapshot, wherever that version is stored, a delete meaning nothing; a failure to read is an error. Staging a row files it under the key projected from that very row; rows of a batch are all staged, in order, up to the first refused one. Rows of the wrong width, rows that cannot be encoded, batches of another schema, and deletes of incomplete keys are refused, and what is refused leaves the staged mutations as they were.',
  'inputs histories', 'every staged set, every set of stored versions of a key, every refused row',
  'Tests read one staged and one stored row; newest-version ties, shadowing deletes, flushed rows and partially refused batches are not sampled.',
  'src/transaction/mod.rs', [('get', 'src/transaction/mod.rs Transaction::get, read_memtable_versions'), ('staging', 'src/transaction/mod.rs Transaction::upsert, upsert_rows, upsert_batch, delete')],
  'case-complete abstract interpretation of MIR against an enumerated oracle, call-graph reachability for flushed data')

# ------------------------------------------------------------------ tables on disk
prop('S01', 'A finished table holds every staged version, sorted, with exact statistics',
  'A table written from sealed memtables or from merged streams contains every staged row with its columns and its own commit timestamp, and every staged delete with its key and commit timestamp, exactly once and nothing else: rows in key order, newest first within a key, deletes likewise in their own file. Rows, deletes, bytes, smallest and largest key and the commit timestamp bounds (rows and deletes) of its descriptor are exactly those of its contents, with the id, level, log references and file paths it was given. Nothing staged, rows and timestamps that do not match in number, and missing commit timestamps are errors, and so is any failing write, sync or close: a table is reported finished only when all its files are complete.',
  'inputs fault_sequences', 'every set of staged memtables and streams (versions enumerated over up to 3 keys, several segments), every failing file operation',
  'Tests write one to three segments of a few rows on a healthy disk; ordering across segments, equal timestamps of a row and a delete, and statistics of delete-only inputs are not sampled.',
  'src/ondisk/sstable.rs', [('staging and sorting', 'src/ondisk/sstable.rs ParquetTableWriter::stage_immutable, stage_stream_batch, finish, sort_data_rows, sort_delete_rows'), ('files', 'src/ondisk/sstable.rs WriteContext'), ('commit column', 'src/ondisk/sstable.rs append_commit_column, parse_mvcc_columns_from_data, take_record_batch')],
  'case-complete abstract interpretation of MIR against an enumerated oracle and a file model with injected faults')
prop('S02', 'Scanning a table yields exactly the rows visible at the snapshot',
  'A scan of a table at a read timestamp yields, in key order and once per key, the newest row not newer than the timestamp, unless a delete not newer than the timestamp and at least as new as that row hides it; with the projected columns and the commit timestamp of that row. How the rows and deletes are split into batches, and how often a read is not ready yet, makes no difference. A read that fails, and missing commit timestamps, are errors, never a shorter result.',
  'inputs schedules fault_sequences', 'every table content, batch split, snapshot and readiness of reads (enumerated)',
  'Tests scan a table of a few rows in one batch with all data ready.',
  'src/ondisk/scan.rs', [('scan', 'src/ondisk/scan.rs SstableScan and its Stream impl'), ('deletes', 'src/ondisk/scan.rs DeleteStreamWithExtractor')],
  'case-complete abstract interpretation of MIR against an enumerated oracle')
prop('S03', 'Merging tables keeps the newest version of every key and loses nothing',
  'A merge of tables keeps, for every key in any input, its newest version, and only that: the row with its columns and commit timestamp, or the delete; of a row and a delete with the same timestamp the delete. All data and delete batches of every input take part. The outputs are in key order, do not share a key, respect the configured limits (an output may exceed a limit by its last version only), and report exact statistics; each refers to all log segments any input refers to. Merging nothing is an error, as is exceeding the iteration budget and every failing read or write; then the merge has no result and the files it wrote are removed.',
  'inputs configurations fault_sequences', 'every set of inputs (versions enumerated over 2 to 3 keys and inputs), batch split, output limit and failing step',
  'Tests merge two tables of two rows in single batches; newest-wins across batches, delete ties and exact splits at a limit are not sampled.',
  'src/ondisk/merge.rs src/ondisk/sstable.rs', [('merge', 'src/ondisk/merge.rs SsTableMerger::execute_inner, SourceCursor'), ('order', 'src/ondisk/merge.rs HeapEntry'), ('outputs', 'src/ondisk/merge.rs OutputState')],
  'case-complete abstract interpretation of MIR against an enumerated oracle')
prop('S04', 'Table files are unique, complete when reported, removed when a write fails',
  'The data file and the delete file of a table have paths under the table root that no other table (level, id) and no other kind of file has; a table has a delete file exactly when it has deletes. A failing open, write, sync or close while writing is reported as an error. A failed merge removes every file of the outputs it had finished, each once, even when removing one of them fails; nothing else is ever removed by it.',
  'fault_sequences inputs', 'every id and level, every failing file operation',
  'Tests write to a healthy disk.',
  'src/ondisk/sstable.rs src/ondisk/merge.rs', [('paths', 'src/ondisk/sstable.rs build_table_paths, SsTableConfig::level_dir'), ('files', 'src/ondisk/sstable.rs WriteContext'), ('cleanup', 'src/ondisk/merge.rs cleanup_descriptors')],
  'effect analysis by abstract interpretation of MIR against a file model with injected faults')
prop('S05', 'Reading table files: exact bytes, complete indexes, faithful bounded caches',
  'Reading several ranges of a table file returns exactly the bytes of each range in the order asked, however the ranges overlap or are merged into larger reads. A file is accepted for reading only with complete page indexes (one entry per row group and column; a file without row groups needs none). The metadata and filter caches return the value last stored under exactly that file (and row group and column) or nothing, never hold more entries than their size (at least 1), keep the entry just stored and drop entries only when full. A table configuration keeps exactly the values it was given, limits at least 1.',
  'inputs histories', 'every list of ranges, index layout and sequence of cache operations (enumerated)',
  'Tests read small files whose ranges never overlap or arrive unordered, and never fill a cache.',
  'src/ondisk/bloom.rs src/ondisk/metadata.rs src/ondisk/sstable.rs', [('range reads', 'src/ondisk/bloom.rs BatchedAsyncReader::get_byte_ranges'), ('caches', 'src/ondisk/bloom.rs BloomFilterCache, SstBloomFilterProvider; src/ondisk/metadata.rs ParquetMetadataCache'), ('page indexes', 'src/ondisk/sstable.rs validate_page_indexes'), ('configuration', 'src/ondisk/sstable.rs SsTableConfig')],
  'case-complete abstract interpretation of MIR against an enumerated oracle')
