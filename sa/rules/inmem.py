"""Memtables: snapshot visibility, ingest, sealing, pruning, range bounds, policies, conflict detection."""
from core import *
from rules.keys import setw, atomic_hooks
import itertools

MM = 'crate::inmem::mutable::memtable::'
IM = 'crate::inmem::immutable::memtable::'

def struct(ctx, adt, **kw):
    """value of a one-variant type with the given fields; the others are unknowns named after the field"""
    fs = [f[0] for f in ctx.F.adts[adt]['v'][0]['f']]
    for k in kw:
        if k not in fs: raise Missing(f'field {adt}.{k}')
    return ('e', adt, 0, tuple(kw.get(f, arg('f_' + f)) for f in fs))

def enum(ctx, adt, var, *a):
    for i, v in enumerate(ctx.F.adts[adt]['v']):
        if v['n'] == var: return ('e', adt, i, tuple(a))
    raise Missing(f'{adt}::{var}')

def entry_hooks():
    def key(i):
        def h(it, st, c):
            v = it.deepval(st, c.args[0])
            if v[0] != 't' or len(v[1]) < 2: return None
            return [(st, it.tmp(st, c.frame, ('ent', c.bb, i, v[1][i]), v[1][i]))]
        return h
    return [(r'skiplist::map::Entry.*::key$', key(0)), (r'skiplist::map::Entry.*::value$', key(1))]

def drain(ctx, fn, selfv, mkq, n, st=None):
    """call an iterator's next until it ends (at most n times): [(state, [items])]"""
    q = mkq()
    it = Interp(ctx.F, q)
    st = st or State()
    r = it.tmp(st, 0, ('self',), selfv)
    live, done = [(st, [])], []
    for k in range(n + 1):
        nxt = []
        for s, items in live:
            for s2, v in it.run_body(s.copy(), fn, [r], ('root', k)):
                for s3, vi, w in it.split(s2, it.rd(s2, v), OPTION):
                    if vi == 0: done.append((s3, items))
                    else: nxt.append((s3, items + [it.deepval(s3, w[3][0])]))
        live = nxt
        if not live: break
    ctx.fns |= it.visited; ctx.sites |= it.sites; ctx.steps += it.steps
    return it, done, live

def mapiter(ctx, ents):
    """a state holding an ordered map with these entries, and an iterator over it"""
    st = State()
    r = Interp(ctx.F, CQ(exact=True)).tmp(st, 0, ('map',), ('a', tuple(ents)))
    return st, ('it', 'rs', r[1], r[2], 0, len(ents), 'map')

def visible(spec):
    """spec: [(key, [(visible, kind)])] newest first -> expected [(key, version, kind)]"""
    out = []
    for k, vs in spec:
        for i, (vis, kind) in enumerate(vs):
            if vis: out.append((k, i, kind)); break
    return out

def specs(thorough=False):
    kinds = 'RD'
    out = []
    for n in (1, 2, 3):
        for inv in range(n + 1):
            for ks in itertools.product(kinds, repeat=n):
                out.append([('A', [(i >= inv, k) for i, k in enumerate(ks)])])
    tails = [[(True, 'R')], [(True, 'D')], [(False, 'R'), (True, 'R')], [(False, 'D')]]
    for n in (1, 2):
        for inv in range(n + 1):
            for ks in itertools.product(kinds, repeat=n):
                for t in tails: out.append([('A', [(i >= inv, k) for i, k in enumerate(ks)]), ('B', t)])
    out.append([('A', [(False, 'R')]), ('B', [(False, 'R')]), ('C', [(True, 'R')])])
    out.append([('A', [(True, 'R'), (True, 'R')]), ('B', [(True, 'D'), (True, 'R')]), ('C', [(False, 'R'), (True, 'D'), (True, 'R')])])
    return out

def vis_rels(spec):
    rels = []
    names = [k for k, _ in spec]
    for i, a in enumerate(names):
        rels.append((f'^K{a}_\\d$', f'^K{a}_\\d$', '='))
        for b in names[i + 1:]: rels.append((f'^K{a}_\\d$', f'^K{b}_\\d$', '<'))
    for k, vs in spec:
        for i, (vis, _) in enumerate(vs):
            # the boundary case "exactly at the snapshot" is visible: cover it on every second visible version
            rels.append((f'^T{k}_{i}(\\.0)?$', r'^READ(\.0)?$', ('=' if i % 2 == 0 else '<') if vis else '>'))
    return rels

@rule('I01')
def mutable_visibility(ctx):
    """scanning the mutable memtable yields, per key, exactly the newest version at or below the snapshot, tombstones as tombstones"""
    K = 'mutable_visibility'
    f = ctx.impl('Iterator', 'DynRowScan', 'next')
    SC, CU, ML = ctx.adt('DynRowScan'), ctx.adt('DynRowCursor'), 'crate::mutation::DynMutation'
    KT = ctx.adt('ts::KeyTsOwned')
    UP, DL = ctx.adt('BatchRowLoc'), ctx.adt('DeleteRowLoc')
    RE = ctx.adt('DynRowScanEntry')
    nslots = 5
    for spec in specs():
        ents = []; row = 0
        for k, vs in spec:
            for i, (vis, kind) in enumerate(vs):
                m = enum(ctx, ML, 'Upsert', struct(ctx, UP, batch_idx=('c', row % nslots), row_idx=arg(f'row{k}_{i}'))) if kind == 'R' else enum(ctx, ML, 'Delete', struct(ctx, DL))
                ents.append(('t', (struct(ctx, KT, key=arg(f'K{k}_{i}'), ts=arg(f'T{k}_{i}')), m))); row += 1
        slots = ('a', tuple(arg(f'S{i}') for i in range(nslots)))
        def slotget(it, st, c): return [(st, some(mk(('call', 'att', (it.deepval(st, c.args[0]),)))))]
        def proj(it, st, c):
            s2 = st.copy(); s2.setg('perr', 1)
            return [(st, ok(mk(('call', 'row', tuple(it.deepval(st, a) for a in c.args))))), (s2, err(arg('PE')))]
        H = entry_hooks() + [(r'OnceLock.*::get$', slotget), (r'project_row_raw$', proj), (r'KeyRow::from_owned$', lambda it, st, c: [(st, ok(mk(('call', 'kr', (it.deepval(st, c.args[0]),)))))])]
        mkq = lambda: CQ(exact=True, rels=vis_rels(spec), calls=H, max_states=400)
        selfv = struct(ctx, SC, batch_slots=slots, cursor=enum(ctx, CU, 'Iter', ('it', 'own', ('a', tuple(ents)))), read_ts=arg('READ'), current_key=NONE, emitted_for_key=FALSE)
        it, done, live = drain(ctx, f, selfv, mkq, len(ents) + 1)
        want = visible(spec)
        name = '|'.join(k + ''.join(('+' if v else '-') + x for v, x in vs) for k, vs in spec)
        bad = []
        for s, items in done:
            if s.g('perr'): continue
            got = []
            for x in items:
                p = path(x)
                m = re.fullmatch(r'Result#0\{DynRowScanEntry#(\d)\{KeyTsViewRaw#0\{kr\(K(\w)_(\d)\),T(\w)_(\d)\}(.*)\}\}', p)
                if not m or m.group(2, 3) != m.group(4, 5): got.append(p); continue
                kind = ctx.F.adts[RE]['v'][int(m.group(1))]['n']
                g = (m.group(2), int(m.group(3)), 'R' if kind == 'Row' else 'D')
                if kind == 'Row':
                    n = sum(len(vs) for k, vs in spec[:[k for k, _ in spec].index(m.group(2))]) + int(m.group(3))
                    if not re.search(r'att\(S%d\)(\.\w+)*,row%s_%s\b' % (n % nslots, m.group(2), m.group(3)), m.group(6)): g = p
                got.append(g)
            if got != want: bad.append(got)
        ctx.ob(K, name, done and not bad and not live, f'versions {name} (newest first, + visible): expected {want}, scan yields {bad[:1] or "no end"}', ctx.loc(f))
        bade = [1 for s, items in done if s.g('perr') and not any(path(x).startswith('Result#1') for x in items)]
        ctx.ob(K, name + ':error', not bade, 'a projection error is dropped', ctx.loc(f))

@rule('I01')
def immutable_visibility(ctx):
    """scanning a sealed memtable yields, per key, exactly the newest version at or below the snapshot, tombstones as tombstones"""
    K = 'immutable_visibility'
    f = ctx.impl('Iterator', 'ImmutableVisibleScan', 'next')
    SC, CU, IE = ctx.adt('ImmutableVisibleScan'), ctx.adt('ImmutableCursor'), ctx.adt('ImmutableIndexEntry')
    KT, RE = ctx.adt('ts::KeyTsViewRaw'), ctx.adt('ImmutableVisibleEntry')
    TB, MV = ctx.adt('ImmutableMemTable'), ctx.adt('MvccColumns')
    for spec in specs():
        ents, ts, tomb = [], [], []
        for k, vs in spec:
            for i, (vis, kind) in enumerate(vs):
                if kind == 'R': e = enum(ctx, IE, 'Row', ('c', len(ts))); ts.append(arg(f'T{k}_{i}')); tomb.append(FALSE)
                else: e = enum(ctx, IE, 'Delete')
                ents.append(('t', (struct(ctx, KT, key=arg(f'K{k}_{i}'), ts=arg(f'T{k}_{i}')), e)))
        def proj(it, st, c):
            s2 = st.copy(); s2.setg('perr', 1)
            return [(st, ok(mk(('call', 'row', tuple(it.deepval(st, a) for a in c.args))))), (s2, err(arg('PE')))]
        mkq = lambda: CQ(exact=True, rels=vis_rels(spec), calls=[(r'project_row_raw$', proj)], max_states=400)
        tbl = struct(ctx, TB, mvcc=struct(ctx, MV, commit_ts=('a', tuple(ts)), tombstone=('a', tuple(tomb))))
        st0, mapit = mapiter(ctx, ents)
        selfv = struct(ctx, SC, table=tbl, iter=enum(ctx, CU, 'Iter', mapit), read_ts=arg('READ'), current_key=NONE, emitted_for_key=FALSE)
        it, done, live = drain(ctx, f, selfv, mkq, len(ents) + 1, st0)
        want = visible(spec)
        name = '|'.join(k + ''.join(('+' if v else '-') + x for v, x in vs) for k, vs in spec)
        order = [(k, i) for k, vs in spec for i, (v, kind) in enumerate(vs) if kind == 'R']
        bad = []
        for s, items in done:
            if s.g('perr'): continue
            got = []
            for x in items:
                p = path(x)
                m = re.fullmatch(r'Result#0\{ImmutableVisibleEntry#(\d)\{KeyTsViewRaw#0\{K(\w)_(\d),T(\w)_(\d)\}(.*)\}\}', p)
                if not m or m.group(2, 3) != m.group(4, 5): got.append(p); continue
                kind = ctx.F.adts[RE]['v'][int(m.group(1))]['n']
                g = (m.group(2), int(m.group(3)), 'R' if kind == 'Row' else 'D')
                if kind == 'Row' and (g[:2] not in order or not re.search(r'f_storage,%d\b' % order.index(g[:2]), m.group(6))): g = p
                got.append(g)
            if got != want: bad.append(got)
        ctx.ob(K, name, done and not bad and not live, f'versions {name} (newest first, + visible): expected {want}, scan yields {bad[:1] or "no end"}', ctx.loc(f))
        bade = [1 for s, items in done if s.g('perr') and not any(path(x).startswith('Result#1') for x in items)]
        ctx.ob(K, name + ':error', not bade, 'a projection error is dropped', ctx.loc(f))

# ------------------------------------------------------------------ concrete models used below
def conc_atomic(it, st, c):
    """one atomic integer with a known value"""
    r = c.args[0]
    if r[0] != 'r': return None
    cur = it.load(st, r[1], r[2])
    if cur is None or cur[0] != 'c': return None
    op = c.name.rsplit('::', 1)[-1]
    if op in ('fetch_update', 'try_update', 'update'):
        out = []
        for s, r2 in it.call_value(st, c.args[3], [cur], c.frame, c.bb):
            if op == 'update': it.store(s, r[1], r[2], r2); out.append((s, cur)); continue
            for s2, vi, w in it.split(s, r2, OPTION):
                if vi == 1: it.store(s2, r[1], r[2], w[3][0]); out.append((s2, ok(cur)))
                else: out.append((s2, err(cur)))
        return out
    a = [it.rd(st, x) for x in c.args[1:]]
    if op == 'load': return [(st, cur)]
    if op in ('store', 'swap'):
        it.store(st, r[1], r[2], a[0]); return [(st, cur if op == 'swap' else UNIT)]
    if a and a[0][0] != 'c' and op.startswith('fetch_'):
        it.store(st, r[1], r[2], mk(('call', op, (cur, it.deepval(st, a[0]))))); return [(st, cur)]
    f = {'fetch_add': lambda x, y: x + y, 'fetch_sub': lambda x, y: x - y, 'fetch_max': max, 'fetch_min': min}.get(op)
    if f: it.store(st, r[1], r[2], ('c', f(cur[1], a[0][1]))); return [(st, cur)]
    if op in ('compare_exchange', 'compare_exchange_weak'):
        if a[0] == cur: it.store(st, r[1], r[2], a[1]); return [(st, ok(cur))]
        return [(st, err(cur))]
    return None

def conc_once(it, st, c):
    """write-once cells as options"""
    op = c.name.rsplit('::', 1)[-1]
    if op == 'new': return [(st, NONE)]
    r = c.args[0]
    if r[0] != 'r': return None
    cur = it.load(st, r[1], r[2])
    if cur is None or cur[0] != 'e' or cur[1] != OPTION: return None
    if op == 'get': return [(st, NONE if cur[2] == 0 else some(('r', r[1], r[2] + (('v', 1, 'Some'), ('f', 0, '0')))))]
    if op == 'set':
        if cur[2] == 1: return [(st, err(c.args[1]))]
        it.store(st, r[1], r[2], some(it.deepval(st, c.args[1]))); return [(st, ok(UNIT))]
    return None

def skip_hooks(oninsert=None, existing=True):
    """the skip list as a list of entries in insertion order (keys distinct)"""
    def on(it, st, c):
        op = c.name.rsplit('::', 1)[-1]
        if op == 'new': return [(st, ('a', ()))]
        r = c.args[0]
        cur = it.rd(st, r)
        if cur[0] != 'a': return None
        if op == 'insert':
            k, v = it.deepval(st, c.args[1]), it.deepval(st, c.args[2])
            if oninsert: oninsert(it, st, k, v)
            if r[0] != 'r': return None
            while it.load(st, r[1], r[2])[0] == 'r': r = it.load(st, r[1], r[2])
            it.store(st, r[1], r[2], ('a', cur[1] + (('t', (k, v)),))); return [(st, mk(('call', 'entry', ())))]
        if op == 'is_empty': return [(st, TRUE if not cur[1] else FALSE)]
        if op == 'len': return [(st, ('c', len(cur[1])))]
        if op == 'range' and existing:
            s2 = st.copy()
            st.setg('ex', st.g('ex', '') + 'n'); s2.setg('ex', s2.g('ex', '') + 'o')
            return [(st, ('it', 'own', ('a', ()))), (s2, ('it', 'own', ('a', (('t', (arg('OLDK'), arg('OLDV'))),))))]
        if op in ('iter', 'into_iter'): return [(st, ('it', 'own', cur))]
        if op in ('front', 'back'): return [(st, some(cur[1][0 if op == 'front' else -1]) if cur[1] else NONE)]
        return None
    return [(r'SkipMap', on)]

def rowcount(n, tag='batch'):
    return (r'RecordBatch::num_rows$', lambda it, st, c: [(st, ('c', n))] if re.search(tag, path(it.deepval(st, c.args[0]))) else None)

def project_hook(it, st, c):
    """project_view(batch, rows): one key per requested row, or an error"""
    rows = it.deepval(st, c.args[2])
    if rows[0] != 'a': return None
    b = path(it.deepval(st, c.args[1]))
    s2 = st.copy(); s2.setg('perr', 1)
    return [(st, ok(('a', tuple(mk(('call', 'key', (it.deepval(st, c.args[0]), it.deepval(st, c.args[1]), x))) for x in rows[1])))), (s2, err(arg('PERR')))]

def mem_state(ctx, cur, cap, dcur=0, entries=()):
    st = State()
    MI, MX = ctx.adt('DynMemInner'), ctx.adt('MutableMemTableMetrics')
    used = lambda t, n: tuple(some(arg(f'{t}{i}')) if i < n else NONE for i in range(cap))
    v = struct(ctx, MI, index=('a', tuple(entries)), batch_slots=('a', used('B', cur)), batch_cursor=('c', cur),
               delete_slots=('a', used('D', dcur)), delete_cursor=('c', dcur),
               metrics=struct(ctx, MX, entries=('c', 0), inserts=('c', 0), replaces=('c', 0), approx_key_bytes=arg('KB'), entry_overhead=('c', 32)))
    r = Interp(ctx.F, CQ(exact=True)).tmp(st, 0, ('mem',), v)
    return st, r, v

def seen_slot(ctx, r, field):
    """at every index insert the row's slot must already hold its batch"""
    def on(it, st, k, v):
        p = path(v)
        m = re.search(r'Loc#0\{(\d+),(\d+)\}', p)
        sl = post(it, st, r, field)
        if not m or sl[0] != 'a' or int(m.group(1)) >= len(sl[1]) or sl[1][int(m.group(1))] == NONE: setw(st)
    return on

INGEST_CALLS = [(r'sync::atomic::Atomic', conc_atomic), (r'OnceLock', conc_once), (r'project_view$', project_hook),
                (r'(KeyRow|KeyViewRaw)::to_owned$', lambda it, st, c: [(st, it.deepval(st, c.args[0]))]), (r'ToOwned::to_owned$', lambda it, st, c: [(st, it.deepval(st, c.args[0]))]),
                (r'heap_size$', lambda it, st, c: [(st, arg('KS'))])]

@rule('I02', 'I06')
def ingest_rows(ctx):
    """inserting a batch stores it once and indexes every row under its key and its own commit timestamp, or changes nothing"""
    K = 'ingest_rows'
    for fname, kind in (('DynMemInner::try_insert_batch', 'Upsert'), ('DynMemInner::try_insert_delete_batch', 'Delete')):
        f = ctx.fn(MM + fname)
        up = kind == 'Upsert'
        slots, cursor = ('batch_slots', 'batch_cursor') if up else ('delete_slots', 'delete_cursor')
        for n in (0, 1, 2, 3):
            for cur, cap in ((0, 1), (0, 2), (1, 2), (1, 1), (2, 2)):
                st, r, v0 = mem_state(ctx, cur if up else 0, cap, 0 if up else cur)
                p0 = path(post(Interp(ctx.F, CQ(exact=True)), st, r))
                names = lambda it, st, c: [(st, ('a', (arg('F0'), arg('F1'))))]
                H = INGEST_CALLS + skip_hooks(seen_slot(ctx, r, slots)) + [rowcount(n),
                     (r'RecordBatch::num_columns$', lambda it, st, c: [(st, ('c', 2))]),
                     (r'Array::len$|PrimitiveArray.*::len$', lambda it, st, c: [(st, ('c', n))]),
                     (r'null_count$', lambda it, st, c: [(st, ('c', 0))]),
                     (r'Schema::fields$', lambda it, st, c: [(st, it.tmp(st, c.frame, ('flds', c.bb), ('a', (arg('F0'), arg('F1')))))]),
                     (r'Field::name$', lambda it, st, c: [(st, it.tmp(st, c.frame, ('fn', c.bb, path(it.deepval(st, c.args[0]))), ('s', '_commit_ts' if 'F1' in path(it.deepval(st, c.args[0])) else 'id')))]),
                     (r'RecordBatch::column$', lambda it, st, c: [(st, mk(('call', 'col', (it.deepval(st, c.args[0]), it.rd(st, c.args[1])))))]),
                     (r'as_any$', lambda it, st, c: [(st, c.args[0])]), (r'downcast_ref$', lambda it, st, c: [(st, some(c.args[0]))]),
                     (r'RecordBatch::try_new$', lambda it, st, c: [(st, ok(mk(('call', 'keybatch', (it.deepval(st, c.args[1]),)))))])]
                it, outs = ctx.run(f, CQ(exact=True, calls=H, max_states=600), args={'self': r}, st=st)
                where = ctx.loc(f)
                name = f'{kind}:{n} rows, slot {cur} of {cap}'
                full = n > 0 and cur >= cap
                seen = set()
                for o in outs:
                    p1 = path(post(it, o.st, r))
                    for s, vi, w in it.split(o.st, it.rd(o.st, o.v), RESULT):
                        inner = None if vi == 1 else it.rd(s, w[3][0])
                        tag = 'full' if vi == 1 else ('err' if inner[2] == 1 else 'ok')
                        seen.add(tag)
                        if tag != 'ok':
                            ctx.ob(K, name + ':' + tag + '-unchanged', p1 == p0, f'{name}: a rejected batch changes the memtable', where)
                            ctx.ob(K, name + ':' + tag + '-cause', (tag == 'err') == bool(s.g('perr')), f'{name}: wrong outcome {tag} for {"an invalid" if s.g("perr") else "a valid"} batch', where)
                            if tag == 'err': ctx.ob(K, name + ':err-kept', 'PERR' in path(it.deepval(s, inner)), f'{name}: the projection error is replaced', where)
                            continue
                        ctx.ob(K, name + ':accepted', not s.g('perr'), f'{name}: an invalid batch is accepted', where)
                        idx, sl, cu = post(it, s, r, 'index'), post(it, s, r, slots), post(it, s, r, cursor)
                        ent = sorted(path(x) for x in idx[1]) if idx[0] == 'a' else None
                        keyp = 'extractor,batch' if up else 'delete_projection,batch'
                        want = [r'\(KeyTsOwned#0\{key\(%s,%d\),Timestamp#0\{\S*value\(%s,%d\)\}\},DynMutation#%d\{\w*RowLoc#0\{%d,%d\}\}\)' % (keyp, i, 'commit_ts_column' if up else r'col\(batch,1\)\S*', i, 0 if up else 1, cur, i) for i in range(n)]
                        good = ent is not None and len(ent) == n and all(re.fullmatch(w_, e) for w_, e in zip(want, ent))
                        ctx.ob(K, name + ':index', good, f'{name}: index entries {ent}, expected one entry per row with its own key, timestamp and location', where)
                        if n:
                            sv = path(sl[1][cur])
                            good = re.search(r'\{batch,commit_ts_column\}', sv) if up else re.search(r'keybatch\(\[col\(batch,0\)\S*\]\)\S*,\S*col\(batch,1\)', sv)
                            ctx.ob(K, name + ':slot', cu == ('c', cur + 1) and good and all(x == y for j, (x, y) in enumerate(zip(sl[1], post(it, s, ('e',) + v0[1:], slots)[1])) if j != cur), f'{name}: slots {path(sl)}, cursor {path(cu)}', where)
                            ctx.ob(K, name + ':slot-first', s.g('w') != 'fail', f'{name}: an index entry is published before its slot holds the batch', where)
                        else:
                            ctx.ob(K, name + ':empty', p1 == p0, f'{name}: an empty batch consumes a slot', where)
                        mt = post(it, s, r, 'metrics')
                        e, i_, rp = (post(it, s, mt, x) for x in ('entries', 'inserts', 'replaces'))
                        ctx.ob('ingest_metrics', name, i_ == ('c', n) and e == ('c', s.g('ex', '').count('n')) and rp == ('c', s.g('ex', '').count('o')), f'{name}: {n} writes recorded as entries {path(e)}, inserts {path(i_)}, replaces {path(rp)}', where)
                want = {'ok'} if not full else {'full'}
                ctx.ob(K, name + ':outcomes', want <= seen and ('err' in seen or n == 0) and not (full and 'ok' in seen) and not (not full and 'full' in seen), f'{name}: outcomes {sorted(seen)}', where)

@rule('I02')
def ingest_reject(ctx):
    """a delete batch without usable commit timestamps is rejected and changes nothing"""
    K = 'ingest_reject'
    f = ctx.fn(MM + 'DynMemInner::try_insert_delete_batch')
    n = 2
    for what in ('no commit column', 'commit column of another type', 'commit column too short', 'commit column too long', 'null timestamp', 'keys do not form a batch', 'fine'):
        st, r, v0 = mem_state(ctx, 0, 2)
        p0 = path(post(Interp(ctx.F, CQ(exact=True)), st, r))
        ln = {'commit column too short': n - 1, 'commit column too long': n + 1}.get(what, n)
        H = INGEST_CALLS + skip_hooks() + [rowcount(n),
             (r'RecordBatch::num_columns$', lambda it, st, c: [(st, ('c', 2))]),
             (r'Array::len$|PrimitiveArray.*::len$', lambda it, st, c: [(st, ('c', ln))]),
             (r'null_count$', lambda it, st, c: [(st, ('c', 1 if what == 'null timestamp' else 0))]),
             (r'(is_null|is_valid)$', lambda it, st, c: [(st, TRUE if (what == 'null timestamp') == c.name.endswith('is_null') else FALSE)]),
             (r'Schema::fields$', lambda it, st, c: [(st, it.tmp(st, c.frame, ('flds', c.bb), ('a', (arg('F0'), arg('F1')))))]),
             (r'Field::name$', lambda it, st, c: [(st, it.tmp(st, c.frame, ('fn', c.bb, path(it.deepval(st, c.args[0]))), ('s', '_commit_ts' if what != 'no commit column' and 'F1' in path(it.deepval(st, c.args[0])) else 'id')))]),
             (r'RecordBatch::column$', lambda it, st, c: [(st, mk(('call', 'col', (it.deepval(st, c.args[0]), it.rd(st, c.args[1])))))]),
             (r'as_any$', lambda it, st, c: [(st, c.args[0])]), (r'downcast_ref$', lambda it, st, c: [(st, NONE if what == 'commit column of another type' else some(c.args[0]))]),
             (r'RecordBatch::try_new$', lambda it, st, c: [(st, err(arg('TN')) if what == 'keys do not form a batch' else ok(arg('KBATCH')))])]
        it, outs = ctx.run(f, CQ(exact=True, calls=H, max_states=600), args={'self': r}, st=st)
        bad = []
        for o in outs:
            if o.st.g('perr'): continue
            v = it.deepval(o.st, o.v)
            rejected = v[0] == 'e' and v[2] == 0 and v[3][0][0] == 'e' and v[3][0][2] == 1
            if rejected != (what != 'fine'): bad.append(path(v))
            elif rejected and path(post(it, o.st, r)) != p0: bad.append('memtable changed')
        ctx.ob(K, what, outs and not bad, f'delete batch with {what}: {bad[:2]}', ctx.loc(f))

@rule('I02', 'I03')
def ingest_wrappers(ctx):
    """inserts validate first; a full memtable is sealed, handed back to the caller, and the insert repeated on the fresh one"""
    K = 'ingest_wrappers'
    for fname, tried in (('DynMem::insert_batch', 'try_insert_batch'), ('DynMem::insert_batch_with_mvcc', 'try_insert_batch'), ('DynMem::insert_delete_batch', 'try_insert_delete_batch')):
        f = ctx.fn(MM + fname)
        def trial(it, st, c):
            out = []
            a = ','.join(path(it.deepval(st, x)) for x in c.args[1:])
            for t, v in (('ok', ok(ok(UNIT))), ('err', ok(err(arg('TERR')))), ('full', err(UNIT))):
                s = st.copy(); s.setg('log', s.g('log', ()) + ((t, a),)); out.append((s, v))
            return out
        def seal(it, st, c):
            out = []
            for t, v in (('some', ok(some(arg('SEALED')))), ('none', ok(NONE)), ('serr', err(arg('SERR')))):
                s = st.copy(); s.setg('log', s.g('log', ()) + ((t, ''),)); out.append((s, v))
            return out
        for pre in ('fine', 'bad schema', 'short timestamps', 'long timestamps', 'null timestamp'):
            if pre == 'bad schema' and fname.endswith('with_mvcc'): continue
            if 'timestamp' in pre and not fname.endswith('with_mvcc'): continue
            n = 2
            H = [(r'validate_schema$', lambda it, st, c: [(st, err(arg('VERR')) if pre == 'bad schema' else ok(UNIT))]),
                 (r'DynMemInner::try_insert_(delete_)?batch$', trial), (r'DynMemInner::seal$', seal), rowcount(n),
                 (r'Array::len$|PrimitiveArray.*::len$', lambda it, st, c: [(st, ('c', {'short timestamps': 1, 'long timestamps': 3}.get(pre, n)))]),
                 (r'null_count$', lambda it, st, c: [(st, ('c', 1 if pre == 'null timestamp' else 0))]),
                 (r'(is_null|is_valid)$', lambda it, st, c: [(st, TRUE if (pre == 'null timestamp') == c.name.endswith('is_null') else FALSE)])]
            it, outs = ctx.run(f, CQ(exact=True, calls=H, max_states=600))
            seen = set(); bad = []
            for o in outs:
                log = o.st.g('log', ())
                tags = '-'.join(t for t, _ in log)
                v = path(it.deepval(o.st, o.v))
                seen.add(tags)
                if pre != 'fine':
                    if tags or not v.startswith('Result#1'): bad.append((tags, v))
                    continue
                want = {'ok': r'Result#0\{Option#0\}', 'err': r'Result#1\{TERR\}', 'full-serr': r'Result#1\{.*SERR.*\}', 'full-some-ok': r'Result#0\{Option#1\{SEALED\}\}', 'full-none-ok': r'Result#0\{Option#0\}',
                        'full-some-err': r'Result#1\{TERR\}', 'full-none-err': r'Result#1\{TERR\}', 'full-some-full': r'Result#1.*', 'full-none-full': r'Result#1.*'}.get(tags)
                if want is None or not re.fullmatch(want, v): bad.append((tags, v))
                ins = [a for t, a in log if t in ('ok', 'err', 'full')]
                proj = 'delete_projection' if 'delete' in tried else 'extractor'
                if len(set(ins)) != 1 or not re.match(r'self\.%s\S*,batch\b' % proj, ins[0]): bad.append(ins)
                elif fname.endswith('with_mvcc') and not ins[0].endswith(',commit_ts_column'): bad.append(ins)
                elif fname.endswith('insert_batch') and not re.search(r',\S*\[commit_ts\S*,commit_ts[^,]*\]', ins[0]): bad.append(ins)
            ctx.ob(K, f'{fname}:{pre}', outs and not bad and (pre != 'fine' or {'ok', 'err', 'full-serr', 'full-some-ok'} <= seen), f'{fname} ({pre}): {bad[:2] or sorted(seen)}', ctx.loc(f))

def batch_rows(v):
    """rows of a batch term built by slice / concat / new_empty: [(source, row)] or None"""
    t = v[1] if v[0] in ('y', 'p') else None
    p = path(v)
    m = re.fullmatch(r'slice\((.*),(\d+),1\)', p)
    if m: return [(m.group(1), int(m.group(2)))]
    if p.startswith('empty('): return []
    m = re.fullmatch(r'concat\(([^,]*),\[(.*)\]\)', p)
    if m:
        out = []
        for x in re.findall(r'slice\(([^,()]*),(\d+),(\d+)\)', m.group(2)):
            if x[2] != '1': return None
            out.append((x[0], int(x[1])))
        return out
    return None

def batch_hooks():
    def ref_slice(it, st, c): return [(st, mk(('call', 'slice', tuple(it.deepval(st, a) for a in c.args))))]
    def concat(it, st, c):
        s2 = st.copy(); s2.setg('aerr', 1)
        return [(st, ok(mk(('call', 'concat', tuple(it.deepval(st, a) for a in c.args[:2]))))), (s2, err(arg('AERR')))]
    def rows(it, st, c):
        r = batch_rows(it.deepval(st, c.args[0]))
        return None if r is None else [(st, ('c', len(r)))]
    return [(r'RecordBatch::slice$', ref_slice), (r'concat_batches$', concat), (r'RecordBatch::num_rows$', rows),
            (r'RecordBatch::new_empty$', lambda it, st, c: [(st, mk(('call', 'empty', (it.deepval(st, c.args[0]),))))])]

def map_append():
    """ordered map of distinct keys: inserts append"""
    def on(it, st, c):
        r = c.args[0]
        if r[0] != 'r': return None
        cur = it.load(st, r[1], r[2])
        if cur is None or cur[0] not in ('a', 'coll') or cur[0] == 'coll' and cur[1] is not None: return None
        es = cur[1] if cur[0] == 'a' else ()
        it.store(st, r[1], r[2], ('a', es + (('t', (it.deepval(st, c.args[1]), it.deepval(st, c.args[2]))),)))
        return [(st, NONE)]
    return [(r'BTreeMap.*::insert$', on)]

@rule('I03')
def seal_keeps_all(ctx):
    """sealing moves every version - rows and tombstones - into the immutable segment with its key and timestamp, and leaves an empty memtable"""
    K = 'seal_keeps_all'
    f = ctx.fn(MM + 'DynMemInner::seal')
    ML, KT, UP, DL = 'crate::mutation::DynMutation', ctx.adt('ts::KeyTsOwned'), ctx.adt('BatchRowLoc'), ctx.adt('DeleteRowLoc')
    locs = [(0, 1), (1, 0), (0, 0), (1, 2)]
    for n in range(5):
        for kinds in itertools.product('RD', repeat=n):
            ents = []
            for i, k in enumerate(kinds):
                b, r_ = locs[i]
                m = enum(ctx, ML, 'Upsert', struct(ctx, UP, batch_idx=('c', b), row_idx=('c', r_))) if k == 'R' else enum(ctx, ML, 'Delete', struct(ctx, DL, batch_idx=('c', b), row_idx=('c', r_)))
                ents.append(('t', (struct(ctx, KT, key=arg(f'K{i}'), ts=arg(f'T{i}')), m)))
            st, r, v0 = mem_state(ctx, 2, 2, 2, ents)
            p0 = path(post(Interp(ctx.F, CQ(exact=True)), st, r))
            H = [(r'sync::atomic::Atomic', conc_atomic), (r'OnceLock', conc_once), (r'project_view$', project_hook),
                 (r'projection_for_columns$', lambda it, st, c: [(st, ok(mk(('call', 'identity', (it.deepval(st, c.args[1]),)))))]),
                 (r'key_schema$', lambda it, st, c: [(st, arg('KSCHEMA'))]), (r'Schema::fields$', lambda it, st, c: [(st, it.tmp(st, c.frame, ('flds', c.bb), ('a', (arg('F0'),))))] if 'KSCHEMA' in path(it.deepval(st, c.args[0])) else None)] + skip_hooks() + batch_hooks() + map_append()
            q = CQ(exact=True, calls=H, max_states=600, rels=[(r'value\(', r'^T\d', '='), (r'value\(', r'value\(', '=')])
            it, outs = ctx.run(f, q, args={'self': r}, st=st)
            name = ''.join(kinds) or 'empty'
            where = ctx.loc(f)
            done = 0
            for o in outs:
                for s, vi, w in it.split(o.st, it.rd(o.st, o.v), RESULT):
                    if vi == 1:
                        ctx.ob(K, name + ':error', s.g('perr') or s.g('aerr'), f'sealing {name} fails without cause: {path(it.deepval(s, w))}', where); continue
                    if s.g('perr') or s.g('aerr'):
                        ctx.ob(K, name + ':swallowed', False, f'sealing {name}: an arrow error is swallowed', where); continue
                    done += 1
                    ov = it.deepval(s, w[3][0])
                    if not n:
                        ctx.ob(K, 'empty:none', ov == NONE and path(post(it, s, r)) == p0, 'sealing an empty memtable must yield nothing and change nothing', where); continue
                    if ov == NONE:
                        ctx.ob(K, name + ':some', False, f'sealing {name} yields no segment', where); continue
                    t = ov[3][0]
                    stor, idx = post(it, s, t, 'storage'), post(it, s, t, 'index')
                    mv, dl = post(it, s, t, 'mvcc'), post(it, s, t, 'deletes')
                    ups = [i for i in range(n) if kinds[i] == 'R']; dels = [i for i in range(n) if kinds[i] == 'D']
                    got = batch_rows(stor)
                    ctx.ob(K, name + ':rows', got == [(f'B{locs[i][0]}.storage', locs[i][1]) for i in ups], f'sealing {name}: stored rows {path(stor)}', where)
                    tsok = lambda p, i: p in (f'T{i}', f'Timestamp#0{{value({"B" if kinds[i] == "R" else "D"}{locs[i][0]}.commit_ts,{locs[i][1]})}}')
                    cts = [path(x) for x in post(it, s, mv, 'commit_ts')[1] or ()]
                    tomb = post(it, s, mv, 'tombstone')
                    ctx.ob(K, name + ':row-timestamps', len(cts) == len(ups) and all(tsok(p, i) for p, i in zip(cts, ups)), f'sealing {name}: row timestamps {cts}', where)
                    ctx.ob(K, name + ':row-tombstones', len(tomb[1] or ()) == len(ups) and all(x == FALSE for x in tomb[1] or ()), f'sealing {name}: tombstone flags {path(tomb)}', where)
                    dk = post(it, s, dl, 'keys'); dts = [path(x) for x in post(it, s, dl, 'commit_ts')[1] or ()]
                    ctx.ob(K, name + ':deletes', batch_rows(dk) == [(f'D{locs[i][0]}.keys', locs[i][1]) for i in dels] and len(dts) == len(dels) and all(tsok(p, i) for p, i in zip(dts, dels)), f'sealing {name}: delete sidecar {path(dk)} at {dts}', where)
                    es = [path(x) for x in idx[1]] if idx[0] == 'a' else [path(idx)]
                    bad = []
                    rowp, delp = path(stor), path(dk)
                    for i in range(n):
                        j = (ups if kinds[i] == 'R' else dels).index(i)
                        pre = f'(KeyTsViewRaw#0{{key(extractor,{rowp},{j}),' if kinds[i] == 'R' else f'(KeyTsViewRaw#0{{key(identity([0]),{delp},{j}),'
                        suf = f'}},ImmutableIndexEntry#0{{{j}}})' if kinds[i] == 'R' else '},ImmutableIndexEntry#1{})'
                        if not any(e.startswith(pre) and (e.endswith(suf) or e.endswith(suf.replace('{}', ''))) and tsok(e[len(pre):len(e) - len(suf if e.endswith(suf) else suf.replace('{}', ''))], i) for e in es): bad.append(i)
                    ctx.ob(K, name + ':index', len(es) == n and not bad, f'sealing {name}: no index entry for versions {bad}; index {es}', where)
                    fresh = [path(post(it, s, r, x)) for x in ('index', 'batch_slots', 'batch_cursor', 'delete_slots', 'delete_cursor')]
                    ctx.ob(K, name + ':reset', fresh[0] in ('[]', 'coll[]') and fresh[1:] == ['[Option#0,Option#0]', '0'] * 2, f'sealing {name} leaves {fresh}', where)
            ctx.ob(K, name + ':reachable', done, f'sealing {name} never succeeds', where)

# ------------------------------------------------------------------ ranges, pruning, conflicts, policies
class RankQ(CQ):
    """unknowns named K<n>/T<n>/READ<n> are ordered by their number"""
    def rel(self, it, st, a, b):
        if a[0] != 'u' and b[0] != 'u':
            pa, pb = path(a), path(b)
            ma, mb = (re.fullmatch(r'([KTW])(\d+)(?:x\w*)?(?:\.\w+)*', x) for x in (pa, pb))
            if ma and mb and ma.group(1) == mb.group(1):
                x, y = int(ma.group(2)), int(mb.group(2))
                return frozenset('<' if x < y else '>' if x > y else '=')
        return CQ.rel(self, it, st, a, b)

TOOWN = [(r'(KeyRow|KeyViewRaw)::to_owned$|ToOwned::to_owned$', lambda it, st, c: [(st, it.deepval(st, c.args[0]))])]
BOUND = 'core::ops::range::Bound'

def bound(F, kind, k=None):
    vs = [v['n'] for v in F.adts[BOUND]['v']]
    return ('e', BOUND, vs.index(kind), () if k is None else (k,))

def bound_text(ctx, which, kind, kt):
    ts = {('lower', 'Included'): 'MAX', ('lower', 'Excluded'): 'MIN', ('upper', 'Included'): 'MIN', ('upper', 'Excluded'): 'MAX'}.get((which, kind))
    return None if ts is None else (kind, ts)

MAXTS = {str(2**64 - 1), 'MAX', 'Timestamp::MAX'}
MINTS = {'0', 'MIN', 'Timestamp::MIN'}
def parse_bound(ctx, v):
    """('Included'|'Excluded'|'Unbounded', key, 'MIN'|'MAX'|other)"""
    if v[0] != 'e' or v[1] != BOUND: return ('?', path(v), '')
    k = ctx.F.adts[BOUND]['v'][v[2]]['n']
    if k == 'Unbounded': return (k, '', '')
    m = re.fullmatch(r'KeyTs\w+#0\{(?:\w+\()?(\w+?)\)?,(?:Timestamp#0\{)?(\w+)\}?\}', path(v[3][0]))
    if not m: return (k, path(v[3][0]), '')
    return (k, m.group(1), 'MAX' if m.group(2) in MAXTS else 'MIN' if m.group(2) in MINTS else m.group(2))

@rule('I01')
def range_bounds(ctx):
    """a range scan covers every version of exactly the keys inside the range, and starts in a clean state at the requested snapshot"""
    K = 'range_bounds'
    for side, fname, full in (('mutable', MM + 'DynMemInner::scan_visible_in_range', MM + 'DynMemInner::scan_visible'), ('immutable', IM + 'ImmutableMemTable::scan_visible_in_range', IM + 'ImmutableMemTable::scan_visible')):
        f = ctx.fn(fname)
        def hooks(cap):
            def rng(it, st, c):
                v = it.deepval(st, c.args[1]); st.setg('range', v); return [(st, ('it', 'own', mk(('call', 'RANGE', ()))))]
            def itr(it, st, c):
                st.setg('range', 'all'); return [(st, ('it', 'own', mk(('call', 'ALL', ()))))]
            def proj(it, st, c):
                st.setg('proj', (path(it.deepval(st, c.args[0])), path(it.deepval(st, c.args[1])))); return [(st, ok(arg('PROJ')))]
            return [(r'(SkipMap|BTreeMap).*::range$', rng), (r'(SkipMap|BTreeMap).*::iter$', itr), (r'KeyRow::from_owned$', lambda it, st, c: [(st, ok(mk(('call', 'kr', (it.deepval(st, c.args[0]),)))))]), (r'DynProjection::from_schema$', proj)]
        kinds = ('Included', 'Excluded', 'Unbounded')
        for a in kinds:
            for b in kinds:
                args = {'projection_schema': some(arg('PS')), 'start': bound(ctx.F, a, None if a == 'Unbounded' else arg('KS')), 'end': bound(ctx.F, b, None if b == 'Unbounded' else arg('KE'))}
                it, outs = ctx.run(f, CQ(exact=True, calls=hooks(None)), args=args)
                bad = []; n = 0
                for o in outs:
                    for s, vi, w in it.split(o.st, it.rd(o.st, o.v), RESULT):
                        if vi == 1: continue
                        n += 1
                        g = s.g('range')
                        if g == 'all': got = (('Unbounded', '', ''), ('Unbounded', '', ''))
                        elif g and g[0] == 't': got = (parse_bound(ctx, g[1][0]), parse_bound(ctx, g[1][1]))
                        else: got = (path(g) if g else None,)
                        want = (('Unbounded', '', '') if a == 'Unbounded' else (a, 'KS', 'MAX' if a == 'Included' else 'MIN'),
                                ('Unbounded', '', '') if b == 'Unbounded' else (b, 'KE', 'MIN' if b == 'Included' else 'MAX'))
                        if got != want: bad.append(f'index range {got}')
                        scan = it.rd(s, w[3][0])
                        if path(post(it, s, scan, 'read_ts')) != 'read_ts': bad.append('snapshot not passed on')
                        if post(it, s, scan, 'current_key') != NONE or post(it, s, scan, 'emitted_for_key') != FALSE: bad.append('scan does not start clean')
                        pr = s.g('proj')
                        if not pr or pr[1] != 'PS': bad.append(f'projection {pr}')
                ctx.ob(K, f'{side}:{a},{b}', n and not bad, f'{side} range scan ({a} start, {b} end): {bad[:2]}', ctx.loc(f))
        f = ctx.fn(full)
        it, outs = ctx.run(f, CQ(exact=True, calls=hooks(None)))
        bad = []; n = 0
        for o in outs:
            for s, vi, w in it.split(o.st, it.rd(o.st, o.v), RESULT):
                if vi == 1: continue
                n += 1
                if s.g('range') != 'all' and not (s.g('range') and s.g('range')[0] == 't' and all(parse_bound(ctx, x)[0] == 'Unbounded' for x in s.g('range')[1])): bad.append(f'scans {s.g("range")}')
                if path(post(it, s, it.rd(s, w[3][0]), 'read_ts')) != 'read_ts': bad.append('snapshot not passed on')
        ctx.ob(K, f'{side}:full', n and not bad, f'{side} full scan: {bad[:2]}', ctx.loc(f))

def range_arg(ctx, v):
    """bounds of a Range/RangeInclusive/(Bound, Bound) argument"""
    if v[0] == 't': return tuple(parse_bound(ctx, x) for x in v[1])
    if v[0] == 'e' and 'range::RangeInclusive' in v[1]: return tuple(parse_bound(ctx, bound(ctx.F, 'Included', x)) for x in v[3][:2])
    return (path(v),)

@rule('I05', 'T01')
def conflict_detection(ctx):
    """a key conflicts exactly when the memtable holds a version of it newer than the snapshot"""
    K = 'conflict_detection'
    for side, fname in (('mutable', MM + 'DynMemInner::has_conflict'), ('immutable', IM + 'ImmutableMemTable::has_conflict')):
        f = ctx.fn(fname)
        KT = ctx.adt('ts::KeyTsOwned' if side == 'mutable' else 'ts::KeyTsViewRaw')
        for n in range(4):
            for newer in range(n + 1):
                ents = [('t', (struct(ctx, KT, key=arg('K0'), ts=arg(f'T{9 - i if i < newer else 5 - (i - newer)}')), arg(f'M{i}'))) for i in range(n)]
                st, mi = mapiter(ctx, ents)
                def rng(it, st, c):
                    st.setg('range', it.deepval(st, c.args[1]))
                    return [(st, mi if side == 'immutable' else ('it', 'own', ('a', tuple(ents))))]
                q = RankQ(exact=True, calls=entry_hooks() + [(r'(SkipMap|BTreeMap).*::range$', rng), (r'KeyRow::from_owned$', lambda it, st, c: [(st, ok(mk(('call', 'kr', (it.deepval(st, c.args[0]),)))))])])
                it, outs = ctx.run(f, q, args={'snapshot_ts': arg('T5')}, st=st)
                got = sorted({path(it.deepval(o.st, o.v)) for o in outs})
                want = ['true'] if newer else ['false']
                ctx.ob(K, f'{side}:{newer} of {n} newer', [x.lower() for x in got] in (want, ['1'] if newer else ['0']), f'{side} memtable with {newer} of {n} versions newer than the snapshot (the next one exactly at it): has_conflict = {got}', ctx.loc(f))
                rs = {range_arg(ctx, o.st.g('range')) if o.st.g('range') else None for o in outs}
                ctx.ob(K, f'{side}:{newer} of {n} range', rs == {(('Included', 'key', 'MAX'), ('Included', 'key', 'MIN'))}, f'{side} memtable looks at {rs} instead of all versions of the key', ctx.loc(f))

@rule('I04')
def segment_bounds(ctx):
    """the key and timestamp bounds of a memtable enclose every version in it, tombstones included"""
    K = 'segment_bounds'
    KT, KV, TB, MV, DS, MI, IE, ML = ctx.adt('ts::KeyTsOwned'), ctx.adt('ts::KeyTsViewRaw'), ctx.adt('ImmutableMemTable'), ctx.adt('MvccColumns'), ctx.adt('DeleteSidecar'), ctx.adt('DynMemInner'), ctx.adt('ImmutableIndexEntry'), 'crate::mutation::DynMutation'
    for n in range(4):
        for ts in itertools.product(range(3), repeat=n):
            for kinds in itertools.product('RD', repeat=n):
                st, r, v = segment(ctx, [(i + 1, t, k) for i, (t, k) in enumerate(zip(ts, kinds))])
                f = ctx.fn(IM + 'ImmutableMemTable::commit_ts_bounds')
                it, outs = ctx.run(f, RankQ(exact=True, calls=TOOWN), args={'self': r}, st=st)
                name = ''.join(f'{k}{t}' for t, k in zip(ts, kinds)) or 'empty'
                want = 'Option#0' if not n else f'Option#1{{(T{min(ts)},T{max(ts)})}}'
                got = sorted({re.sub(r'x\d+', '', path(it.deepval(o.st, o.v))) for o in outs})
                ctx.ob(K, f'sealed:{name}', got == [want], f'versions {name}: timestamp bounds {got}, expected {want}', ctx.loc(f))
    for n in range(4):
        for ts in itertools.product(range(3), repeat=n):
            ents = [('t', (struct(ctx, KT, key=arg(f'K{i + 1}'), ts=arg(f'T{t}x{i}')), arg('M'))) for i, t in enumerate(ts)]
            st, r, v = mem_state(ctx, 0, 2, 0, ents)
            q = lambda: RankQ(exact=True, calls=entry_hooks() + skip_hooks() + TOOWN)
            name = ''.join(map(str, ts)) or 'empty'
            f = ctx.fn(MM + 'DynMemInner::commit_ts_bounds')
            it, outs = ctx.run(f, q(), args={'self': r}, st=st.copy())
            want = 'Option#0' if not n else f'Option#1{{(T{min(ts)},T{max(ts)})}}'
            got = sorted({re.sub(r'x\d+', '', path(it.deepval(o.st, o.v))) for o in outs})
            ctx.ob(K, f'open:{name}', got == [want], f'versions {name}: timestamp bounds {got}, expected {want}', ctx.loc(f))
            f = ctx.fn(MM + 'DynMemInner::key_bounds')
            it, outs = ctx.run(f, q(), args={'self': r}, st=st.copy())
            got = sorted({path(it.deepval(o.st, o.v)) for o in outs})
            want = '(Option#0,Option#0)' if not n else f'(Option#1{{K1}},Option#1{{K{n}}})'
            ctx.ob(K, f'open-keys:{name}', got == [want], f'{n} keys: key bounds {got}, expected {want}', ctx.loc(f))
    for n in range(4):
        st, r, v = segment(ctx, [(i + 1, 1, 'R') for i in range(n)])
        for fn, want in (('min_key', 1), ('max_key', n)):
            f = ctx.fn(IM + 'ImmutableMemTable::' + fn)
            it, outs = ctx.run(f, RankQ(exact=True, calls=TOOWN), args={'self': r}, st=st.copy())
            got = sorted({re.sub(r'x\d+', '', path(it.deepval(o.st, o.v))) for o in outs})
            w = 'Option#0' if not n else f'Option#1{{K{want}}}'
            ctx.ob(K, f'sealed:{fn}:{n}', got == [w], f'{fn} of {n} keys is {got}', ctx.loc(f))

def segment(ctx, vers, st=None, tag=0):
    """immutable segment holding (key rank, ts rank, kind) versions"""
    KV, TB, MV, DS, IE = ctx.adt('ts::KeyTsViewRaw'), ctx.adt('ImmutableMemTable'), ctx.adt('MvccColumns'), ctx.adt('DeleteSidecar'), ctx.adt('ImmutableIndexEntry')
    st = st or State()
    ups = [x for x in vers if x[2] == 'R']; dels = [x for x in vers if x[2] == 'D']
    ents = []
    for i, (k, t, kind) in enumerate(vers):
        e = enum(ctx, IE, 'Row', ('c', ups.index((k, t, kind)))) if kind == 'R' else enum(ctx, IE, 'Delete')
        ents.append(('t', (struct(ctx, KV, key=arg(f'K{k}'), ts=arg(f'T{t}')), e)))
    v = struct(ctx, TB, index=('a', tuple(ents)), mvcc=struct(ctx, MV, commit_ts=('a', tuple(arg(f'T{t}') for k, t, _ in ups)), tombstone=('a', (FALSE,) * len(ups))),
               deletes=struct(ctx, DS, commit_ts=('a', tuple(arg(f'T{t}') for k, t, _ in dels))))
    return st, Interp(ctx.F, CQ(exact=True)).tmp(st, 0, ('seg', tag), v), v

def key_bounds_val(ctx, lo, hi, empty=False):
    KB, B1 = ctx.adt('KeyBounds'), ctx.adt('KeyBound')
    one = lambda x: NONE if x is None else some(struct(ctx, B1, key=arg(f'K{x[0]}'), inclusive=TRUE if x[1] else FALSE))
    return struct(ctx, KB, lower=one(lo), upper=one(hi), empty=TRUE if empty else FALSE)

@rule('I04')
def segment_pruning(ctx):
    """a segment that holds a version inside the key range and visible at the snapshot is never skipped"""
    K = 'segment_pruning'
    f = ctx.fn('crate::inmem::immutable::prune_segments')
    bnds = [None] + [(lo, hi) for lo in (None, (2, True), (2, False)) for hi in (None, (4, True), (4, False))] + [((3, True), (3, True))]
    segs = [[], [(1, 5, 'R')], [(2, 5, 'R')], [(3, 5, 'D')], [(4, 5, 'R')], [(5, 5, 'D')], [(2, 7, 'R'), (4, 3, 'R')], [(1, 7, 'R'), (5, 5, 'D')], [(2, 7, 'D'), (3, 9, 'R')], [(1, 5, 'D'), (2, 9, 'R')], [(3, 5, 'R'), (6, 5, 'R')], [(0, 5, 'R'), (3, 5, 'D')], [(4, 4, 'D'), (6, 9, 'R')]]
    for bi, b in enumerate(bnds):
        inb = lambda k: b is None or (b[0] is None or k > b[0][0] or k == b[0][0] and b[0][1]) and (b[1] is None or k < b[1][0] or k == b[1][0] and b[1][1])
        for si in range(len(segs)):
            group = [segs[si], segs[(si + 3) % len(segs)], segs[(si + 7) % len(segs)]]
            st = State(); refs = []
            for gi, g in enumerate(group):
                st, r, _ = segment(ctx, g, st, gi); refs.append(r)
            kb = NONE
            tmp = Interp(ctx.F, CQ(exact=True)).tmp
            if b is not None: kb = some(tmp(st, 0, ('kb',), key_bounds_val(ctx, *b)))
            arr = tmp(st, 0, ('segs',), ('a', tuple(refs)))
            it, outs = ctx.run(f, RankQ(exact=True, calls=TOOWN, max_states=400), args={'segments': arr, 'key_bounds': kb, 'read_ts': arg('T5')}, st=st)
            need = [i for i, g in enumerate(group) if any(inb(k) and t <= 5 for k, t, _ in g)]
            bad = []
            for o in outs:
                v = it.deepval(o.st, o.v)
                got = [x[1] for x in v[1]] if v[0] == 'a' and all(x[0] == 'c' for x in v[1]) else None
                if v[0] == 'coll' and v[1] is None: got = []
                if got is None or any(i not in got for i in need) or len(set(got)) != len(got) or any(i >= 3 for i in got): bad.append(path(v))
            ctx.ob(K, f'bounds {bi}, segments {si}', outs and not bad, f'key range {b}, snapshot 5, segments (key, ts, kind) {group}: must read {need}, reads {bad[:1]}', ctx.loc(f))

@rule('I06')
def seal_policies(ctx):
    """every seal policy fires exactly from its limit on, and statistics count what was written"""
    K = 'seal_policies'
    MS = ctx.adt('policy::MemStats')
    def ev(ty, selfv, stats, extra=()):
        f = ctx.impl('SealPolicy', ty, 'evaluate')
        it, outs = ctx.run(f, CQ(exact=True, calls=list(extra)), args={0: selfv, 1: stats})
        return f, sorted({path(it.deepval(o.st, o.v)) for o in outs})
    c = lambda n: ('c', n)
    def fires(name, ty, selfv, stats, want, extra=()):
        f, got = ev(ty, selfv, stats, extra)
        good = got and all(g.startswith('SealDecision#1') == want for g in got)
        ctx.ob(K, name, good, f'{ty} with {name}: {got}, expected {"seal" if want else "no seal"}', ctx.loc(f))
    for kb, e, o, lim in ((10, 0, 32, 11), (10, 0, 32, 10), (10, 2, 32, 74), (10, 2, 32, 75), (0, 3, 4, 12), (0, 0, 32, 1), (100, 1, 1, 50)):
        fires(f'key bytes {kb}, {e} entries of overhead {o}, limit {lim}', 'BytesThreshold', struct(ctx, ctx.adt('BytesThreshold'), limit=c(lim)), struct(ctx, MS, approx_key_bytes=c(kb), entries=c(e), entry_overhead=c(o)), kb + e * o >= lim)
    for ty, fld_, own in (('OpenRowsThreshold', 'typed_open_rows', 'rows'), ('BatchesThreshold', 'dyn_batches', 'batches')):
        for x in (None, 4, 5, 6):
            fires(f'{fld_} {x}, limit 5', ty, struct(ctx, ctx.adt(ty), **{own: c(5)}), struct(ctx, MS, **{fld_: NONE if x is None else some(c(x))}), x is not None and x >= 5)
    for x in (None, '<', '=', '>'):
        f = ctx.impl('SealPolicy', 'TimeElapsedPolicy', 'evaluate')
        q = CQ(exact=True, rels=[(r'^ELAPSED$', r'^LIMIT$', x)] if x else [])
        it, outs = ctx.run(f, q, args={0: struct(ctx, ctx.adt('TimeElapsedPolicy'), min_interval=arg('LIMIT')), 1: struct(ctx, MS, since_last_seal=some(arg('ELAPSED')) if x else NONE)})
        got = sorted({path(it.deepval(o.st, o.v)) for o in outs})
        ctx.ob(K, f'elapsed {x} limit', got and all(g.startswith('SealDecision#1') == (x in ('=', '>')) for g in got), f'elapsed {x} limit: {got}', ctx.loc(f))
    SD = ctx.adt('SealDecision')
    for bits in itertools.product((0, 1), repeat=3):
        def inner(it, st, c):
            p = path(it.deepval(st, c.args[0])); m = re.search(r'P(\d)', p)
            if not m: return None
            return [(st, enum(ctx, SD, 'Seal', arg('R' + m.group(1))) if bits[int(m.group(1))] else enum(ctx, SD, 'NoOp'))]
        fires(f'inner decisions {bits}', 'AnyOf', struct(ctx, ctx.adt('AnyOf'), inner=('a', tuple(arg(f'P{i}') for i in range(3)))), struct(ctx, MS), any(bits), [(r'evaluate$', inner)])
    fires('anything', 'NeverSeal', arg('self'), struct(ctx, MS), False)
    f = ctx.fn(MM + 'DynMemInner::build_stats')
    st, r, v = mem_state(ctx, 2, 4, 1)
    it, outs = ctx.run(f, CQ(exact=True, calls=[(r'sync::atomic::Atomic', conc_atomic)]), args={'self': r}, st=st)
    for o in outs:
        got = {x: path(post(it, o.st, o.v, x)) for x in ('entries', 'inserts', 'replaces', 'entry_overhead', 'dyn_batches', 'since_last_seal')}
        ctx.ob(K, 'stats', got == {'entries': '0', 'inserts': '0', 'replaces': '0', 'entry_overhead': '32', 'dyn_batches': 'Option#1{3}', 'since_last_seal': 'since_last_seal'}, f'statistics of a memtable with 2 batches and 1 delete batch: {got}', ctx.loc(f))

@rule('I03')
def segment_lengths(ctx):
    """a segment's per-row timestamps and tombstone flags have exactly one entry per row"""
    K = 'segment_lengths'
    f = ctx.fn(IM + 'bundle_mvcc_sidecar')
    for a, b, n in itertools.product(range(4), repeat=3):
        it, outs = ctx.run(f, CQ(exact=True, calls=[rowcount(n)]), args={'commit_ts': ('a', tuple(arg(f'T{i}') for i in range(a))), 'tombstone': ('a', tuple(arg(f'F{i}') for i in range(b)))})
        r = results(it, outs)
        good = a == b == n
        ok_ = bool(r.get('Ok')) == good and bool(r.get('Err')) != good
        if good: ok_ = ok_ and all(path(it.deepval(s, x[0])) == '(batch,MvccColumns#0{[%s],[%s]})' % (','.join(f'T{i}' for i in range(n)), ','.join(f'F{i}' for i in range(n))) for s, x in r['Ok'])
        ctx.ob(K, f'{a},{b},{n}', ok_, f'{a} timestamps and {b} flags for {n} rows: {sorted(r)}', ctx.loc(f))

@rule('I03')
def segment_export(ctx):
    """what a segment hands to the flush path contains every version: rows in key order newest first, and the delete keys with their timestamps"""
    K = 'segment_export'
    f = ctx.fn(IM + 'ImmutableMemTable::row_iter')
    nx = ctx.impl('Iterator', 'ImmutableRowIter', 'next')
    for vers in ([], [(1, 5, 'R')], [(1, 5, 'D')], [(1, 7, 'R'), (1, 5, 'D'), (2, 6, 'R')], [(1, 7, 'D'), (1, 5, 'R'), (2, 6, 'D'), (2, 3, 'R')]):
        st, r, v = segment(ctx, vers)
        mkq = lambda: RankQ(exact=True, calls=TOOWN)
        it, outs = ctx.run(f, mkq(), args={'self': r}, st=st)
        bad = []
        for o in outs:
            it2, done, live = drain(ctx, nx, it.deepval(o.st, o.v), mkq, len(vers) + 1, o.st)
            for s, items in done:
                got = [path(x) for x in items]
                want = [f'ImmutableRowEntry#0{{K{k},T{t},{"true" if kind == "D" else "false"}}}' for k, t, kind in vers]
                if [g.replace(',1}', ',true}').replace(',0}', ',false}') for g in got] != want: bad.append(got)
            if live: bad.append('no end')
        ctx.ob(K, 'rows ' + ''.join(f'{k}@{t}{x} ' for k, t, x in vers), outs and not bad, f'versions {vers}: the row iterator yields {bad[:1]}', ctx.loc(f))
    f = ctx.fn(IM + 'DeleteSidecar::to_record_batch')
    DS = ctx.adt('DeleteSidecar')
    for n in range(3):
        st = State()
        r = Interp(ctx.F, CQ(exact=True)).tmp(st, 0, ('ds',), struct(ctx, DS, keys=arg('KEYS'), commit_ts=('a', tuple(arg(f'T{i}') for i in range(n)))))
        H = [(r'RecordBatch::columns$', lambda it, st, c: [(st, it.tmp(st, c.frame, ('cols', c.bb), ('a', (arg('C0'), arg('C1')))))]),
             (r'Schema::fields$', lambda it, st, c: [(st, it.tmp(st, c.frame, ('flds', c.bb), ('a', (arg('F0'), arg('F1')))))]),
             (r'Field::new$', lambda it, st, c: [(st, mk(('call', 'field', tuple(it.deepval(st, a) for a in c.args))))]),
             (r'Schema::new$', lambda it, st, c: [(st, mk(('call', 'schema', (it.deepval(st, c.args[0]),))))]),
             (r'from_iter_values$|PrimitiveArray.*::from|From::from$', lambda it, st, c: collect_hook(it, st, c)),
             (r'RecordBatch::try_new$', lambda it, st, c: (st.setg('made', tuple(path(it.deepval(st, a)) for a in c.args)), [(st, ok(arg('OUT')))])[1])]
        it, outs = ctx.run(f, CQ(exact=True, calls=H), args={'self': r}, st=st)
        bad = []
        for o in outs:
            m = o.st.g('made')
            if not m: bad.append(path(it.deepval(o.st, o.v))); continue
            ts = ','.join(rf'T{i}\.0' for i in range(n))
            if not re.fullmatch(r"schema\(\[F0,F1,field\('?_commit_ts'?,DataType#\d+,(false|0)\)\]\)", m[0]): bad.append(m[0])
            if not re.fullmatch(rf'\[C0,C1,\S*\[{ts}\]\S*\]', m[1]): bad.append(m[1])
        ctx.ob(K, f'deletes {n}', outs and not bad, f'{n} deletes are written as {bad[:2]}', ctx.loc(f))

def collect_hook(it, st, c):
    """an arrow array built from an iterator of known length"""
    import exact as X
    v = c.args[0]
    src = X.into_iter(it, st, v, c)
    if src[0] == 'it' and X.isx(it, st, src):
        return [(s, mk(('call', 'array', (('a', tuple(it.deepval(s, e) for e in els)),)))) for s, els in X.xall(it, st, src, c)]
    return None
