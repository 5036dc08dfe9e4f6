"""Sorted tables on disk: statistics, merging, scanning, publishing."""
from core import *
from rules.inmem import RankQ, struct, enum, segment, drain, TOOWN, conc_atomic
from rules.manifest import vkey
from rules.wal_replay import opts
import arrow as W
import itertools

SS, MG, SC = 'crate::ondisk::sstable::', 'crate::ondisk::merge::', 'crate::ondisk::scan::'
def dv(it, st, v): return it.deepval(st, it.rd(st, v))

@rule('S03')
def row_access(ctx):
    """keys, timestamps and sequence numbers of a row are read from that row of the right column; a row that is not there is an error"""
    K = 'row_access'
    rows = [(3, 7, 0), (1, 5, 1), (2, 9, 2)]
    for seq in (None, [4, 8, 6]):
        for n in range(4):
            data, dele = W.data_batch(rows[:n], seq=seq and seq[:n]), W.del_batch(rows[:n], seq=seq and seq[:n])
            for fn, b, what in (('extract_key_at', data, 'k'), ('extract_delete_key_at', dele, 'k'), ('commit_ts_at', data, 't'), ('commit_ts_at_delete', dele, 't'), ('sequence_at', data, 's'), ('sequence_at_delete', dele, 's')):
                f = ctx.fn(MG + fn)
                for r in range(n + 2):
                    st = State(); rb = Interp(ctx.F, CQ(exact=True)).tmp(st, 0, ('b',), b)
                    a = {'batch': rb, 'row': ('c', r)}
                    if what == 'k': a['extractor'] = Interp(ctx.F, CQ(exact=True)).tmp(st, 0, ('ex',), W.PROJ(W.KEY_IDX))
                    it, outs = ctx.run(f, RankQ(exact=True, calls=W.hooks()), args=a, st=st)
                    res = results(it, outs)
                    if r < n:
                        want = {'k': f'K{rows[r][0]}', 't': rows[r][1], 's': str(seq[r] if seq else r)}[what]
                        got = [(W.tnum(dv(it, s, x[0])) if what == 't' else path(dv(it, s, x[0]))) for s, x in res.get('Ok', [])]
                        good = got == [want] and not res.get('Err')
                    else:
                        good = not res.get('Ok') or what == 's' and seq is None
                    ctx.ob(K, f'{fn}:{r}/{n}{"s" if seq else ""}', outs and good, f'{fn} of row {r} of {n}: {({k: [path(dv(it, s, x[0])) for s, x in v] for k, v in res.items()})}', ctx.loc(f))
    for fn in ('commit_ts_at', 'commit_ts_at_delete'):
        f = ctx.fn(MG + fn)
        for nm, b in (('missing', W.data_batch(rows, ts=False) if fn == 'commit_ts_at' else W.del_batch(rows, ts=False)), ('wrong type', W.B(W.S([W.FLD('_commit_ts', 'Int64')]), [W.A('Int64', [arg('T1')])]))):
            st = State(); rb = Interp(ctx.F, CQ(exact=True)).tmp(st, 0, ('b',), b)
            it, outs = ctx.run(f, RankQ(exact=True, calls=W.hooks()), args={'batch': rb, 'row': ('c', 0)}, st=st)
            res = results(it, outs)
            ctx.ob(K, f'{fn}:{nm}', outs and not res.get('Ok'), f'{fn} with the commit column {nm} is accepted', ctx.loc(f))

def tmp(st, tag, v): return Interp(Interp_F[0], CQ(exact=True)).tmp(st, 0, ('x', tag), v)
Interp_F = [None]

def sidecar_rows(ctx, v):
    """rows of a delete sidecar: [(key, ts)], or what is wrong"""
    DS = ctx.adt('DeleteSidecar')
    if v[0] != 'e' or v[1] != DS: return 'not a sidecar: ' + path(v)[:80]
    fs = [f[0] for f in ctx.F.adts[DS]['v'][0]['f']]
    keys, ts = v[3][fs.index('keys')], v[3][fs.index('commit_ts')]
    t = [W.tnum(x) for x in ts[1]] if ts[0] == 'a' else [] if ts[0] == 'coll' and ts[1] is None else None
    if not W.isb(keys) or t is None: return f'keys {path(keys)[:60]} ts {path(ts)[:60]}'
    if [W.fname(f) for f in W.fields(keys)] != ['a', 'b']: return f'key columns {[W.fname(f) for f in W.fields(keys)]}'
    if W.nrows(keys) != len(t): return f'{W.nrows(keys)} keys with {len(t)} timestamps'
    return [(path(W.key_of([W.vals(c)[i] for c in W.cols(keys)])), t[i]) for i in range(len(t))]

@rule('S01', 'S03')
def batch_conversion(ctx):
    """attaching, reading back and selecting rows keeps every row with its own key, payload and commit timestamp"""
    K = 'batch_conversion'
    Interp_F[0] = ctx.F
    allrows = [(3, 7, 0), (1, 5, 1), (2, 9, 2)]
    MV, TSA = ctx.adt('MvccColumns'), ctx.adt('mvcc::Timestamp')
    for n in range(4):
        rows = allrows[:n]
        f = ctx.fn(MG + 'decode_delete_sidecar'); st = State()
        it, outs = ctx.run(f, RankQ(exact=True, calls=W.hooks()), args={'batch': tmp(st, 'b', W.del_batch(rows)), 'extractor': tmp(st, 'e', W.PROJ(W.KEY_IDX))}, st=st)
        r = results(it, outs); got = [sidecar_rows(ctx, dv(it, s, x[0])) for s, x in r.get('Ok', [])]
        ctx.ob(K, f'decode deletes:{n}', got == [[(f'K{k}', t) for k, t, _ in rows]] and not r.get('Err'), f'deletes {rows} are read back as {got}', ctx.loc(f))
        f = ctx.fn(SS + 'append_commit_column')
        for m in range(4):
            st = State()
            mv = struct(ctx, MV, commit_ts=('a', tuple(arg(f'T{t}') for _, t, _ in allrows[:m])), tombstone=('a', (FALSE,) * m))
            it, outs = ctx.run(f, RankQ(exact=True, calls=W.hooks()), args={'batch': W.data_batch(rows, ts=False), 'mvcc': tmp(st, 'm', mv)}, st=st)
            r = results(it, outs); got = [W.read_data(dv(it, s, x[0])) for s, x in r.get('Ok', [])]
            meta = [path(dv(it, s, x[0])[3][0][3][1]) for s, x in r.get('Ok', []) if W.isb(dv(it, s, x[0]))]
            ctx.ob(K, f'append commits:{n},{m}', (got == [rows] and not r.get('Err') and meta == ['META']) if m == n else not got, f'{m} timestamps attached to {n} rows: {got or sorted(r)} {meta}', ctx.loc(f))
        f = ctx.fn(SS + 'parse_mvcc_columns_from_data'); st = State()
        it, outs = ctx.run(f, RankQ(exact=True, calls=W.hooks()), args={'batch': tmp(st, 'b', W.data_batch(rows))}, st=st)
        r = results(it, outs); got = []
        for s, x in r.get('Ok', []):
            v = dv(it, s, x[0]); got.append([[W.tnum(y) for y in v[3][0][1]] if v[3][0][0] == 'a' else [], [path(y) for y in v[3][1][1]] if v[3][1][0] == 'a' else []])
        ctx.ob(K, f'parse commits:{n}', [g[0] for g in got] == [[t for _, t, _ in rows]] and all(x in ('0', 'false') for g in got for x in g[1]) and len(got[0][1]) == n, f'rows {rows} have commit data {got}', ctx.loc(f))
        f = ctx.fn(SS + 'take_record_batch')
        for idx in [()] + [p for k in (1, 2, 3) for p in itertools.product(range(3), repeat=k)]:
            st = State()
            it, outs = ctx.run(f, RankQ(exact=True, calls=W.hooks()), args={'batch': tmp(st, 'b', W.data_batch(rows)), 'indices': tmp(st, 'i', ('a', tuple(('c', i) for i in idx)))}, st=st)
            r = results(it, outs); got = [W.read_data(dv(it, s, x[0])) for s, x in r.get('Ok', [])]
            if any(i >= n for i in idx): ctx.ob(K, f'take:{n}{idx}', not got, f'rows {idx} of {n} selected', ctx.loc(f))
            else: ctx.ob(K, f'take:{n}{idx}', got == [[rows[i] for i in idx]] and not r.get('Err'), f'rows {idx} of {rows} selected as {got}', ctx.loc(f))
    f = ctx.fn(SS + 'take_record_batch')
    for x in ('take', 'try_new'):
        st = State()
        it, outs = ctx.run(f, RankQ(exact=True, calls=W.hooks((x,))), args={'batch': tmp(st, 'b', W.data_batch(allrows)), 'indices': tmp(st, 'i', ('a', (('c', 0),)))}, st=st)
        ctx.ob(K, f'take fails:{x}', outs and not results(it, outs).get('Ok'), f'{x} failed and a batch is returned', ctx.loc(f))
    f = ctx.fn(SS + 'parse_mvcc_columns_from_data'); st = State()
    nb = W.B(W.DATA, [W.A('Utf8', [arg('K1b')]), W.A('Int64', [arg('V0')]), W.A('Utf8', [arg('K1a')]), W.A('UInt64', [NONE])])
    it, outs = ctx.run(f, RankQ(exact=True, calls=W.hooks()), args={'batch': tmp(st, 'b', nb)}, st=st)
    ctx.ob(K, 'parse commits:null', outs and not results(it, outs).get('Ok'), 'a missing commit timestamp is accepted', ctx.loc(f))

def sealed(ctx, vers):
    """immutable memtable with versions (key, ts, kind, payload), which are put in index order"""
    KV, TB, MV, DS, IE = ctx.adt('ts::KeyTsViewRaw'), ctx.adt('ImmutableMemTable'), ctx.adt('MvccColumns'), ctx.adt('DeleteSidecar'), ctx.adt('ImmutableIndexEntry')
    vers = sorted(vers, key=lambda v: (v[0], -v[1]))
    ups = [v for v in vers if v[2] == 'R']; dels = [v for v in vers if v[2] == 'D']
    ents = [('t', (struct(ctx, KV, key=arg(f'K{v[0]}'), ts=arg(f'T{v[1]}')), enum(ctx, IE, 'Row', ('c', ups.index(v))) if v[2] == 'R' else enum(ctx, IE, 'Delete'))) for v in vers]
    return struct(ctx, TB, index=('a', tuple(ents)), storage=W.data_batch([(k, t, p) for k, t, _, p in ups], ts=False),
                  mvcc=struct(ctx, MV, commit_ts=('a', tuple(arg(f'T{v[1]}') for v in ups)), tombstone=('a', (FALSE,) * len(ups))),
                  deletes=struct(ctx, DS, keys=W.del_batch([(k, t) for k, t, *_ in dels], ts=False), commit_ts=('a', tuple(arg(f'T{v[1]}') for v in dels))))

def config(ctx, extractor=True):
    return struct(ctx, ctx.adt('sstable::SsTableConfig'), schema=W.USER, key_extractor=some(W.PROJ(W.KEY_IDX)) if extractor else NONE, root=arg('ROOT'), fs=arg('FS'), compression=enum(ctx, ctx.adt('SsTableCompression'), 'None'), max_row_group_rows=('c', 100), merge_iteration_budget=('c', (1 << 64) - 1))

def desc_new(ctx, i, level, wal=None):
    SI = ctx.adt('SsTableId')
    return struct(ctx, ctx.adt('sstable::SsTableDescriptor'), id=('e', SI, 0, (('c', i),)), level=('c', level), stats=NONE, wal_ids=NONE if wal is None else some(('a', tuple(arg(w) for w in wal))), data_path=NONE, mvcc_path=NONE, delete_path=NONE)

def file_hooks(fail=None, size=('c', 777)):
    """the file system and the parquet writer: what is opened, written and closed goes to the log; fail: (operation, n-th of its kind)"""
    log = lambda st, *e: st.setg('log', st.g('log', ()) + (e,))
    def bad(st, op):
        n = st.g('n' + op, 0); st.setg('n' + op, n + 1)
        return fail == (op, n)
    def aw(op, f):
        def h(it, st, n, a, site, t):
            if bad(st, op): log(st, 'failed', op); return [(st, err(arg('IOERR')))]
            return [(st, ok(f(it, st, a)))]
        return h
    def opn(it, st, a):
        p = path(dv(it, st, a[1])); o = opts(dv(it, st, a[2]))
        log(st, 'open', p, 'w' if o.get('write') not in (None, '0') else 'r', o.get('truncate') not in (None, '0'), o.get('create') not in (None, '0'))
        return arg('FILE<' + p + '>')
    pth = lambda v: re.search(r'FILE<(.*)>', path(v)).group(1)
    def write(it, st, a):
        b = dv(it, st, a[1]); log(st, 'write', pth(dv(it, st, a[0])), b); return UNIT
    def close(it, st, a): log(st, 'close', pth(dv(it, st, a[0]))); return arg('PQMETA')
    def remove(it, st, a): log(st, 'remove', path(dv(it, st, a[1]))); return UNIT
    def trynew(it, st, c):
        log(st, 'writer', pth(dv(it, st, c.args[0])), dv(it, st, c.args[1]))
        if bad(st, 'try_new'): return [(st, err(arg('PQERR')))]
        return [(st, ok(dv(it, st, c.args[0])))]
    fut = lambda nm, k: lambda it, st, c: [(st, mk(('call', nm, tuple(dv(it, st, a) for a in c.args[:k]))))]
    calls = [(r'AsyncWriter.*::new$', lambda it, st, c: [(st, dv(it, st, c.args[0]))]), (r'AsyncArrowWriter.*::try_new$', trynew), (r'AsyncArrowWriter.*::write$', fut('PQWRITE', 2)), (r'AsyncArrowWriter.*::close$', fut('PQCLOSE', 1)),
             (r'DynFs::create_dir_all$', fut('MKDIR', 2)), (r'DynFs::open_options$', fut('OPEN', 3)), (r'(DynFs|Fs)::remove$', fut('REMOVE', 2)), (r'Read::size$', fut('SIZE', 1)),
             (r'writer_properties$', lambda it, st, c: [(st, arg('PROPS'))]), (r'PathPart.*::parse$', lambda it, st, c: [(st, ok(dv(it, st, c.args[0])))]), (r'path::Path::child$', lambda it, st, c: [(st, mk(('call', 'child', (dv(it, st, c.args[0]), dv(it, st, c.args[1])))))])]
    awaits = [(r'^PQWRITE$', aw('write', write)), (r'^PQCLOSE$', aw('close', close)), (r'^MKDIR$', aw('mkdir', lambda it, st, a: (log(st, 'mkdir', path(a[1])), UNIT)[1])), (r'^OPEN$', aw('open', opn)), (r'^REMOVE$', aw('remove', remove)), (r'^SIZE$', aw('size', lambda it, st, a: size))]
    return calls, awaits

def writer_run(ctx, stages, extractor=True, fail=None, wal=None, d=None, budget=400):
    """build a table from staged memtables ('I', versions) or merge batches ('S', data rows, delete rows): [(result, value, log)]"""
    C, Aw = file_hooks(fail)
    q = lambda: RankQ(exact=True, calls=W.hooks() + C + TOOWN, awaits=Aw, max_states=budget)
    PW = SS + 'ParquetTableWriter::'
    it, outs = ctx.run(ctx.fn(PW + 'new'), q(), args={'config': config(ctx, extractor), 'descriptor': d or desc_new(ctx, 5, 2)})
    st, v = outs[0].st, dv(it, outs[0].st, outs[0].v)
    live, done = [(st, v)], []
    if wal is not None:
        nx = []
        for s, w in live:
            r = it.tmp(s, ('root', 0), 'pw', w)
            it2, o2 = ctx.run(ctx.fn(PW + 'set_wal_ids'), q(), args={'self': r, 'wal_ids': some(('a', tuple(arg(x) for x in wal)))}, st=s)
            nx += [(o.st, dv(it2, o.st, r)) for o in o2]
        live = nx
    for i, stg in enumerate(stages):
        nx = []
        for s, w in live:
            r = it.tmp(s, ('root', 0), 'pw', w)
            if stg[0] == 'I':
                f, a = ctx.fn(PW + 'stage_immutable'), {'self': r, 'segment': it.tmp(s, ('root', 0), ('seg', i), sealed(ctx, stg[1]))}
            else:
                SB = ctx.adt('SsTableStreamBatch')
                dd = NONE if stg[2] is None else some(W.del_batch(stg[2]))
                f, a = ctx.fn(PW + 'stage_stream_batch'), {'self': r, 'batch': it.tmp(s, ('root', 0), ('sb', i), struct(ctx, SB, data=W.data_batch(stg[1]), delete=dd)), 'extractor': it.tmp(s, ('root', 0), 'ex', W.PROJ(W.KEY_IDX))}
            it2, o2 = ctx.run(f, q(), args=a, st=s)
            for o in o2:
                for s3, vi, x in it2.split(o.st, it2.rd(o.st, o.v), RESULT):
                    if vi == 0: nx.append((s3, dv(it2, s3, r)))
                    else: done.append(('error', path(dv(it2, s3, x[3][0])), s3.g('log', ())))
        live = nx
    for s, w in live:
        it2, o2 = ctx.run(ctx.fn(PW + 'finish'), q(), args=[w, arg('EXEC')], st=s)
        for o in o2:
            for s3, vi, x in it2.split(o.st, it2.rd(o.st, o.v), RESULT):
                done.append(('ok' if vi == 0 else 'error', dv(it2, s3, x[3][0]), s3.g('log', ())))
    return done

def table_desc(ctx, v):
    """descriptor of an SsTable value as a dict of texts and parsed statistics"""
    ST, SD, SX = ctx.adt('sstable::SsTable'), ctx.adt('sstable::SsTableDescriptor'), ctx.adt('SsTableStats')
    if v[0] == 'e' and v[1] == ST: v = v[3][0]
    d = dict(zip([f[0] for f in ctx.F.adts[SD]['v'][0]['f']], v[3]))
    s = d['stats']
    opt = lambda x, f: None if x[2] == 0 else f(x[3][0])
    if s[2] == 1:
        e = dict(zip([f[0] for f in ctx.F.adts[SX]['v'][0]['f']], s[3][0][3]))
        d['stats'] = {k: (opt(x, lambda y: W.tnum(y) if 'ts' in k else path(y)) if x[0] == 'e' and x[1] == OPTION else path(x)) for k, x in e.items()}
    else: d['stats'] = None
    return d

@rule('S01')
def table_files(ctx):
    """a finished table holds every staged version, ordered when it has to be, its statistics describe exactly that, and its files are complete"""
    K = 'table_files'
    Interp_F[0] = ctx.F
    R = lambda k, t, p=0: (k, t, 'R', p)
    D = lambda k, t: (k, t, 'D', 0)
    segs = [[], [R(2, 5)], [D(2, 5)], [R(2, 5), R(4, 3, 1)], [R(2, 5), D(2, 3)], [D(2, 7), R(2, 3)], [R(1, 4), D(3, 9), R(5, 2, 1)], [D(1, 1), R(3, 8, 1), D(6, 4)], [R(3, 6), R(3, 4, 1), R(3, 2, 2)]]
    cases = [[('I', s)] for s in segs] + [[('I', a), ('I', b)] for a, b in itertools.product(segs, repeat=2)] + [[('I', segs[6]), ('I', segs[7]), ('I', segs[3])], []]
    for c in cases: judge_table(ctx, K, c)
    for c in ([('I', segs[6]), ('I', segs[4])], [('I', segs[6])]): judge_table(ctx, K, c, extractor=False)
    st = [([], None), ([], []), ([(1, 5, 0)], None), ([(2, 5, 0)], [(2, 3)]), ([(1, 4, 0), (3, 9, 1)], [(2, 8)]), ([], [(4, 6), (7, 2)]), ([(5, 2, 0), (6, 1, 1)], [])]
    cases = [[('S', *s)] for s in st] + [[('S', *a), ('S', *b)] for a, b in itertools.product(st, repeat=2)]
    for c in cases: judge_table(ctx, K, c)

def judge_table(ctx, K, stages, extractor=True, wal=('W1', 'W2')):
    f = ctx.fn(SS + 'ParquetTableWriter::finish')
    res = writer_run(ctx, stages, extractor, wal=wal)
    rows, dels = [], []
    live = [s for s in stages if (s[1] or (s[0] == 'S' and s[2]))]
    for s in live:
        if s[0] == 'I':
            vs = sorted(s[1], key=lambda v: (v[0], -v[1]))
            rows.append([(k, t, p) for k, t, x, p in vs if x == 'R']); dels.append([(k, t) for k, t, x, p in vs if x == 'D'])
        else: rows.append(list(s[1])); dels.append(list(s[2] or []))
    flat, fdel = [r for x in rows for r in x], [d for x in dels for d in x]
    multi = sum(s[0] == 'I' for s in live) > 1
    bad = None
    for r, v, log in res:
        if not live:
            bad = bad or (None if r == 'error' and not log else f'an empty table is written: {r}'); continue
        if r != 'ok': bad = bad or f'fails: {path(v)[:100] if not isinstance(v, str) else v}'; continue
        d = table_desc(ctx, v)
        got = {'d': [], 'x': []}
        opened = [e for e in log if e[0] == 'open' and e[2] == 'w']
        writers = [e[1] for e in log if e[0] == 'writer']
        closed = [e[1] for e in log if e[0] == 'close']
        dp, xp = path(d['data_path'][3][0]) if d['data_path'][2] else None, path(d['delete_path'][3][0]) if d['delete_path'][2] else None
        for e in log:
            if e[0] == 'write':
                if e[1] == dp: got['d'].append(W.read_data(e[2]))
                elif e[1] == xp: got['x'].append(W.read_del(e[2]))
                else: bad = bad or f'writes to {e[1]}'
        text = [x for x in got['d'] + got['x'] if isinstance(x, str)]
        if text: bad = bad or text[0]; continue
        gd, gx = [r for x in got['d'] for r in x], [r for x in got['x'] for r in x]
        if sorted(gd) != sorted(flat) or sorted(gx) != sorted(fdel): bad = bad or f'writes rows {gd} and deletes {gx}'
        elif multi and ([(k, -t) for k, t, _ in gd] != sorted((k, -t) for k, t, _ in gd) or [(k, -t) for k, t in gx] != sorted((k, -t) for k, t in gx)): bad = bad or f'not in key order, newest first: rows {gd}, deletes {gx}'
        elif not multi and (gd != flat or gx != fdel): bad = bad or f'order changed: rows {gd}, deletes {gx}'
        if not dp or (xp is not None) != bool(fdel) or dp == xp: bad = bad or f'data file {dp}, delete file {xp} with {len(fdel)} deletes'
        if sorted(closed) != sorted(writers) or len(set(writers)) != len(writers): bad = bad or f'closes {closed} of {writers}'
        lw = max([i for i, e in enumerate(log) if e[0] == 'write'] or [0])
        if any(i < lw for i, e in enumerate(log) if e[0] == 'close'): bad = bad or 'closes a file before everything is written'
        if any(not e[3] or not e[4] for e in opened): bad = bad or 'opens an output without creating and truncating it'
        for e in log:
            if e[0] == 'writer' and e[1] == dp and [W.fname(x) for x in e[2][3][0][1]] != ['b', 'v', 'a', '_commit_ts']: bad = bad or f'data file with columns {[W.fname(x) for x in e[2][3][0][1]]}'
        s = d['stats']
        ts = [t for _, t, _ in flat] + [t for _, t in fdel]; ks = [k for k, *_ in flat] + [k for k, _ in fdel]
        want = {'rows': str(len(flat)), 'tombstones': str(len(fdel)), 'bytes': '777', 'min_key': f'K{min(ks)}', 'max_key': f'K{max(ks)}', 'min_commit_ts': min(ts), 'max_commit_ts': max(ts)}
        if s is None or any(s.get(k) != w for k, w in want.items()): bad = bad or f'statistics {s}, expected {want}'
        if path(d['id']) != 'SsTableId#0{5}' and path(d['id']) != '5' or path(d['level']) != '2': bad = bad or f"identity {path(d['id'])} level {path(d['level'])}"
        if path(d['wal_ids']) != 'Option#1{[W1,W2]}': bad = bad or f"log references {path(d['wal_ids'])}"
    name = ' + '.join(f'{s[0]}{"".join(f"{v[0]}@{v[1]}{v[2]}" if s[0] == "I" else f"{v[0]}@{v[1]}R" for v in s[1])}' + (''.join(f'{k}@{t}D' for k, t in s[2]) if s[0] == 'S' and s[2] is not None else '') for s in stages) or 'nothing'
    ctx.ob(K, name + ('' if extractor else ' (no extractor)'), res and not bad, f'a table from {name}: {bad}', ctx.loc(f))

@rule('S01', 'S04')
def table_failures(ctx):
    """a table whose directory, file, write or close failed is never reported as finished"""
    K = 'table_failures'
    f = ctx.fn(SS + 'ParquetTableWriter::finish')
    st = [('I', [(1, 4, 'R', 0), (3, 9, 'D', 0)]), ('I', [(2, 4, 'R', 0)])]
    for op, n in (('mkdir', 0), ('open', 0), ('open', 1), ('open', 2), ('write', 0), ('write', 1), ('close', 0), ('close', 1), ('size', 0), ('try_new', 0), ('try_new', 1)):
        res = writer_run(ctx, st, fail=(op, n))
        ctx.ob(K, f'{op}{n}', res and all(r == 'error' for r, _, _ in res), f'{op} number {n} fails and the table is reported as {[r for r, _, _ in res][:1]}', ctx.loc(f))

@rule('S04', 'S01')
def table_paths(ctx):
    """every table (level, id) has its own data file and its own delete file, under the level's directory"""
    K = 'table_paths'
    f = ctx.fn(SS + 'build_table_paths')
    C, Aw = file_hooks()
    seen = {}
    for lv in (0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 100):
        for i in (0, 1, 12, 2, 120):
            st = State()
            it, outs = ctx.run(f, RankQ(exact=True, calls=C), args=[Interp(ctx.F, CQ(exact=True)).tmp(st, 0, 'cfg', config(ctx)), ('c', lv), Interp(ctx.F, CQ(exact=True)).tmp(st, 0, 'id', ('e', ctx.adt('SsTableId'), 0, (('c', i),)))], st=st)
            for s, x in results(it, outs).get('Ok', []):
                d, a, b = (path(y) for y in dv(it, s, x[0])[1])
                for p, w in ((a, 'data'), (b, 'delete')):
                    ctx.ob(K, f'{lv}/{i} {w}', p not in seen and p.startswith(f'child({d},') and 'ROOT' in d, f'the {w} file of table {i} at level {lv} is {p}, also of {seen.get(p)}', ctx.loc(f))
                    seen[p] = (lv, i, w)
    ctx.ob(K, 'all', len(seen) == 110, f'{len(seen)} paths for 55 tables', ctx.loc(f))
    ctx.ob(K, 'plain names', all(re.search(r'\.parquet', p) for p in seen), 'table files are not .parquet files', ctx.loc(f))
    # reading back what the descriptor says
    SD = ctx.adt('sstable::SsTableDescriptor')
    PD = SS + 'SsTableDescriptor::'
    it, outs = ctx.run(ctx.fn(PD + 'new'), CQ(exact=True), args={'id': arg('ID'), 'level': arg('LV')})
    for with_del in (True, False):
        st = State(); v = dv(it, outs[0].st, outs[0].v)
        for fn, a in (('with_stats', [arg('STATS')]), ('with_wal_ids', [some(('a', (arg('W1'),)))]), ('with_storage_paths', [arg('DATA'), some(arg('DELETE')) if with_del else NONE])):
            it2, o2 = ctx.run(ctx.fn(PD + fn), CQ(exact=True), args=[v] + a)
            v = dv(it2, o2[0].st, o2[0].v)
        got = {}
        for fn in ('id', 'level', 'stats', 'wal_ids', 'data_path', 'delete_path'):
            st = State(); r = Interp(ctx.F, CQ(exact=True)).tmp(st, 0, 'd', v)
            it3, o3 = ctx.run(ctx.fn(PD + fn), CQ(exact=True), args={'self': r}, st=st)
            got[fn] = path(dv(it3, o3[0].st, o3[0].v))
        want = {'id': 'ID', 'level': 'LV', 'stats': 'Option#1{STATS}', 'wal_ids': 'Option#1{[W1]}', 'data_path': 'Option#1{DATA}', 'delete_path': 'Option#1{DELETE}' if with_del else 'Option#0'}
        ctx.ob(K, f'descriptor:{with_del}', got == want, f'a descriptor reports {got}', ctx.loc(ctx.fn(PD + 'new')))

def merge_expect(srcs):
    """winner of every key: the newest version over all sources and kinds; at equal timestamps the delete"""
    best = {}
    for si, (data, dels) in enumerate(srcs):
        for b in data:
            for k, t, p in b:
                if k not in best or (t, 0) > best[k][0]: best[k] = ((t, 0), ('R', k, t, p))
        for b in dels:
            for k, t in b:
                if k not in best or (t, 1) > best[k][0]: best[k] = ((t, 1), ('D', k, t))
    return [best[k][1] for k in sorted(best)]

def merge_run(ctx, srcs, caps=(None, None), chunk=1024, alloc=True, fail=None, iters=None, wal=None, outer=False):
    """merge sources given as (data batches, delete batches); yields [(result, value, log)]"""
    f = ctx.fn(MG + ('SsTableMerger::execute' if outer else 'SsTableMerger::execute_inner'))
    MS, MR, SB = ctx.adt('SsTableMergeSource'), ctx.adt('SsTableMerger'), ctx.adt('SsTableStreamBatch')
    log = lambda st, *e: st.setg('log', st.g('log', ()) + (e,))
    def stream(i):
        data, dels = srcs[i]
        n = max(len(data), len(dels))
        out = []
        for j in range(n):
            d = data[j] if j < len(data) else []
            x = NONE if j >= len(dels) else some(W.del_batch(dels[j]))
            out.append(struct(ctx, SB, data=W.data_batch(d), delete=x))
        return out
    streams = [stream(i) for i in range(len(srcs))]
    def src_new(it, st, c): return [(st, mk(('call', 'SRCNEW', (dv(it, st, c.args[1]),))))]
    def aw_new(it, st, n, a, site, t):
        i = int(path(table_desc(ctx, a[0])['id']).replace('SsTableId#0{', '').strip('}'))
        log(st, 'source', i)
        if fail == ('source', i): return [(st, err(arg('SRCERR')))]
        return [(st, ok(struct(ctx, MS, stream=arg(f'STREAM{i}'))))]
    def take(it, st, v):
        m = re.search(r'STREAM(\d)', path(dv(it, st, v)))
        i = int(m.group(1)); pos = st.g('pos', (0,) * len(srcs)); n = pos[i]
        st.setg('pos', pos[:i] + (n + 1,) + pos[i + 1:])
        if fail == ('next', i, n): return err(arg('SRCERR'))
        return ok(some(streams[i][n]) if n < len(streams[i]) else NONE)
    def src_next(it, st, c): return [(st, mk(('call', 'SRCNEXT', (dv(it, st, c.args[0]),))))]
    def aw_next(it, st, n, a, site, t): return [(st, take(it, st, a[0]))]
    def stage(it, st, c):
        b = dv(it, st, c.args[1]); r = c.args[0]
        cur = dv(it, st, r)
        it.store(st, r[1], r[2], ('e', 'PWRITER', 0, (cur[3][0], cur[3][1], ('a', cur[3][2][1] + (b,)))))
        if fail == ('stage',): return [(st, err(arg('STAGEERR')))]
        return [(st, ok(UNIT))]
    def setwal(it, st, c):
        r = c.args[0]; cur = dv(it, st, r)
        it.store(st, r[1], r[2], ('e', 'PWRITER', 0, (cur[3][0], dv(it, st, c.args[1]), cur[3][2]))); return [(st, UNIT)]
    def fin(it, st, c): return [(st, mk(('call', 'PWFIN', (dv(it, st, c.args[0]),))))]
    def aw_fin(it, st, n, a, site, t):
        w = a[0]; k = st.g('fin', 0); st.setg('fin', k + 1)
        if fail == ('finish', k): log(st, 'failed'); return [(st, err(arg('FINERR')))]
        d = w[3][0]; SD = ctx.adt('sstable::SsTableDescriptor'); names = [x[0] for x in ctx.F.adts[SD]['v'][0]['f']]
        fs = list(d[3]); pid = path(fs[names.index('id')]).replace('SsTableId#0{', '').strip('}')
        fs[names.index('data_path')] = some(arg(f'DATA<{pid}>')); fs[names.index('delete_path')] = some(arg(f'DEL<{pid}>'))
        d2 = ('e', SD, 0, tuple(fs))
        log(st, 'table', d2, w[3][1], w[3][2])
        return [(st, ok(struct(ctx, ctx.adt('sstable::SsTable'), descriptor=d2)))]
    C, Aw = file_hooks()
    H = [(r'SsTableMergeSource::new$', src_new), (r'SsTableMergeSource::next$', src_next), (r'StreamExt::next$', src_next),
         (r'ParquetTableWriter::new$', lambda it, st, c: [(st, ('e', 'PWRITER', 0, (dv(it, st, c.args[1]), NONE, ('a', ()))))]), (r'ParquetTableWriter::stage_stream_batch$', stage), (r'ParquetTableWriter::set_wal_ids$', setwal), (r'ParquetTableWriter::finish$', fin),
         (r'Atomic.*::(fetch_add|load|store|fetch_max|fetch_update|compare_exchange)$', conc_atomic)] + C + W.hooks()
    A = [(r'^SRCNEW$', aw_new), (r'^SRCNEXT$', aw_next), (r'^PWFIN$', aw_fin)] + Aw
    o = lambda x: NONE if x is None else some(('c', x))
    st = State(); tm = Interp(ctx.F, CQ(exact=True)).tmp
    m = struct(ctx, MR, config=config(ctx), inputs=('a', tuple(desc_new(ctx, i, 0, (wal or {}).get(i)) for i in range(len(srcs)))), target=desc_new(ctx, 50, 3), next_output_id=some(tm(st, 0, 'alloc', ('c', 51))) if alloc else NONE,
               max_output_rows=o(caps[0]), max_output_bytes=o(caps[1]), chunk_rows=('c', chunk), max_iterations=o(iters))
    a = [m, arg('EXEC')] if outer else [m, tm(st, 0, 'wd', ('a', ())), arg('EXEC')]
    it, outs = ctx.run(f, RankQ(exact=True, calls=H, awaits=A, max_states=400), args=a, st=st)
    res = []
    for x in outs:
        for s, vi, w in it.split(x.st, it.rd(x.st, x.v), RESULT):
            res.append(('ok' if vi == 0 else 'error', dv(it, s, w[3][0]), s.g('log', ())))
    return f, res

def opened(ctx, log):
    """tables of a merge: [(id, level, wal, rows in written order)]"""
    out = []
    SB = ctx.adt('SsTableStreamBatch'); names = [x[0] for x in ctx.F.adts[SB]['v'][0]['f']]
    for e in log:
        if e[0] != 'table': continue
        d = table_desc(ctx, e[1]); rows, dels = [], []
        for b in e[3][1]:
            x = W.read_data(b[3][names.index('data')])
            rows.append(x)
            y = b[3][names.index('delete')]
            if y[2] == 1: dels.append(W.read_del(y[3][0]))
        w = e[2]
        wl = None if w[2] == 0 else [path(x) for x in w[3][0][1]]
        out.append((int(path(d['id']).replace('SsTableId#0{', '').strip('}')), int(path(d['level'])), wl, rows, dels))
    return out

def judge_merge(ctx, srcs, res, caps=(None, None), wal=None):
    want = merge_expect(srcs)
    for r, v, log in res:
        if not want: 
            if r != 'error': return 'merging nothing succeeds'
            continue
        if r != 'ok': return f'fails with {path(v)[:80]}'
        ts = opened(ctx, log)
        got = []
        for i, lv, wl, rows, dels in ts:
            if any(isinstance(x, str) for x in rows + dels): return f'{[x for x in rows + dels if isinstance(x, str)][0]}'
            fr, fd = [y for x in rows for y in x], [y for x in dels for y in x]
            if [k for k, *_ in fr] != sorted(k for k, *_ in fr) or [k for k, _ in fd] != sorted(k for k, _ in fd): return f'table {i} is not in key order: {fr}, deletes {fd}'
            got += sorted([('R', *x) for x in fr] + [('D', *x) for x in fd], key=lambda x: x[1])
            if wl != (sorted({w for x in (wal or {}).values() for w in x}) or None): return f'table {i} refers to log segments {wl}'
            if lv != 3: return f'table {i} is written at level {lv}'
        if got != want: return f'keeps {got}, expected {want}'
        ids = [t[0] for t in ts]
        if len(set(ids)) != len(ids) or ids[0] != 50 or any(i < 51 for i in ids[1:]): return f'output ids {ids}'
        for i, lv, wl, rows, dels in ts[:-1]:
            n, x = sum(map(len, rows)), sum(map(len, dels))
            if caps[0] is not None and n < caps[0] and (caps[1] is None or 10 * (n + x) < caps[1]): return f'table {i} is closed with {n} rows under a limit of {caps}'
        for i, lv, wl, rows, dels in ts:
            n, x = sum(map(len, rows)), sum(map(len, dels))
            if caps[0] is not None and n > caps[0]: return f'table {i} holds {n} rows, limit {caps[0]}'
            if caps[1] is not None and 10 * (n + x - 1) >= caps[1]: return f'table {i} holds {10 * (n + x)} bytes, limit {caps[1]}'
        out = [path(table_desc(ctx, x)['id']) for x in v[1]]
        if len(out) != len(ts): return f'reports {len(out)} of {len(ts)} tables'
    return None if res else 'no outcome'

@rule('S03', 'P06')
def merge_rows(ctx):
    """merging tables keeps exactly the newest version of every key of every input batch, each once, in key order, within the output limits"""
    K = 'merge_rows'
    P1 = [([[(1, 5, 0)]], []), ([[(1, 7, 1), (2, 4, 2)]], []), ([], [[(1, 6)]]), ([[(2, 3, 3)]], [[(1, 9), (2, 8)]]), ([[(1, 5, 4), (3, 5, 5)]], [[(2, 5)]])]
    cases = [[a, b] for a, b in itertools.product(P1, repeat=2)]
    multi = [
        [([[(1, 9, 0)], [(2, 8, 1)], [(3, 7, 2)]], [[(4, 6)], [], [(5, 5)]])],
        [([[(1, 9, 0), (1, 4, 1)], [(1, 2, 2), (3, 7, 3)]], [[(1, 5), (3, 9)]])],
        [([[(1, 2, 0)], [(4, 2, 1)]], [[(1, 9)], [(4, 9)]]), ([[(1, 5, 2), (2, 5, 3)], [(4, 5, 4)]], [])],
        [([[(5, 9, 0)]], [[(1, 1)], [(2, 1)], [(3, 1)]]), ([[(1, 3, 1), (2, 3, 2)], [], [(3, 3, 3)]], [])],
        [([[(1, 1, 0), (2, 1, 1)]], []), ([[(1, 2, 2)]], [[(2, 2)]]), ([[(2, 3, 3), (3, 3, 4)]], [[(1, 3)]])],
        [([[]], [[]]), ([[(7, 3, 0)]], [])], [([[]], [])], [([], [])],
        [([[(2, 6, 0)], [], [(2, 4, 1)], [(3, 6, 2)]], [[], [(2, 5)], [], [(3, 7)]])],
    ]
    for n, srcs in enumerate(cases + multi):
        f, res = merge_run(ctx, srcs)
        bad = judge_merge(ctx, srcs, res)
        ctx.ob(K, f'inputs {srcs}', not bad, f'merging {srcs} (data batches, delete batches per input): {bad}', ctx.loc(f))
    many = [([[(i, 5, i) for i in (1, 2, 3)], [(i, 5, i) for i in (5, 7)]], [[(4, 5), (6, 5)]]), ([[(3, 9, 13), (8, 1, 8)]], [[(2, 9)]])]
    for caps in ((1, None), (2, None), (3, None), (None, 10), (None, 11), (None, 20), (2, 30), (100, 1000)):
        for chunk in (1, 2, 1024):
            f, res = merge_run(ctx, many, caps=caps, chunk=chunk)
            bad = judge_merge(ctx, many, res, caps)
            ctx.ob(K, f'caps {caps}, chunk {chunk}', not bad, f'merging with output limits {caps} (rows, bytes; 10 bytes a row) and chunks of {chunk}: {bad}', ctx.loc(f))
    for wal in ({0: ['W2', 'W1']}, {0: ['W2'], 1: ['W1', 'W2', 'W3']}, {1: []}):
        f, res = merge_run(ctx, many, caps=(3, None), wal=wal)
        bad = judge_merge(ctx, many, res, (3, None), wal)
        ctx.ob(K, f'log references {wal}', not bad, f'merging inputs that refer to log segments {wal}: {bad}', ctx.loc(f))
merge_rows.whole = True

@rule('S03')
def merge_order(ctx):
    """merge candidates come out by key, then newest first, then latest sequence, then deletes"""
    K = 'merge_order'
    HE, RK = ctx.adt('ondisk::merge::HeapEntry'), ctx.adt('merge::RowKind')
    ORD = 'core::cmp::Ordering'
    cands = [(k, t, s, kd) for k in (1, 2) for t in (3, 4) for s in (5, 6) for kd in ('Data', 'Delete')]
    val = lambda c, i: struct(ctx, HE, key=arg(f'K{c[0]}'), commit_ts=('e', ctx.adt('mvcc::Timestamp'), 0, (arg(f'T{c[1]}'),)), seq=('c', c[2]), kind=enum(ctx, RK, c[3]), source_idx=('c', i), row_idx=('c', 0))
    f = ctx.impl('Ord', 'ondisk::merge::HeapEntry', 'cmp'); pf = ctx.impl('PartialOrd', 'ondisk::merge::HeapEntry', 'partial_cmp')
    rank = lambda c: (-c[0], c[1], c[2], c[3] == 'Delete')
    for a in cands:
        for b in cands:
            want = {-1: 'Ordering#0', 0: 'Ordering#1', 1: 'Ordering#2'}[(rank(a) > rank(b)) - (rank(a) < rank(b))]
            for fn, w in ((f, want), (pf, f'Option#1{{{want}}}')):
                st = State(); tm = Interp(ctx.F, CQ(exact=True)).tmp
                it, outs = ctx.run(fn, RankQ(exact=True, inline_cmp=('HeapEntry',)), args={'self': tm(st, 0, 'a', val(a, 0)), 'other': tm(st, 0, 'b', val(b, 1))}, st=st)
                got = sorted({path(dv(it, o.st, o.v)).replace('Ordering#-1', 'Ordering#0') for o in outs})
                ctx.ob(K, f'{a}/{b}{"p" if fn is pf else ""}', ORDTXT(got) == ORDTXT([w]), f'(key, ts, seq, kind) {a} against {b}: {got}, expected {w}', ctx.loc(fn))

def ORDTXT(l): return sorted(l)

@rule('S03', 'P06')
def merge_output(ctx):
    """the state of an output counts rows, deletes and bytes exactly, keeps the extreme keys and timestamps, is full exactly from its limits on, and starts over empty"""
    K = 'merge_output'
    OS = ctx.adt('merge::OutputState'); P0 = MG + 'OutputState::'
    names = [f[0] for f in ctx.F.adts[OS]['v'][0]['f']]
    q = lambda **k: RankQ(exact=True, calls=W.hooks(**k) + TOOWN)
    def new():
        it, o = ctx.run(ctx.fn(P0 + 'new'), q(), args=[]); return dv(it, o[0].st, o[0].v)
    def call(fn, v, qq=None, **a):
        st = State(); r = Interp(ctx.F, CQ(exact=True)).tmp(st, 0, 'os', v)
        args = {'self': r}
        for k, x in a.items(): args[k] = Interp(ctx.F, CQ(exact=True)).tmp(st, 0, ('a', k), x[1]) if isinstance(x, list) else x
        it, outs = ctx.run(ctx.fn(P0 + fn), qq or q(), args=args, st=st)
        return [(dv(it, o.st, r), dv(it, o.st, o.v)) for o in outs]
    get = lambda v, n: v[3][names.index(n)]
    empty = new()
    lst = lambda v: len(v[1]) if v[0] == 'a' else 0
    # counters
    for seq in [s for n in range(4) for s in itertools.product((('R', 1), ('R', 3), ('D', 1), ('D', 2)), repeat=n)]:
        v = empty
        for kd, n in seq:
            b = W.data_batch([(i, 5, i) for i in range(n)]) if kd == 'R' else W.del_batch([(i, 5) for i in range(n)])
            rs = call('push_data' if kd == 'R' else 'push_delete', v, **{'data' if kd == 'R' else 'delete': b})
            v = rs[0][0]
        r, d = sum(n for k, n in seq if k == 'R'), sum(n for k, n in seq if k == 'D')
        got = {n: path(get(v, n)) for n in ('rows', 'tombstones', 'pending_rows', 'bytes')}
        want = {'rows': str(r), 'tombstones': str(d), 'pending_rows': str(r + d), 'bytes': str(10 * (r + d))}
        ctx.ob(K, f'counts {seq}', got == want and lst(get(v, 'data_parts')) == sum(k == 'R' for k, n in seq) and lst(get(v, 'delete_parts')) == sum(k == 'D' for k, n in seq), f'after adding {seq}: {got}, expected {want}', ctx.loc(ctx.fn(P0 + 'push_data')))
        hp = [path(x) for _, x in call('has_pending', v)]
        ctx.ob(K, f'pending {seq}', hp in (['1'], ['true']) if seq else hp in (['0'], ['false']), f'has_pending after {seq} is {hp}', ctx.loc(ctx.fn(P0 + 'has_pending')))
        if len(seq) <= 2:
            for ch in (1, 2, 3, 4):
                got = [path(x) for _, x in call('should_flush_chunk', v, chunk_rows=('c', ch))]
                ctx.ob(K, f'chunk {seq},{ch}', got in ([['1'], ['true']] if r + d >= ch else [['0'], ['false']]), f'{r + d} pending rows, chunk of {ch}: flush {got}', ctx.loc(ctx.fn(P0 + 'should_flush_chunk')))
            for mr in (None, 1, 2, 3):
                for mb in (None, 10, 20, 30, 31):
                    o = lambda x: NONE if x is None else some(('c', x))
                    got = [path(x) for _, x in call('exceeds_caps', v, max_rows=o(mr), max_bytes=o(mb))]
                    w = mr is not None and r >= mr or mb is not None and 10 * (r + d) >= mb
                    ctx.ob(K, f'caps {seq},{mr},{mb}', got in ([['1'], ['true']] if w else [['0'], ['false']]), f'{r} rows, {10 * (r + d)} bytes against limits {mr}, {mb}: full is {got}', ctx.loc(ctx.fn(P0 + 'exceeds_caps')))
            # flushing a chunk
            rs = call('flush_chunk', v, schema=[0, W.USER])
            for v2, x in rs:
                SB = ctx.adt('SsTableStreamBatch'); sn = [f[0] for f in ctx.F.adts[SB]['v'][0]['f']]
                bs = get(v2, 'batches')
                rows = [W.read_data(b[3][sn.index('data')]) for b in bs[1]] if bs[0] == 'a' else []
                dl = [W.read_del(b[3][sn.index('delete')][3][0]) for b in bs[1] if b[3][sn.index('delete')][2] == 1] if bs[0] == 'a' else []
                er = [(i, 5, i) for k, n in seq if k == 'R' for i in range(n)]; ed = [(i, 5) for k, n in seq if k == 'D' for i in range(n)]
                ok_ = (rows == [er] and dl == ([ed] if ed else [])) if seq else not rows
                ok_ = ok_ and path(get(v2, 'pending_rows')) == '0' and not lst(get(v2, 'data_parts')) and not lst(get(v2, 'delete_parts')) and [path(get(v2, n)) for n in ('rows', 'tombstones')] == [str(r), str(d)]
                ctx.ob(K, f'flush {seq}', ok_, f'after {seq} a chunk holds rows {rows}, deletes {dl}', ctx.loc(ctx.fn(P0 + 'flush_chunk')))
            rv = [y for y, _ in call('reset_for_next', rs[0][0])]
            ctx.ob(K, f'reset {seq}', len(rv) == 1 and norm_empty(rv[0]) == norm_empty(empty), f'the next output starts with {path(rv[0])[:200] if rv else None}', ctx.loc(ctx.fn(P0 + 'reset_for_next')))
    # bounds
    for ks in itertools.product((1, 2, 3), repeat=3):
        v = empty; w = empty
        for k in ks:
            v = call('update_key_bounds', v, key=[0, arg(f'K{k}')])[0][0]
            w = call('update_commit_bounds', w, ts=('e', ctx.adt('mvcc::Timestamp'), 0, (arg(f'T{k}'),)))[0][0]
        g = (path(get(v, 'min_key')), path(get(v, 'max_key')))
        ctx.ob(K, f'keys {ks}', g == (f'Option#1{{K{min(ks)}}}', f'Option#1{{K{max(ks)}}}'), f'bounds of keys {ks}: {g}', ctx.loc(ctx.fn(P0 + 'update_key_bounds')))
        g = tuple(W.tnum(get(w, n)[3][0]) if get(w, n)[2] else None for n in ('min_commit_ts', 'max_commit_ts'))
        ctx.ob(K, f'ts {ks}', g == (min(ks), max(ks)), f'bounds of timestamps {ks}: {g}', ctx.loc(ctx.fn(P0 + 'update_commit_bounds')))

def norm_empty(v):
    t = path(v)
    return re.sub(r'coll\[[^\]]*\]', '[]', t)

@rule('S03', 'S04', 'P07')
def merge_failures(ctx):
    """a merge that fails removes every table it wrote and no other file; one that succeeds removes nothing; a missing allocator or spent budget is an error"""
    K = 'merge_failures'
    srcs = [([[(i, 5, i) for i in (1, 2, 3)], [(i, 5, i) for i in (5, 7)]], [[(4, 5), (6, 5)]]), ([[(3, 9, 13), (8, 1, 8)]], [[(2, 9)]])]
    for nm, kw in (('none', {}), ('finish 0', dict(fail=('finish', 0))), ('finish 1', dict(fail=('finish', 1))), ('finish 2', dict(fail=('finish', 2))), ('stage', dict(fail=('stage',))), ('source 1', dict(fail=('source', 1))), ('next 0', dict(fail=('next', 0, 0))), ('next 1', dict(fail=('next', 0, 1))), ('no allocator', dict(alloc=False)), ('budget', dict(iters=3)), ('exact budget', dict(iters=8)), ('budget of one less', dict(iters=7))):
        f, res = merge_run(ctx, srcs, caps=(2, None), outer=True, **kw)
        bad = None
        for r, v, log in res:
            want = 'ok' if nm in ('none', 'exact budget') else 'error'
            if r != want: bad = f'ends in {r}'; break
            wrote = {f'{p}<{path(table_desc(ctx, e[1])["id"]).replace("SsTableId#0{", "").strip("}")}>' for e in log if e[0] == 'table' for p in ('DATA', 'DEL')}
            gone = [e[1] for e in log if e[0] == 'remove']
            if (set(gone) != wrote if want == 'error' else gone): bad = f'wrote {sorted(wrote)}, removed {gone}'
        ctx.ob(K, nm, res and not bad, f'merge with failure "{nm}": {bad}', ctx.loc(f))
    # removing: every file of every table, whatever fails in between
    f = ctx.fn(MG + 'cleanup_descriptors')
    SD = ctx.adt('sstable::SsTableDescriptor')
    def d(i, m): return struct(ctx, SD, id=arg(f'ID{i}'), data_path=some(arg(f'D{i}')) if m & 1 else NONE, mvcc_path=some(arg(f'M{i}')) if m & 2 else NONE, delete_path=some(arg(f'X{i}')) if m & 4 else NONE)
    for masks in [()] + [(m,) for m in range(8)] + [(7, 7), (5, 0, 1), (1, 5)]:
        files = [f'{c}{i}' for i, m in enumerate(masks) for b, c in ((1, 'D'), (2, 'M'), (4, 'X')) if m & b]
        for bad_at in [None] + list(range(len(files))):
            C, Aw = file_hooks()
            log = lambda st, *e: st.setg('log', st.g('log', ()) + (e,))
            def rem(it, st, n, a, site, t):
                k = st.g('k', 0); st.setg('k', k + 1); log(st, path(dv(it, st, a[1])))
                return [(st, err(arg('IOERR')) if k == bad_at else ok(UNIT))]
            st = State(); tm = Interp(ctx.F, CQ(exact=True)).tmp
            it, outs = ctx.run(f, RankQ(exact=True, calls=C, awaits=[(r'^REMOVE$', rem)] + Aw), args=[tm(st, 0, 'cfg', config(ctx)), tm(st, 0, 'ds', ('a', tuple(d(i, m) for i, m in enumerate(masks))))], st=st)
            got = [sorted(e[0] for e in o.st.g('log', ())) for o in outs]
            ctx.ob(K, f'cleanup {masks} failing {bad_at}', got == [sorted(files)], f'cleaning up files {files} (failing: {bad_at}) removes {got}', ctx.loc(f))

@rule('S03', 'P06')
def merge_settings(ctx):
    """a merger uses exactly the inputs, target and limits it was given (chunks and budgets at least 1; no budget unless one is configured)"""
    K = 'merge_settings'
    P0 = MG + 'SsTableMerger::'; MR = ctx.adt('merge::SsTableMerger')
    names = [f[0] for f in ctx.F.adts[MR]['v'][0]['f']]
    o = lambda x: NONE if x is None else some(('c', x))
    MAX = (1 << 64) - 1
    for budget in (5, MAX, 1):
        cfg = list(config(ctx)[3]); SCF = ctx.adt('sstable::SsTableConfig'); cn = [f[0] for f in ctx.F.adts[SCF]['v'][0]['f']]
        cfg[cn.index('merge_iteration_budget')] = ('c', budget)
        it, outs = ctx.run(ctx.fn(P0 + 'new'), CQ(exact=True), args={'config': ('e', SCF, 0, tuple(cfg)), 'inputs': ('a', (arg('D0'), arg('D1'))), 'target': arg('TARGET')})
        v = dv(it, outs[0].st, outs[0].v)
        get = lambda n: path(v[3][names.index(n)])
        want = {'inputs': '[D0,D1]', 'target': 'TARGET', 'next_output_id': 'Option#0', 'max_output_rows': 'Option#0', 'max_output_bytes': 'Option#0', 'max_iterations': 'Option#0' if budget == MAX else f'Option#1{{{budget}}}'}
        got = {n: get(n) for n in want}
        ctx.ob(K, f'new {budget}', got == want and int(get('chunk_rows')) >= 1, f'a new merger has {got}', ctx.loc(ctx.fn(P0 + 'new')))
        for fn, a, ch in (('with_output_id_allocator', [arg('ALLOC')], {'next_output_id': 'Option#1{ALLOC}'}), ('with_output_caps', [o(3), o(40)], {'max_output_rows': 'Option#1{3}', 'max_output_bytes': 'Option#1{40}'}), ('with_output_caps', [NONE, o(40)], {'max_output_bytes': 'Option#1{40}'}),
                          ('with_output_caps', [o(3), NONE], {'max_output_rows': 'Option#1{3}'}), ('with_iteration_budget', [('c', 0)], {'max_iterations': 'Option#1{1}'}), ('with_iteration_budget', [('c', 9)], {'max_iterations': 'Option#1{9}'}), ('with_chunk_rows', [('c', 0)], {'chunk_rows': '1'}), ('with_chunk_rows', [('c', 7)], {'chunk_rows': '7'})):
            it2, o2 = ctx.run(ctx.fn(P0 + fn), CQ(exact=True), args=[v] + a)
            w = dv(it2, o2[0].st, o2[0].v)
            g2 = {n: path(w[3][names.index(n)]) for n in names if n != 'config'}
            w2 = {n: get(n) for n in names if n != 'config'}; w2.update(ch)
            ctx.ob(K, f'{fn} {[path(x) for x in a]} {budget}', g2 == w2, f'{fn}({[path(x) for x in a]}) gives {({n: g2[n] for n in g2 if g2[n] != w2[n]})}', ctx.loc(ctx.fn(P0 + fn)))
    f = ctx.fn(SS + 'SsTableConfig::with_merge_iteration_budget')

def scan_hooks(data, dels, pend=(), fail=None, cols=(1,)):
    """the two parquet streams of a table: batches, pending polls (numbers of global polls) and a failing one (stream, n)"""
    POLL = 'core::task::poll::Poll'
    bs = [[W.data_batch(b) for b in data], [W.del_batch(b) for b in dels]]
    def poll(it, st, c):
        m = re.search(r'PSTREAM(\d)', path(dv(it, st, c.args[0])))
        if not m: return None
        i = int(m.group(1))
        n = st.g('polls', 0); st.setg('polls', n + 1)
        if n in pend: return [(st, ('e', POLL, 1, ()))]
        pos = st.g('pos', (0, 0)); k = pos[i]
        st.setg('pos', pos[:i] + (k + 1,) + pos[i + 1:])
        if fail == (i, k): return [(st, ('e', POLL, 0, (some(err(arg('PQERR'))),)))]
        return [(st, ('e', POLL, 0, (some(ok(bs[i][k])) if k < len(bs[i]) else NONE,)))]
    def row(it, st, c):
        p, b, i = dv(it, st, c.args[0]), dv(it, st, c.args[2]), dv(it, st, c.args[3])
        if not W.isb(p, W.J_) or not W.isb(b) or i[0] != 'c': return None
        if fail == ('row', i[1]) or i[1] >= len(W.vals(W.cols(b)[0])): return [(st, err(arg('VIEWERR')))]
        return [(st, ok(('e', 'ROWRAW', 0, (('a', tuple(W.vals(W.cols(b)[x[1]])[i[1]] for x in p[3][1][1])), arg('x')))))]
    def fromix(it, st, c):
        ix = dv(it, st, c.args[1])
        return [(st, ok(W.PROJ([x[1] for x in ix[1]], 'ROWPROJ')))] if ix[0] == 'a' else None
    def pview(it, st, c):
        if not (isinstance(fail, tuple) and fail[0] in ('key', 'own', 'nokey')): return None
        b, rs = dv(it, st, c.args[1]), dv(it, st, c.args[2])
        if not W.isb(b) or rs[0] != 'a' or any(r[0] != 'c' or r[1] >= W.nrows(b) for r in rs[1]): return None
        hit = any(b == bs[fail[1]][k] and any(r == ('c', fail[3]) for r in rs[1]) for k in [fail[2]] if k < len(bs[fail[1]]))
        if not hit: return None
        st.setg('ptick', st.g('ptick', 0) + 1)
        if fail[0] == 'key': return [(st, err(arg('PROJERR')))]
        if fail[0] == 'nokey': return [(st, ok(('a', ())))]
        return [(st, ok(('a', (arg('BADKEY'),))))]
    def own(it, st, c): return [(st, err(arg('OWNERR')))] if dv(it, st, c.args[0]) == arg('BADKEY') else None
    return [(r'KeyProjection::project_view$', pview), (r'KeyOwned::from_key_row$', own), (r'Stream::poll_next$|ParquetRecordBatchStream.*poll_next$', poll), (r'project_row_raw$', row), (r'DynProjection::from_indices$', fromix), (r'DynSchema::from_ref$', lambda it, st, c: [(st, dv(it, st, c.args[0]))])] + W.hooks(('project',) if fail == 'project' else ())

def scan_run(ctx, data, dels, read_ts, pend=(), fail=None):
    SCA = ctx.adt('scan::SstableScan'); POLL = 'core::task::poll::Poll'
    H = scan_hooks(data, dels or [], pend, fail)
    TS = lambda t: ('e', ctx.adt('mvcc::Timestamp'), 0, (arg(f'T{t}'),))
    q = RankQ(exact=True, calls=H + TOOWN, max_states=400)
    it = Interp(ctx.F, q); st = State()
    new = ctx.fn(SC + 'SstableScan::<E>::new')
    DX = ctx.adt('DeleteStreamWithExtractor')
    d = NONE if dels is None else some(struct(ctx, DX, stream=arg('PSTREAM1'), extractor=W.PROJ([0, 1], 'DEX')))
    o0 = it.run_body(st, new, [arg('PSTREAM0'), d, W.PROJ(W.KEY_IDX), ('a', (('c', 1),)), NONE, TS(read_ts)], ('root', 'new'))
    nx = ctx.impl('Stream', 'SstableScan', 'poll_next')
    res = []
    for s, v in o0:
        r = it.tmp(s, 0, ('scan',), it.deepval(s, v))
        live = [(s, [])]
        n = sum(map(len, data)) + sum(map(len, dels or [])) + len(pend) + 2
        for k in range(n):
            nxt = []
            for s2, items in live:
                for s3, v in it.run_body(s2.copy(), nx, [r, arg('cx')], ('root', k)):
                    for s4, vi, w in it.split(s3, it.rd(s3, v), POLL):
                        if vi == 1: nxt.append((s4, items)); continue
                        for s5, vj, w2 in it.split(s4, it.rd(s4, w[3][0]), OPTION):
                            if vj == 0: res.append(items); continue
                            x = it.deepval(s5, w2[3][0])
                            if x[2] == 1: res.append(items + ['ERR']); continue
                            p = path(x[3][0])
                            m = re.search(r'Key(?:Ts\w+)?#0\{K(\d+),(?:Timestamp#0\{)?T(\d+)', p); pl = re.search(r'ROWRAW#0\{\[V(\d+)\]', p)
                            nxt.append((s5, items + [('R', int(m.group(1)), int(m.group(2)), int(pl.group(1))) if m and pl else ('D', int(m.group(1)), int(m.group(2))) if m else p[:200]]))
            live = nxt
            if not live: break
        for s2, items in live: res.append(items + ['no end'])
    ctx.fns |= it.visited; ctx.sites |= it.sites; ctx.steps += it.steps
    return nx, res

@rule('S02', 'Q01')
def scan_visible(ctx):
    """scanning a table at a snapshot yields, in key order, for every key the newest version at or below the snapshot, deletes included, each once"""
    K = 'scan_visible'
    vers = lambda spec: spec
    data = [[], [[(1, 5, 0)]], [[(1, 7, 0), (1, 5, 1), (1, 3, 2)]], [[(1, 7, 0)], [(1, 5, 1), (2, 4, 2)], [(3, 9, 3)]], [[(2, 6, 0), (2, 2, 1)], [], [(4, 4, 2), (4, 1, 3)]], [[(1, 9, 0), (2, 9, 1)], [(3, 9, 2)]]]
    dels = [None, [[]], [[(1, 6)]], [[(1, 5), (1, 4)]], [[(2, 5)], [(3, 8), (4, 3)]], [[(1, 8), (1, 6), (1, 2)], [(2, 7)]], [[(5, 1)]]]
    for d in data:
        for x in dels:
            for ts in (0, 3, 5, 6, 8, 9):
                want = []
                allv = [('R', *r) for b in d for r in b] + [('D', *r) for b in x or [] for r in b]
                for k in sorted({v[1] for v in allv}):
                    c = [v for v in allv if v[1] == k and v[2] <= ts]
                    if c: want.append(max(c, key=lambda v: (v[2], v[0] == 'D')))
                nx, res = scan_run(ctx, d, x, ts)
                ctx.ob(K, f'{d}/{x}@{ts}', res == [want], f'table with data batches {d} and delete batches {x} read at {ts} yields {res[:1]}, expected {want}', ctx.loc(nx))
    d, x = data[3], dels[4]
    for pend in ((0,), (1,), (2,), (3,), (0, 1, 3, 4), (5, 6)):
        nx, res = scan_run(ctx, d, x, 9, pend=pend)
        base = scan_run(ctx, d, x, 9)[1]
        ctx.ob(K, f'pending {pend}', res == base, f'with pending polls {pend} the scan yields {res[:1]} instead of {base[:1]}', ctx.loc(nx))
    for fail in ((0, 0), (0, 1), (0, 3), (1, 0), (1, 1), 'project', ('row', 0), ('row', 1), *((k, s_, b, i) for k in ('key', 'own', 'nokey') for s_, b, i in ((0, 0, 0), (0, 1, 1), (0, 2, 0), (1, 0, 0), (1, 1, 0), (1, 1, 1)))):
        nx, res = scan_run(ctx, d, x, 9, fail=fail)
        ctx.ob(K, f'failing {fail}', res and all(r and r[-1] == 'ERR' for r in res), f'a read failure ({fail}) ends the scan with {res[:1]}', ctx.loc(nx))
    # batches that do not fit their timestamps
    f = ctx.fn(SC + 'decode_mvcc_from_data')
    for nm, b in (('missing', W.data_batch([(1, 5, 0)], ts=False)), ('null', W.B(W.DATA, [W.A('Utf8', [arg('K1b')]), W.A('Int64', [arg('V0')]), W.A('Utf8', [arg('K1a')]), W.A('UInt64', [NONE])])), ('wrong type', W.B(W.S([W.FLD('_commit_ts', 'Int64')]), [W.A('Int64', [arg('T1')])]))):
        st = State(); Interp_F[0] = ctx.F
        it, outs = ctx.run(f, RankQ(exact=True, calls=W.hooks()), args={'batch': tmp(st, 'b', b)}, st=st)
        ctx.ob(K, f'commit column {nm}', outs and not results(it, outs).get('Ok'), f'a data batch whose commit timestamps are {nm} is accepted', ctx.loc(f))
