"""Reading across sources: merge order, winner selection, limit, key-range algebra, row sets."""
from core import *
from rules.keys import setw
from rules.inmem import RankQ, struct, enum, key_bounds_val, BOUND, bound
import itertools

QS = 'crate::query::stream::'
SRC = ['Txn', 'Mutable', 'Immutable', 'SsTable']

def entry_of(ctx, src, k, t, kind, tag):
    SE, KV, KO, RR = ctx.adt('stream::StreamEntry'), ctx.adt('ts::KeyTsViewRaw'), ctx.adt('ts::KeyTsOwned'), ctx.adt('SstableRowRef')
    kv = struct(ctx, KV, key=arg(f'K{k}'), ts=arg(f'T{t}'))
    if src == 'SsTable':
        if kind == 'D': return enum(ctx, SE, 'SstableTombstone', struct(ctx, KO, key=arg(f'K{k}'), ts=arg(f'T{t}')))
        return enum(ctx, SE, 'Sstable', struct(ctx, RR, key_ts=kv, **{sst_row_field(ctx): arg(f'ROW{tag}')}))
    p = 'Txn' if src == 'Txn' else 'MemTable'
    if kind == 'D': return enum(ctx, SE, p + 'Tombstone', kv)
    return enum(ctx, SE, p, ('t', (kv, arg(f'ROW{tag}'))))

def sst_row_field(ctx):
    fs = [f[0] for f in ctx.F.adts[ctx.adt('SstableRowRef')]['v'][0]['f']]
    return next(f for f in fs if f != 'key_ts')

def stream_hooks(ctx, data, fail=None, pend=()):
    """data: per stream the entries; fail: (stream, position) that yields an error; pend: global poll numbers that are pending"""
    POLL = 'core::task::poll::Poll'
    def take(it, st, v):
        m = re.search(r'\bS(\d)\b', path(it.deepval(st, v)))
        if not m: return None
        i = int(m.group(1))
        pos = st.g('pos', (0,) * len(data))
        n = pos[i]
        st.setg('pos', pos[:i] + (n + 1,) + pos[i + 1:])
        if fail == (i, n): return some(err(arg('SERR')))
        if n >= len(data[i]): return NONE
        return some(ok(data[i][n]))
    def poll(it, st, c):
        if not re.search(r'\bS\d\b', path(it.deepval(st, c.args[0]))): return None
        np = st.g('polls', 0); st.setg('polls', np + 1)
        if np in pend: return [(st, ('e', POLL, 1, ()))]
        v = take(it, st, c.args[0])
        return [(st, ('e', POLL, 0, (v,)))]
    def nxt(it, st, c): return [(st, mk(('call', 'SNEXT', (it.deepval(st, c.args[0]),))))]
    def aw(it, st, name, args, site, term):
        return [(st, take(it, st, args[0]))]
    return [(r'Stream for|ScanStream.*::poll_next$', lambda it, st, c: poll(it, st, c) if c.name.endswith('poll_next') else None), (r'StreamExt::next$', nxt)], [(r'^SNEXT$', aw)]

def merged(streams, limit=None):
    """expected rows of the merge: [(key, ts, tag)]"""
    best = {}
    for si, (src, ents) in enumerate(streams):
        for k, t, kind, tag in ents:
            o = (-t, SRC.index(src), si)
            if k not in best or o < best[k][0]: best[k] = (o, kind, tag)
    rows = [(k, best[k][2]) for k in sorted(best) if best[k][1] == 'R']
    return rows if limit is None else rows[:limit]

def run_merge(ctx, streams, limit=None, fail=None, pend=(), calls=None):
    MS, SS = ctx.adt('MergeStream'), ctx.adt('stream::ScanStream')
    data = [[entry_of(ctx, src, *e) for e in ents] for src, ents in streams]
    H, A = stream_hooks(ctx, data, fail, pend)
    svals = ('a', tuple(enum(ctx, SS, src, arg(f'S{i}')) for i, (src, _) in enumerate(streams)))
    mkq = lambda: RankQ(exact=True, calls=H, awaits=A, max_states=400)
    f = ctx.fn(QS + "merge::MergeStream::<'t, E>::from_vec")
    it, outs = ctx.run(f, mkq(), args={'streams': svals, 'limit': NONE if limit is None else some(('c', limit)), 'order': NONE})
    res = []
    nx = ctx.impl('Stream', 'MergeStream', 'poll_next')
    n = sum(len(e) for _, e in streams) + 2 + len(pend)
    for o in outs:
        for s, vi, w in it.split(o.st, it.rd(o.st, o.v), RESULT):
            if vi == 1: res.append((s, ['ERR'])); continue
            q = mkq(); it2 = Interp(ctx.F, q)
            r = it2.tmp(s, 0, ('merge',), it.deepval(s, w[3][0]))
            live = [(s, [])]
            for k in range(n + 1):
                nxt = []
                for s2, items in live:
                    for s3, v in it2.run_body(s2.copy(), nx, [r, arg('cx')], ('root', k)):
                        for s4, vi, w in it2.split(s3, it2.rd(s3, v), 'core::task::poll::Poll'):
                            if vi == 1: nxt.append((s4, items + ['PENDING'])); continue
                            for s5, vj, w2 in it2.split(s4, it2.rd(s4, w[3][0]), OPTION):
                                if vj == 0: res.append((s5, items)); continue
                                p = path(it2.deepval(s5, w2[3][0]))
                                if p.startswith('Result#1'): res.append((s5, items + ['ERR'])); continue
                                m = re.search(r'\{\(?KeyTs\w+#0\{K(\d+),T(\d+)\}', p) or re.search(r'K(\d+),T(\d+)', p)
                                t = re.search(r'ROW(\w+)', p)
                                nxt.append((s5, items + [(int(m.group(1)), t.group(1)) if m and t else p]))
                live = nxt
                if not live: break
            for s2, items in live: res.append((s2, items + ['...']))
            ctx.fns |= it2.visited; ctx.sites |= it2.sites; ctx.steps += it2.steps
    return f, nx, res

def merge_cases():
    """arrangements of versions over sources"""
    out = []
    opts = [None] + [(t, k) for t in (1, 2) for k in 'RD']
    for a, b in itertools.product(opts, repeat=2):
        for sa, sb in (('Mutable', 'SsTable'), ('SsTable', 'Immutable')):
            s1 = ([(1, *a, 'a1')] if a else []) + [(2, 1, 'R', 'a2')]
            s2 = ([(1, *b, 'b1')] if b else []) + [(3, 1, 'R', 'b3')]
            out.append([(sa, s1), (sb, s2)])
    # equal timestamps: priority decides, in every order of the sources
    for perm in itertools.permutations(SRC, 3):
        for kinds in ('RRR', 'DRR', 'RDR', 'RRD'):
            out.append([(src, [(1, 5, kd, f'{src[0]}{i}')]) for i, (src, kd) in enumerate(zip(perm, kinds))])
    # older version below a tombstone, in each source order
    for perm in itertools.permutations(['Txn', 'Mutable', 'SsTable']):
        out.append([(perm[0], [(1, 9, 'D', 'x')]), (perm[1], [(1, 7, 'R', 'y'), (2, 7, 'R', 'z')]), (perm[2], [(1, 3, 'R', 'w'), (2, 8, 'D', 'v'), (3, 1, 'R', 'u')])])
    out.append([('Immutable', [(1, 3, 'R', 'p'), (4, 2, 'R', 'q')]), ('Immutable', [(2, 3, 'R', 'r'), (4, 3, 'R', 's')]), ('SsTable', [(0, 1, 'R', 't'), (3, 1, 'R', 'u')]), ('SsTable', [(2, 1, 'D', 'v'), (5, 1, 'R', 'w')])])
    out.append([('SsTable', [(1, 3, 'D', 'p'), (2, 3, 'D', 'q')]), ('SsTable', [(1, 2, 'R', 'r'), (2, 2, 'R', 's')])])
    out.append([])
    out.append([('Mutable', []), ('SsTable', [(1, 1, 'R', 'a')])])
    return out

@rule('Q01')
def merge_winner(ctx):
    """merging sources yields each key once, in key order, with its newest version (ties by source priority), and no deleted key"""
    K = 'merge_winner'
    for streams in merge_cases():
        f, nx, res = run_merge(ctx, streams)
        want = merged(streams)
        bad = [items for s, items in res if items != want]
        name = ' / '.join(src + ':' + ','.join(f'{k}@{t}{kd}' for k, t, kd, _ in ents) for src, ents in streams) or 'no sources'
        ctx.ob(K, name, res and not bad, f'sources {name} (key@timestamp, R row, D delete): expected {want}, merge yields {bad[:1]}', ctx.loc(nx))

@rule('Q02')
def merge_limit(ctx):
    """a limit of n yields the first n rows of the unlimited result; deleted keys and duplicates do not count"""
    K = 'merge_limit'
    base = [('Mutable', [(1, 5, 'R', 'a'), (2, 5, 'D', 'b'), (3, 5, 'R', 'c')]), ('SsTable', [(1, 4, 'R', 'd'), (2, 4, 'R', 'e'), (4, 4, 'R', 'f'), (5, 4, 'R', 'g')])]
    for streams in (base, base[::-1], [('SsTable', [(1, 2, 'D', 'a'), (2, 2, 'R', 'b')])], [('SsTable', [(1, 2, 'R', 'a'), (2, 2, 'D', 'b')])]):
        for lim in range(6):
            f, nx, res = run_merge(ctx, streams, limit=lim)
            want = merged(streams, lim)
            bad = [items for s, items in res if items != want]
            ctx.ob(K, f'{streams[0][0]}{len(streams)}{streams[0][1][0][2]}:{lim}', res and not bad, f'limit {lim} over {streams}: expected {want}, got {bad[:1]}', ctx.loc(nx))

@rule('Q02', 'Q01')
def merge_faults(ctx):
    """a pending source neither loses nor repeats entries, and a failing source surfaces as an error at or before the place of its missing entry"""
    K = 'merge_faults'
    streams = [('Mutable', [(1, 5, 'R', 'a'), (3, 5, 'R', 'c')]), ('SsTable', [(1, 4, 'R', 'd'), (2, 4, 'R', 'e'), (4, 4, 'D', 'f'), (5, 4, 'R', 'g')])]
    want = merged(streams)
    for pend in [(0,), (1,), (2,), (3,), (4,), (5,), (0, 1, 2), (1, 3, 5), (0, 2, 4, 5, 6)]:
        f, nx, res = run_merge(ctx, streams, pend=pend)
        bad = [items for s, items in res if [x for x in items if x != 'PENDING'] != want]
        ctx.ob(K, f'pending {pend}', res and not bad, f'polls {pend} pending: expected {want}, got {bad[:1]}', ctx.loc(nx))
    for si in (0, 1):
        for pos in range(len(streams[si][1]) + 1):
            f, nx, res = run_merge(ctx, streams, fail=(si, pos))
            bad = []
            for s, items in res:
                if 'ERR' not in items or items.index('ERR') != len(items) - 1: bad.append(items); continue
                rows = items[:-1]
                lost = streams[si][1][pos][0] if pos < len(streams[si][1]) else 99
                if rows != want[:len(rows)] or any(r[0] >= lost for r in rows): bad.append(items)
            ctx.ob(K, f'source {si} fails at entry {pos}', res and not bad, f'source {si} fails at entry {pos}: merge yields {bad[:1]}', ctx.loc(nx))

# ---- one source ----------------------------------------------------------------------------------
POLL = 'core::task::poll::Poll'

class Out:
    def __init__(self, st, v): self.st, self.v = st, v

@rule('Q01')
def source_entries(ctx):
    """each source's rows and tombstones reach the merge unchanged and as what they are; errors and pending pass through"""
    K = 'source_entries'
    SS, SE = ctx.adt('stream::ScanStream'), ctx.adt('stream::StreamEntry')
    f = ctx.impl('Stream', 'ScanStream', 'poll_next')
    KV, KO, RR = ctx.adt('ts::KeyTsViewRaw'), ctx.adt('ts::KeyTsOwned'), ctx.adt('SstableRowRef')
    kv = struct(ctx, KV, key=arg('K1'), ts=arg('T1'))
    src = {
        'Txn': [('TransactionScanEntry', 'Row', (('t', (kv, arg('ROW1'))),), 'Txn', True), ('TransactionScanEntry', 'Tombstone', (kv,), 'TxnTombstone', False)],
        'Mutable': [('DynRowScanEntry', 'Row', (kv, arg('ROW1')), 'MemTable', True), ('DynRowScanEntry', 'Tombstone', (kv,), 'MemTableTombstone', False)],
        'Immutable': [('ImmutableVisibleEntry', 'Row', (kv, arg('ROW1')), 'MemTable', True), ('ImmutableVisibleEntry', 'Tombstone', (kv,), 'MemTableTombstone', False)],
        'SsTable': [('SstableVisibleEntry', 'Row', (arg('ROW1'),), 'Sstable', True), ('SstableVisibleEntry', 'Tombstone', (arg('KT1'),), 'SstableTombstone', False)],
    }
    def run(sv, item):
        def poll(it, st, c):
            if not re.search(r'\bS\b', path(it.deepval(st, c.args[0]))): return None
            st.setg('n', st.g('n', 0) + 1)
            return [(st, item)]
        q = CQ(exact=True, calls=[(r'::poll_next$', poll), (r'(Iterator|SstableScan.*|Stream.*)::(next|poll_next)$', poll)])
        it = Interp(ctx.F, q); st = State()
        r = it.tmp(st, 0, ('scan',), enum(ctx, SS, sv, arg('S')))
        outs = [Out(s, v) for s, v in it.run_body(st, f, [r, arg('cx')], ('root', 0))]
        ctx.fns |= it.visited; ctx.sites |= it.sites; ctx.steps += it.steps
        return it, outs
    for sv, kinds in src.items():
        for adt, var, payload, want, isrow in kinds:
            try: item = enum(ctx, ctx.adt(adt), var, *payload)
            except Exception as e:
                ctx.ob(K, f'{sv}:{var}', False, f'cannot build {adt}::{var}: {e}', ctx.loc(f)); continue
            it, outs = run(sv, ('e', POLL, 0, (some(ok(item)),)))
            pl = [path(it.deepval(o.st, o.v)) for o in outs]
            pat = 'ROW1' if isrow else ('KT1' if sv == 'SsTable' else 'K1,T1')
            good = bool(pl)
            for p in pl:
                m = re.match(r'Poll#0\{Option#1\{Result#0\{StreamEntry#(\d+)\{', p)
                names = [v['n'] for v in ctx.F.adts[SE]['v']]
                if not m or names[int(m.group(1))] != want or pat not in p or (isrow and sv != 'SsTable' and 'K1,T1' not in p): good = False
            ctx.ob(K, f'{sv}:{var}', good, f'a {var.lower()} of a {sv} source becomes {pl[:1]}', ctx.loc(f))
        it, outs = run(sv, ('e', POLL, 0, (some(err(arg('SERR'))),)))
        pl = [path(it.deepval(o.st, o.v)) for o in outs]
        ctx.ob(K, f'{sv}:error', pl and all(re.match(r'Poll#0\{Option#1\{Result#1', p) and 'SERR' in p for p in pl), f'an error of a {sv} source becomes {pl[:1]}', ctx.loc(f))
        it, outs = run(sv, ('e', POLL, 0, (NONE,)))
        pl = [path(it.deepval(o.st, o.v)) for o in outs]
        ctx.ob(K, f'{sv}:end', pl and all(p.startswith('Poll#0{Option#0') for p in pl), f'the end of a {sv} source becomes {pl[:1]}', ctx.loc(f))
        it, outs = run(sv, ('e', POLL, 1, ()))
        pl = [path(it.deepval(o.st, o.v)) for o in outs]
        ctx.ob(K, f'{sv}:pending', pl and all(p.startswith('Poll#1') for p in pl), f'a pending {sv} source becomes {pl[:1]}', ctx.loc(f))

@rule('Q01')
def row_payload(ctx):
    """a row entry yields its own row, a tombstone none; is_tombstone and ts agree with the entry"""
    K = 'row_payload'
    SE = ctx.adt('stream::StreamEntry')
    pre = QS + 'StreamEntry::'
    conv = [(r'into_row_owned$|DynRowRaw::into_owned$|to_row$', lambda it, st, c: [(st, ok(mk(('call', 'OWN', (it.deepval(st, c.args[0]),)))))])]
    for src, kind in itertools.product(['Txn', 'Mutable', 'SsTable'], 'RD'):
        e = entry_of(ctx, src, 1, 7, kind, 'a')
        it, outs = ctx.run(pre + 'into_row', RankQ(exact=True, calls=conv), args=[e])
        pl = [path(it.deepval(o.st, o.v)) for o in outs if o.v is not None]
        good = pl and all(('ROWa' in p and p.startswith('Option#1')) if kind == 'R' else p.startswith('Option#0') for p in pl)
        ctx.ob(K, f'row:{src}{kind}', good, f'into_row of a {src} {"row" if kind == "R" else "tombstone"} gives {pl[:1]}', ctx.loc(pre + 'into_row'))

# ---- sources are opened with the caller's snapshot and range ------------------------------------------------------
@rule('Q01', 'I01')
def scan_wrappers(ctx):
    """opening a memtable source passes the read timestamp and the bounds through unchanged"""
    K = 'scan_wrappers'
    rec = lambda it, st, c: (st.setg('scan', st.g('scan', ()) + ((c.name.rsplit('::', 1)[-1], tuple(path(it.deepval(st, a)) for a in c.args[1:])),)), [(st, ok(arg('SCAN')))])[1]
    for nm, hook in (('OwnedMutableScan', 'scan_visible'), ('OwnedImmutableScan', 'scan_visible')):
        for suf in ('', '_range'):
            fname = QS + f"{nm}::<'t>::" + ('from_guard' if 'Mut' in nm and 'Imm' not in nm else 'from_arc') + suf
            f = ctx.fn(fname)
            it, outs = ctx.run(f, CQ(exact=True, calls=[(r'::scan_visible(_in_range)?$', rec)]))
            got = set()
            for o in outs:
                for s, vi, w in it.split(o.st, it.rd(o.st, o.v), RESULT):
                    if vi == 0: got.add((s.g('scan', ()), 'SCAN' in path(it.deepval(s, w))))
            want = (('scan_visible_in_range', ('projection_schema', 'read_ts', 'start', 'end')),) if suf else (('scan_visible', ('projection_schema', 'read_ts')),)
            ctx.ob(K, nm + suf, got and all(g[0] == want and g[1] for g in got), f'{fname} opens {list(got)[:1]}, expected {want}', ctx.loc(f))

# ---- key ranges -----------------------------------------------------------------------------------------------
KBN = 'crate::query::scan::KeyBounds::'

def kb_all(empties=True):
    ends = [None, (2, True), (2, False), (4, True), (4, False)]
    out = [(lo, hi, False) for lo in ends for hi in ends if not (lo and hi and (lo[0] > hi[0] or lo[0] == hi[0] and not (lo[1] and hi[1])))]
    return out + ([(None, None, True)] if empties else [])

def kb_in(b, k):
    lo, hi, e = b
    return not e and (lo is None or k > lo[0] or k == lo[0] and lo[1]) and (hi is None or k < hi[0] or k == hi[0] and hi[1])

def kb_parse(p):
    """(lower, upper, empty) of the printed value, or None"""
    m = re.fullmatch(r'KeyBounds#0\{(Option#.*),(Option#.*),(\w+)\}', p)
    if not m: return None
    def one(x):
        if x in ('Option#0', 'Option#0{}'): return None
        n = re.fullmatch(r'Option#1\{KeyBound#0\{K(\d+)\w*,(\w+)\}\}', x)
        return (int(n.group(1)), n.group(2) in ('True', 'true', '1')) if n else '?'
    lo, hi = one(m.group(1)), one(m.group(2))
    if '?' in (lo, hi): return None
    return (lo, hi, m.group(3) in ('True', 'true', '1'))

def kbq(): return RankQ(exact=True)

@rule('Q03')
def bounds_construct(ctx):
    """the range built from comparison operands contains exactly the keys the comparison admits, and is empty only if no key can be admitted"""
    K = 'bounds_construct'
    B = lambda b: TRUE if b else FALSE
    cases = []
    for inc in (True, False):
        cases.append(('with_lower', [arg('K2'), B(inc)], ((2, inc), None, False)))
        cases.append(('with_upper', [arg('K4'), B(inc)], (None, (4, inc), False)))
        for inc2 in (True, False):
            for lo, hi in ((2, 4), (3, 3), (4, 2)):
                cases.append(('with_range', [('t', (arg(f'K{lo}'), B(inc))), ('t', (arg(f'K{hi}'), B(inc2)))], ((lo, inc), (hi, inc2), False)))
    for fn, a, want in cases:
        f = ctx.fn(KBN + fn)
        it, outs = ctx.run(f, kbq(), args=a)
        for o in outs:
            p = path(it.deepval(o.st, o.v)); g = kb_parse(p)
            w = [kb_in(want, k) for k in range(7)]
            ok_ = g is not None and [kb_in(g, k) for k in range(7)] == w and g[2] == (want[0] is not None and want[1] is not None and not kb_any(want))
            ctx.ob(K, f'{fn}{want}', ok_, f'{fn}{want[:2]} gives {p}', ctx.loc(f))
        if not outs: ctx.ob(K, f'{fn}{want}', False, f'{fn} returns nothing', ctx.loc(f))

def kb_any(b):
    lo, hi, e = b
    return not e and not (lo and hi and (lo[0] > hi[0] or lo[0] == hi[0] and not (lo[1] and hi[1])))

@rule('Q03')
def bounds_algebra(ctx):
    """intersection of two ranges keeps every key in both (and no other), the envelope of two ranges keeps every key in either"""
    K = 'bounds_algebra'
    keys = range(7)
    allb = kb_all()
    lows = [None, (2, True), (2, False), (3, True)]; his = [None, (4, True), (4, False), (3, True)]
    A = [(lo, hi, False) for lo in lows for hi in his] + [(None, None, True), ((1, True), (2, True), False), ((4, True), (5, True), False), ((4, False), None, False), (None, (2, False), False)]
    for fn in ('intersect', 'union_envelope'):
        f = ctx.fn(KBN + fn)
        for a, b in itertools.product(A, repeat=2):
            if not a[2] and not kb_any(a) or not b[2] and not kb_any(b): continue
            q = kbq(); it = Interp(ctx.F, q); st = State()
            ra, rb = it.tmp(st, 0, ('a',), key_bounds_val(ctx, *a)), it.tmp(st, 0, ('b',), key_bounds_val(ctx, *b))
            outs = it.run_body(st, f, [ra, rb], ('root', 0))
            ctx.fns |= it.visited; ctx.sites |= it.sites; ctx.steps += it.steps
            bad = []
            for s, v in outs:
                p = path(it.deepval(s, v)); g = kb_parse(p)
                if g is None: bad.append(p); continue
                if fn == 'intersect':
                    w = (max_lo(a[0], b[0]), min_hi(a[1], b[1]), a[2] or b[2])
                    if [kb_in(g, k) for k in keys] != [kb_in(a, k) and kb_in(b, k) for k in keys] or g[2] != (not kb_any(w)): bad.append(p)
                else:
                    if any((kb_in(a, k) or kb_in(b, k)) and not kb_in(g, k) for k in keys): bad.append(p)
                    elif (a[2] and b[2]) != g[2]: bad.append(p)
            ctx.ob(K, f'{fn}{a}{b}', outs and not bad, f'{fn} of {a} and {b} (lower, upper, empty; (key, inclusive)): {bad[:1]}', ctx.loc(f))

def max_lo(a, b):
    if a is None or b is None: return a or b
    return max(a, b, key=lambda x: (x[0], not x[1]))
def min_hi(a, b):
    if a is None or b is None: return a or b
    return min(a, b, key=lambda x: (x[0], x[1]))

@rule('Q03')
def bounds_overlap(ctx):
    """a source is skipped only if no key between its smallest and largest key lies in the range"""
    K = 'bounds_overlap'
    f = ctx.fn(KBN + 'overlaps')
    g = ctx.fn(KBN + 'is_empty')
    for b in kb_all():
        if b[0] and b[1] and b[0][0] == b[1][0]: pass
        for lo in range(1, 6):
            for hi in range(lo, 6):
                q = kbq(); it = Interp(ctx.F, q); st = State()
                outs = it.run_body(st, f, [it.tmp(st, 0, ('s',), key_bounds_val(ctx, *b)), it.tmp(st, 0, ('a',), arg(f'K{lo}')), it.tmp(st, 0, ('b',), arg(f'K{hi}'))], ('root', 0))
                ctx.fns |= it.visited; ctx.sites |= it.sites; ctx.steps += it.steps
                # keys between: the ends and an unnamed key strictly inside
                may = any(kb_in(b, k) for k in (lo, hi)) or not b[2] and (b[0] is None or b[0][0] < hi) and (b[1] is None or b[1][0] > lo) and lo < hi
                got = {path(it.deepval(s, v)) for s, v in outs}
                ctx.ob(K, f'{b}[{lo},{hi}]', got and (not may or got <= {'True', 'true', '1'}), f'keys {lo}..{hi}, range {b}: overlaps says {got}', ctx.loc(f))
        q = kbq(); it = Interp(ctx.F, q); st = State()
        outs = it.run_body(st, g, [it.tmp(st, 0, ('s',), key_bounds_val(ctx, *b))], ('root', 0))
        got = {path(it.deepval(s, v)) in ('True', 'true', '1') for s, v in outs}
        ctx.ob(K, f'is_empty{b}', got == {b[2]}, f'is_empty of {b} gives {got}', ctx.loc(g))

@rule('Q03')
def prefix_upper_bound(ctx):
    """the upper bound computed for a prefix is above every string with the prefix and no higher than needed"""
    K = 'prefix_upper_bound'
    f = ctx.fn('crate::query::scan::next_prefix_string')
    X = '\U0010ffff'
    for s in ('a', 'ab', 'az', 'a\uD7FF'.encode('utf-16', 'surrogatepass').decode('utf-16'), 'a' + X, 'ab' + X, X, X + X, 'b' + X + X, X + 'a', '\U0010fffe', 'a\x7f', '\uffff', ''):
        it, outs = ctx.run(f, CQ(exact=True, max_states=5000), args=[('s', s)])
        got = {path(it.deepval(o.st, o.v)) for o in outs}
        want = None
        for i in range(len(s) - 1, -1, -1):
            n = ord(s[i]) + 1
            if 0xD800 <= n <= 0xDFFF: n = 0xE000
            if n <= 0x10FFFF: want = s[:i] + chr(n); break
        w = 'Option#0' if want is None else 'Option#1{%s}' % path(('s', want))
        ctx.ob(K, 'prefix:' + ascii(s), got == {w}, f'upper bound of prefix {ascii(s)}: expected {ascii(want)}, got {sorted(map(ascii, got))}', ctx.loc(f))

# ---- row selections -----------------------------------------------------------------------------------------
RSN = 'crate::query::scan::RowSet::'
def bits(v):
    return v[1][4:] if v[0] == 's' and v[1].startswith('SEL:') else None
def sel(b): return ('s', 'SEL:' + b)

def sel_hooks(ctx):
    """parquet's RowSelection as the string of its rows (1 selected, 0 skipped), per its documentation"""
    from exact import xall
    SR = next(k for k in ctx.F.adts if k.endswith('::RowSelector'))
    def from_ranges(it, st, c):
        out = []
        tot = it.deepval(st, c.args[1])
        if tot[0] != 'c': return None
        src = it.rd(st, c.args[0])
        if src[0] != 'it': src = ('it', 'own', src)
        for s, els in xall(it, st, src, c):
            b = ['0'] * tot[1]
            for e in els:
                e = it.deepval(s, e)
                if e[0] != 'e' or any(x[0] != 'c' for x in e[3][:2]): return None
                for i in range(e[3][0][1], e[3][1][1]): b[i] = '1'
            out.append((s, sel(''.join(b))))
        return out
    def two(f):
        def h(it, st, c):
            a, b = bits(it.deepval(st, c.args[0])), bits(it.deepval(st, c.args[1]))
            if a is None or b is None: return None
            n = max(len(a), len(b)); a, b = a.ljust(n, '0'), b.ljust(n, '0')
            return [(st, sel(''.join(f(x, y) for x, y in zip(a, b))))]
        return h
    def cnt(ch):
        def h(it, st, c):
            a = bits(it.deepval(st, c.args[0]))
            return None if a is None else [(st, ('c', a.count(ch)))]
        return h
    def any_(it, st, c):
        a = bits(it.deepval(st, c.args[0]))
        return None if a is None else [(st, TRUE if '1' in a else FALSE)]
    def iter_(it, st, c):
        a = bits(it.deepval(st, c.args[0]))
        if a is None: return None
        els = tuple(struct(ctx, SR, row_count=('c', len(list(g))), skip=TRUE if ch == '0' else FALSE) for ch, g in itertools.groupby(a))
        if c.short == 'iter':
            r = it.tmp(st, c.frame, ('sel', a, c.bb), ('a', els))
            return [(st, ('it', 'rs', r[1], r[2], 0, len(els)))]
        return [(st, ('it', 'own', ('a', els)))]
    R = r'RowSelection::'
    return [(R + 'from_consecutive_ranges$', from_ranges), (R + 'intersection$', two(lambda x, y: '1' if x + y == '11' else '0')), (R + 'union$', two(lambda x, y: '1' if '1' in x + y else '0')),
            (R + 'row_count$', cnt('1')), (R + 'skipped_row_count$', cnt('0')), (R + 'selects_any$', any_), (R + 'iter$', iter_)]

@rule('Q04')
def rowset_algebra(ctx):
    """row sets select exactly the rows asked for; combining keeps exactly the common (or joint) rows and refuses sets of different sources"""
    K = 'rowset_algebra'
    RS = ctx.adt('scan::RowSet')
    RG = 'core::ops::range::Range'
    def rs(b): return struct(ctx, RS, total_rows=('c', len(b)), selection=sel(b))
    def call(fn, *vals):
        q = CQ(exact=True, calls=sel_hooks(ctx)); it = Interp(ctx.F, q); st = State()
        f = ctx.fn(fn if '::' in fn else RSN + fn)
        args = [it.tmp(st, 0, ('x', i), v[1]) if v[0] == 'ref' else v for i, v in enumerate(vals)]
        outs = it.run_body(st, f, args, ('root', 0))
        ctx.fns |= it.visited; ctx.sites |= it.sites; ctx.steps += it.steps
        return f, [path(it.deepval(s, v)) for s, v in outs]
    def expect(key, fn, want, *vals):
        f, got = call(fn, *vals)
        ctx.ob(K, key, got and set(got) == {want}, f'{key}: expected {want}, got {sorted(set(got))}', ctx.loc(f))
    P = lambda b: path(rs(b))
    for n in (0, 1, 3):
        expect(f'all({n})', 'all', P('1' * n), ('c', n))
        expect(f'none({n})', 'none', P('0' * n), ('c', n))
    rng = lambda a, b: ('e', RG, 0, (('c', a), ('c', b)))
    for n, rgs in ((5, ((0, 2), (3, 5))), (4, ((1, 2),)), (3, ()), (4, ((0, 4),))):
        b = ''.join('1' if any(x <= i < y for x, y in rgs) else '0' for i in range(n))
        expect(f'from_ranges({n},{rgs})', 'from_ranges', P(b), ('c', n), ('it', 'own', ('a', tuple(rng(*r) for r in rgs))))
    samples = ['', '1', '0', '101', '010', '111', '000', '0110', '1001', '1111', '0000', '00111']
    B = lambda b: path(TRUE if b else FALSE)
    for a in samples:
        r = ('ref', rs(a))
        expect(f'len:{a}', 'len', path(('c', a.count('1'))), r)
        expect(f'total:{a}', 'total_rows', path(('c', len(a))), r)
        expect(f'is_empty:{a}', 'is_empty', B('1' not in a), r)
        expect(f'is_full:{a}', 'is_full', B('0' not in a), r)
        expect(f'to_selection:{a}', 'to_row_selection', path(NONE) if '0' not in a else path(some(sel(a))), r)
        expect(f'selection:{a}', 'selection', path(sel(a)), r)
        for n in (len(a) - 1, len(a), len(a) + 1):
            if n < 0: continue
            f, got = call('from_row_selection', ('c', n), sel(a))
            good = got and all(g == path(ok(rs(a))) if n == len(a) else g.startswith('Result#1') for g in got)
            ctx.ob(K, f'from_selection:{n}:{a}', good, f'a selection of {len(a)} rows for a source of {n} rows gives {got[:1]}', ctx.loc(f))
        for b in samples:
            for fn, op in (('intersect', lambda x, y: x == y == '1'), ('union', lambda x, y: '1' in x + y)):
                f, got = call(fn, r, ('ref', rs(b)))
                want = path(ok(rs(''.join('1' if op(x, y) else '0' for x, y in zip(a, b)))))
                good = got and all(g == want if len(a) == len(b) else g.startswith('Result#1') for g in got)
                ctx.ob(K, f'{fn}:{a}:{b}', good, f'{fn} of {a} and {b} gives {got[:1]}, expected {want if len(a) == len(b) else "an error"}', ctx.loc(f))
    # iteration
    nx = ctx.impl('Iterator', 'RowSetIter', 'next')
    for a in samples:
        q = CQ(exact=True, calls=sel_hooks(ctx)); it = Interp(ctx.F, q); st = State()
        f = ctx.fn(RSN + 'iter')
        live = []
        for s, v in it.run_body(st, f, [it.tmp(st, 0, ('x',), rs(a))], ('root', 0)):
            live.append((s, it.tmp(s, 0, ('iter',), it.rd(s, v)), []))
        res = []
        for k in range(len(a) + 2):
            nl = []
            for s, r, got in live:
                for s2, v in it.run_body(s.copy(), nx, [r], ('root', k + 1)):
                    for s3, vi, w in it.split(s2, it.rd(s2, v), OPTION):
                        if vi == 0: res.append(got)
                        else: nl.append((s3, r, got + [path(it.deepval(s3, w[3][0]))]))
            live = nl
        want = [str(i) for i, ch in enumerate(a) if ch == '1']
        ctx.fns |= it.visited; ctx.sites |= it.sites; ctx.steps += it.steps
        ctx.ob(K, f'iter:{a}', res and all(x == want for x in res) and not live, f'iterating {a} yields {res[:1]}, expected {want}', ctx.loc(nx))
