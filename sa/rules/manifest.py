"""The manifest: atomic publication of versions, edit semantics, catalog registration, snapshots and listing."""
from core import *
from rules.inmem import struct, enum, conc_atomic
import itertools

DR = 'crate::manifest::driver::'
MF = DR + "Manifest::<"

class Store:
    """the external key-value manifest: data = {key path: value}; ops are logged as the ghost `log`; the fail-th fallible op fails"""
    def __init__(self, ctx, data, fail=None, scan=None):
        self.ctx, self.data, self.fail, self.scan = ctx, data, fail, scan
    def log(self, st, *e): st.setg('log', st.g('log', ()) + (e,))
    def fallible(self, st, okv):
        n = st.g('nf', 0); st.setg('nf', n + 1)
        if self.fail == n:
            st.setg('failed', 1)
            return err(arg('STORE_ERR'))
        return ok(okv)
    def hooks(self):
        ctx = self.ctx
        def key(it, st, v): return it.deepval(st, v)
        def get(it, st, c): return [(st, mk(('call', 'SGET', (it.deepval(st, c.args[1]),))))]
        def put(it, st, c):
            self.log(st, 'put', path(it.deepval(st, c.args[1])), it.deepval(st, c.args[2])); return [(st, UNIT)]
        def dele(it, st, c):
            self.log(st, 'del', path(it.deepval(st, c.args[1]))); return [(st, UNIT)]
        def fut(nm): return lambda it, st, c: [(st, mk(('call', nm, tuple(it.deepval(st, a) for a in c.args[1:]))))]
        def a_open(mode):
            def h(it, st, name, args, site, term):
                self.log(st, 'open', mode); return [(st, self.fallible(st, arg('SESSION')))]
            return h
        def a_get(it, st, name, args, site, term):
            k = path(args[0])
            self.log(st, 'get', k)
            v = self.data.get(k)
            return [(st, self.fallible(st, NONE if v is None else some(v)))]
        def a_commit(it, st, name, args, site, term):
            self.log(st, 'commit'); r = self.fallible(st, UNIT)
            if r == ok(UNIT): st.setg('committed', st.g('committed', 0) + 1)
            return [(st, r)]
        def a_end(it, st, name, args, site, term):
            self.log(st, 'end'); return [(st, self.fallible(st, UNIT))]
        def a_scan(it, st, name, args, site, term):
            self.log(st, 'scan', path(args[0])); return [(st, self.fallible(st, self.scan))]
        R = r'(ReadSession|WriteSession|Session)\w*.*::'
        X = r'^fusio_manifest::.*::'
        return ([(X + 'get$', get), (X + 'put$', put), (X + 'delete$', dele), (X + 'commit$', fut('SCOMMIT')), (X + 'end$', fut('SEND')),
                 (X + 'session_write$', fut('SWRITE')), (X + 'session_read$', fut('SREAD')), (X + 'scan_range$', fut('SSCAN')), (X + 'snapshot$', lambda it, st, c: [(st, arg('MSNAP'))])],
                [(r'^SGET$', a_get), (r'^SCOMMIT$', a_commit), (r'^SEND$', a_end), (r'^SWRITE$', a_open('w')), (r'^SREAD$', a_open('r')), (r'^SSCAN$', a_scan)])

def vkey(ctx, kind, ts=None):
    VK = ctx.adt('domain::VersionKey')
    return enum(ctx, VK, kind, arg('TBL'), *([TS(ctx, ts)] if ts is not None else []))
def TS(ctx, n): return struct(ctx, ctx.adt('mvcc::Timestamp'), **{'0': ('c', n) if isinstance(n, int) else n})
def vval(ctx, kind, v): return enum(ctx, ctx.adt('domain::VersionValue'), kind, v)
def head(ctx, last=None, floor=NONE, tbl='TBL'):
    return struct(ctx, ctx.adt('domain::TableHead'), table_id=arg(tbl), schema_version=arg('SCHEMA_V'), wal_floor=floor, last_manifest_txn=NONE if last is None else some(TS(ctx, last)))
def seg(ctx, seq, fid=None, f0=1, f1=9):
    return struct(ctx, ctx.adt('domain::WalSegmentRef'), seq=('c', seq), file_id=arg(fid or f'F{seq}'), first_frame=('c', f0), last_frame=('c', f1))
def sst(ctx, i, tag=''):
    return struct(ctx, ctx.adt('domain::SstEntry'), data_path=arg(f'DATA{i}{tag}'), delete_path=NONE, sst_id=sid(ctx, i), stats=NONE, wal_segments=NONE)
def sid(ctx, i): return struct(ctx, ctx.adt('sstable::SsTableId'), **{'0': ('c', i)})
def vstate(ctx, ts, levels=(), segs=(), floor=None, wm=NONE):
    L = ('a', tuple(('a', tuple(sst(ctx, *(x if isinstance(x, tuple) else (x,))) for x in l)) for l in levels))
    S = ('a', tuple(seg(ctx, *(x if isinstance(x, tuple) else (x,))) for x in segs))
    return struct(ctx, ctx.adt('domain::VersionState'), table_id=arg('TBL'), commit_timestamp=TS(ctx, ts), ssts=L, wal_segments=S, wal_floor=floor or NONE, tombstone_watermark=wm)
def edit(ctx, kind, *a): return enum(ctx, ctx.adt('version::VersionEdit'), kind, *a)

def meth(ctx, name):
    c = [b for k, b in ctx.F.bodies.items() if k.startswith('crate::manifest::driver::Manifest') and k.endswith('::' + name) and '::tests' not in k]
    if len(c) == 1: return c[0]
    raise Missing(f'Manifest::{name}')

def fields(ctx, v):
    """{field: value} of a struct value"""
    return {f[0]: x for f, x in zip(ctx.F.adts[v[1]]['v'][v[2]]['f'], v[3])}


P = path
def run_store(ctx, f, S, args, extra=()):
    C, A = S.hooks()
    it, outs = ctx.run(f, CQ(exact=True, calls=list(extra) + C, awaits=A), args=args)
    res = []
    for o in outs:
        for s, vi, w in it.split(o.st, it.rd(o.st, o.v), RESULT):
            res.append((s, vi == 0, it.deepval(s, w[3][0])))
    return it, res

def writes(s): return [e for e in s.g('log', ()) if e[0] in ('put', 'del', 'commit')]

def db7(ctx, last=7, levels=((1,), (2,)), segs=(3, 4), version=True, hd=True):
    d = {}
    if hd: d[P(vkey(ctx, 'TableHead'))] = vval(ctx, 'TableHead', head(ctx, last, some(seg(ctx, segs[0])) if last is not None and segs else NONE))
    if last is not None and version:
        d[P(vkey(ctx, 'TableVersion', last))] = vval(ctx, 'TableVersion', vstate(ctx, last, levels, segs, some(seg(ctx, segs[0])) if segs else NONE))
    return d

def publish_problem(ctx, s, old, levels, segs, wm=None):
    """what is wrong with a successful publication on top of version `old` (None: nothing)"""
    log = s.g('log', ())
    w = writes(s)
    if [e[0] for e in log].count('commit') != 1 or log[-1][0] != 'commit': return 'not exactly one commit after every write'
    puts = {}
    for e in w:
        if e[0] == 'put':
            if e[1] in puts: return f'{e[1]} written twice'
            puts[e[1]] = e[2]
    dels = [e[1] for e in w if e[0] == 'del']
    new = (old or 0) + 1
    hk, vk, wk = P(vkey(ctx, 'TableHead')), P(vkey(ctx, 'TableVersion', new)), P(vkey(ctx, 'WalFloor'))
    fl = some(seg(ctx, min(segs))) if segs else NONE
    want = {vk: P(vval(ctx, 'TableVersion', vstate(ctx, new, levels, sorted(segs), fl, NONE if wm is None else some(wm)))), hk: P(vval(ctx, 'TableHead', head(ctx, new, fl)))}
    if segs: want[wk] = P(vval(ctx, 'WalFloor', seg(ctx, min(segs))))
    for k, v in want.items():
        if k not in puts: return f'{k} is not published'
        if P(puts[k]) != v: return f'{k} published as {P(puts[k])}, expected {v}'
    x = set(puts) - set(want)
    if x: return f'unexpected write of {sorted(x)}'
    if not segs and dels != [wk] or segs and dels: return f'deletes {dels}'
    return None

EDITS = lambda ctx: [
    ('add', (edit(ctx, 'AddSsts', ('c', 0), ('a', (sst(ctx, 5),))),), lambda L, S: ([L[0] + [5]] + L[1:] if L else [[5]], S)),
    ('wal', (edit(ctx, 'SetWalSegments', ('a', (seg(ctx, 9), seg(ctx, 6)))),), lambda L, S: (L, [6, 9])),
    ('nowal', (edit(ctx, 'SetWalSegments', ('a', ())),), lambda L, S: (L, [])),
]

@rule('M01')
def publish(ctx):
    """applying edits publishes version, head and WAL floor in one commit on top of the head's version, or changes nothing"""
    K = 'publish'
    f = meth(ctx, 'apply_version_edits_inner')
    for last in (7, None):
        for nm, ed, eff in EDITS(ctx):
            for guard in ('off', 'equal'):
                exp = NONE if guard == 'off' else some(some(TS(ctx, last)) if last is not None else NONE)
                args = {'table': arg('TBL'), 'edits': ('a', ed), 'expected_head': exp}
                L0, S0 = ([[1], [2]], [3, 4]) if last is not None else ([], [])
                it, res = run_store(ctx, f, Store(ctx, db7(ctx, last)), args)
                L, W = eff(L0, S0)
                bad = []
                for s, good, v in res:
                    pr = publish_problem(ctx, s, last, L, W) if good else 'rejected: ' + P(v)
                    if not pr and P(v) != P(TS(ctx, (last or 0) + 1)): pr = f'returns {P(v)}'
                    if pr: bad.append(pr)
                ctx.ob(K, f'{nm}:{last}:{guard}', res and not bad, f'edit {nm} on head {last}, guard {guard}: {bad[:1]}', ctx.loc(f))
                n = 6
                for fail in range(n):
                    it, res = run_store(ctx, f, Store(ctx, db7(ctx, last), fail=fail), args)
                    bad = [P(v) for s, good, v in res if s.g('failed') and (good or s.g('committed'))]
                    ctx.ob(K, f'{nm}:{last}:{guard}:fault{fail}', res and not bad, f'store operation {fail} fails, edit {nm}, head {last}: answered {bad[:1]}', ctx.loc(f))
    # refused
    R = [('no edits', db7(ctx), (), NONE), ('no head', {}, EDITS(ctx)[0][1], NONE), ('version of the head missing', db7(ctx, version=False), EDITS(ctx)[0][1], NONE),
         ('removal from a missing level', db7(ctx), (edit(ctx, 'AddSsts', ('c', 0), ('a', (sst(ctx, 5),))), edit(ctx, 'RemoveSsts', ('c', 4), ('a', (sid(ctx, 1),)))), NONE),
         ('head of the wrong kind', {P(vkey(ctx, 'TableHead')): vval(ctx, 'WalFloor', seg(ctx, 1))}, EDITS(ctx)[0][1], NONE)]
    for nm, d, ed, exp in R:
        it, res = run_store(ctx, f, Store(ctx, d), {'table': arg('TBL'), 'edits': ('a', ed), 'expected_head': exp})
        bad = [P(v) for s, good, v in res if good or s.g('committed')]
        ctx.ob(K, 'refused:' + nm, res and not bad, f'{nm}: accepted with {bad[:1]}', ctx.loc(f))

@rule('M01', 'W08')
def publish_guard(ctx):
    """a publication guarded by an expected head is refused, without effect, unless the head is exactly that"""
    K = 'publish_guard'
    CE = ctx.adt('driver::ManifestError')
    names = [v['n'] for v in ctx.F.adts[CE]['v']]
    f = meth(ctx, 'apply_version_edits_inner')
    ed = EDITS(ctx)[0][1]
    for last in (7, None):
        for exp in (None, 6, 7, 8):
            same = exp == last
            it, res = run_store(ctx, f, Store(ctx, db7(ctx, last)), {'table': arg('TBL'), 'edits': ('a', ed), 'expected_head': some(NONE if exp is None else some(TS(ctx, exp)))})
            bad = [P(v) for s, good, v in res if good != same or not same and (s.g('committed') or v[0] == 'e' and v[1] == CE and names[v[2]] != 'CasConflict')]
            ctx.ob(K, f'{last}:{exp}', res and not bad, f'head {last}, expected {exp}: {"refused" if same else "not refused as a conflict"}: {bad[:1]}', ctx.loc(f))
    # the guarded entry points hand the expected head on
    for nm, want in (('apply_version_edits_cas', 'Option#1{expected_head}'), ('apply_version_edits', 'Option#0')):
        g = meth(ctx, nm)
        rec = lambda it, st, c: [(st, mk(('call', 'INNER', tuple(it.deepval(st, x) for x in c.args[1:]))))]
        aw = lambda it, st, name, args, site, term: (st.setg('inner', tuple(P(x) for x in args)), [(st, arg('RES'))])[1]
        it, outs = ctx.run(g, CQ(exact=True, calls=[(r'::apply_version_edits_inner$', rec)], awaits=[(r'^INNER$', aw)]))
        got = {(o.st.g('inner'), P(it.deepval(o.st, o.v))) for o in outs}
        ctx.ob(K, nm, got == {(('table', 'edits', want), 'RES')}, f'{nm} calls the publication with {got}', ctx.loc(g))

@rule('M01')
def publish_facade(ctx):
    """the manifest facade hands publications and reads through unchanged"""
    K = 'publish_facade'
    pre = [k for k in ctx.F.bodies if k.startswith('crate::manifest::bootstrap::TonboManifest')]
    def m(n):
        c = [ctx.F.bodies[k] for k in pre if k.endswith('::' + n)]
        if len(c) != 1: raise Missing('TonboManifest::' + n)
        return c[0]
    for n, inner, want in (('apply_version_edits', None, ('table', 'edits')), ('apply_version_edits_cas', None, ('table', 'expected_head', 'edits')), ('wal_floor', None, ('table',)),
                           ('record_gc_plan', 'put_gc_plan', ('table', 'plan')), ('list_versions', None, ('table', 'limit'))):
        g = m(n)
        rec = lambda it, st, c: [(st, mk(('call', 'INNER', (('s', c.short),) + tuple(it.deepval(st, x) for x in c.args[1:]))))]
        aw = lambda it, st, name, args, site, term: (st.setg('inner', st.g('inner', ()) + ((args[0][1],) + tuple(P(x) for x in args[1:]),)), [(st, arg('RES'))])[1]
        it, outs = ctx.run(g, CQ(exact=True, calls=[(r'driver::Manifest::.*::\w+$', rec)], awaits=[(r'^INNER$', aw)]))
        got = {(o.st.g('inner'), P(it.deepval(o.st, o.v))) for o in outs}
        ctx.ob(K, n, got == {(((inner or n,) + want,), 'RES')}, f'{n} hands on {got}, expected {want}', ctx.loc(g))

# ---- edit semantics ----------------------------------------------------------------------------------------------
def oracle_edits(levels, segs, wm, edits):
    L = [list(l) for l in levels]; S = list(segs)
    for e in edits:
        if e[0] == 'add':
            if not e[2]: continue
            while len(L) <= e[1]: L.append([])
            for x in e[2]:
                i = x[0] if isinstance(x, tuple) else x
                L[e[1]] = [y for y in L[e[1]] if (y[0] if isinstance(y, tuple) else y) != i] + [x]
        elif e[0] == 'rm':
            if not e[2]: continue
            if e[1] >= len(L): return None
            L[e[1]] = [y for y in L[e[1]] if (y[0] if isinstance(y, tuple) else y) not in e[2]]
        elif e[0] == 'wal': S = list(e[1])
        elif e[0] == 'wm': wm = e[1]
    L = [sorted(l, key=lambda y: y[0] if isinstance(y, tuple) else y) for l in L]
    while L and not L[-1]: L.pop()
    key = lambda x: (x[0], x[2], x[3], x[1]) if isinstance(x, tuple) else (x, 1, 9, f'F{x}')
    return L, sorted(S, key=key), wm

@rule('M02')
def edit_semantics(ctx):
    """edits apply in order: added files appear in their level once, removed ones disappear from that level only, the WAL set is replaced; levels are kept sorted and trimmed, the floor is the least segment"""
    K = 'edit_semantics'
    f = ctx.fn('crate::manifest::domain::VersionState::apply_edits')
    def conv(e):
        ent = lambda x: sst(ctx, *(x if isinstance(x, tuple) else (x,)))
        if e[0] == 'add': return edit(ctx, 'AddSsts', ('c', e[1]), ('a', tuple(ent(x) for x in e[2])))
        if e[0] == 'rm': return edit(ctx, 'RemoveSsts', ('c', e[1]), ('a', tuple(sid(ctx, x) for x in e[2])))
        if e[0] == 'wal': return edit(ctx, 'SetWalSegments', ('a', tuple(seg(ctx, *(x if isinstance(x, tuple) else (x,))) for x in e[1])))
        return edit(ctx, 'SetTombstoneWatermark', ('c', e[1]))
    bases = [([], [], None), ([[1, 3]], [4, 5], 9), ([[2], [], [6, 8]], [7], None), ([[1], [5, 7]], [], 3)]
    E = [[('add', 0, [5])], [('add', 0, [2, 4])], [('add', 0, [(1, 'new')])], [('add', 2, [9])], [('add', 1, [])], [('add', 4, [])], [('rm', 0, [1])], [('rm', 0, [2])], [('rm', 1, [5])], [('rm', 1, [5, 7])], [('rm', 2, [6, 8])], [('rm', 2, [8])], [('rm', 3, [1])],
         [('rm', 5, [])], [('rm', 0, [99])], [('add', 1, [10, 9]), ('rm', 0, [1])], [('rm', 0, [1]), ('add', 0, [1])], [('add', 0, [1]), ('rm', 0, [1])], [('add', 3, [11]), ('rm', 3, [11])], [('add', 0, [(5, 'a'), (5, 'b')])],
         [('wal', [9, 6, 8])], [('wal', [])], [('wal', [3, (3, 'FX', 1, 4), (2, 'FY', 5, 9), (2, 'FZ', 2, 9)])], [('wal', [1]), ('wal', [2])], [('wm', 44)], [('wm', 44), ('wm', 43)],
         [('add', 1, [10]), ('rm', 0, [1, 3]), ('wal', [8]), ('wm', 50)], [('rm', 0, [1, 3, 2]), ('rm', 2, [6, 8])], [('add', 0, [7, 1]), ('add', 1, [7])], [('rm', 0, [5]), ('rm', 1, [1])]]
    for bi, (L0, S0, wm0) in enumerate(bases):
        for e in E:
            base = vstate(ctx, 7, L0, S0, some(seg(ctx, S0[0])) if S0 else NONE, NONE if wm0 is None else some(('c', wm0)))
            q = CQ(exact=True, rels=[(r'^F(\w)$', r'^F(\w)$', '<')]); q = FidQ(exact=True)
            it = Interp(ctx.F, q); st = State()
            r = it.tmp(st, 0, ('state',), base)
            outs = it.run_body(st, f, [r, it.tmp(st, 0, ('ed',), ('a', tuple(conv(x) for x in e)))], ('root', 0))
            ctx.fns |= it.visited; ctx.sites |= it.sites; ctx.steps += it.steps
            w = oracle_edits(L0, S0, wm0, e)
            bad = []
            for s, v in outs:
                for s2, vi, x in it.split(s, it.rd(s, v), RESULT):
                    if w is None or vi == 1:
                        if not (w is None and vi == 1): bad.append('accepted' if vi == 0 else 'refused')
                        continue
                    g = fields(ctx, it.deepval(s2, it.load(s2, r[1], r[2])))
                    L, S, wm = w
                    fl = P(some(seg(ctx, *(S[0] if isinstance(S[0], tuple) else (S[0],))))) if S else P(NONE)
                    want = fields(ctx, vstate(ctx, 7, L, S, None, NONE if wm is None else some(('c', wm))))
                    for k in want:
                        wk = fl if k == 'wal_floor' else P(want[k])
                        if P(g[k]) != wk: bad.append(f'{k} = {P(g[k])}, expected {wk}')
            ctx.ob(K, f'{bi}:{e}', outs and not bad, f'edits {e} on levels {L0}, segments {S0}: {bad[:1]}', ctx.loc(f))

class FidQ(CQ):
    """file ids F<x> ordered by name"""
    def rel(self, it, st, a, b):
        if a[0] != 'u' and b[0] != 'u':
            pa, pb = P(a), P(b)
            if re.fullmatch(r'F\w+', pa) and re.fullmatch(r'F\w+', pb): return frozenset('<' if pa < pb else '>' if pa > pb else '=')
        return CQ.rel(self, it, st, a, b)

# ---- catalog ------------------------------------------------------------------------------------------------------------
def ckey(ctx, tid=None):
    CK = ctx.adt('domain::CatalogKey')
    return enum(ctx, CK, 'Root') if tid is None else enum(ctx, CK, 'TableMeta', TID(ctx, tid))
def TID(ctx, n): return struct(ctx, ctx.adt('domain::TableId'), **{'0': ('c', n) if isinstance(n, int) else n})
def cval(ctx, kind, v): return enum(ctx, ctx.adt('domain::CatalogValue'), kind, v)
def catalog(ctx, tables, ordn):
    CE = ctx.adt('domain::TableCatalogEntry')
    return struct(ctx, ctx.adt('domain::CatalogState'), tables=('a', tuple(('t', (TID(ctx, i), struct(ctx, CE, logical_table_name=('s', n)))) for i, n in tables)), next_table_ordinal=('c', ordn))
DEFF = {'name': ('s', 'tbl'), 'schema_fingerprint': ('s', 'fp'), 'primary_key_columns': ('a', (('s', 'k1'), ('s', 'k2'))), 'retention': NONE, 'schema_version': ('c', 3)}
def defn(ctx, **over): return struct(ctx, ctx.adt('domain::TableDefinition'), **{**DEFF, **over})
def meta(ctx, tid, **over): return struct(ctx, ctx.adt('domain::TableMeta'), table_id=TID(ctx, tid), **{**DEFF, **over})
IDGEN = [(r'FileIdGenerator::generate$', lambda it, st, c: (st.setg('ids', st.g('ids', 0) + 1), [(st, ('c', 900 + st.g('ids')))])[1])]

@rule('M03')
def register(ctx):
    """registering an unknown name adds one table with the declared metadata in one commit; a known name is answered with the stored metadata if compatible and refused otherwise, without effect"""
    K = 'register'
    f = meth(ctx, 'register_table')
    A = lambda d: {'definition': d, 'file_ids': arg('GEN')}
    RET = some(struct(ctx, ctx.adt('domain::TableRetionConfig'), max_versions=('c', 5), max_ttl=arg('TTL')))
    for nm, tabs in (('no catalog', None), ('empty', ()), ('others', ((11, 'a'), (12, 'tb'), (13, 'tblx')))):
        d = {} if tabs is None else {P(ckey(ctx)): cval(ctx, 'Catalog', catalog(ctx, tabs, 7))}
        for i, _ in tabs or (): d[P(ckey(ctx, i))] = cval(ctx, 'TableMeta', meta(ctx, i))
        it, res = run_store(ctx, f, Store(ctx, d), A(defn(ctx, retention=RET)), IDGEN)
        bad = []
        ents = tuple(tabs or ()) + ((901, 'tbl'),)
        for s, good, v in res:
            if not good: bad.append('refused: ' + P(v)); continue
            w = writes(s)
            puts = {e[1]: e[2] for e in w if e[0] == 'put'}
            if [e[0] for e in s.g('log')].count('commit') != 1 or s.g('log')[-1][0] != 'commit': bad.append('not one final commit')
            want = {P(ckey(ctx)): P(cval(ctx, 'Catalog', catalog(ctx, ents, (7 if tabs is not None else 0) + 1))), P(ckey(ctx, 901)): P(cval(ctx, 'TableMeta', meta(ctx, 901, retention=RET)))}
            got = {k: P(x) for k, x in puts.items()}
            if got != want or any(e[0] == 'del' for e in w): bad.append(f'writes {got}, expected {want}')
            if P(v) != P(meta(ctx, 901, retention=RET)): bad.append(f'returns {P(v)}')
        ctx.ob(K, 'new:' + nm, res and not bad, f'new table, {nm}: {bad[:1]}', ctx.loc(f))
        for fail in range(4):
            it, res = run_store(ctx, f, Store(ctx, d, fail=fail), A(defn(ctx)), IDGEN)
            bad = [P(v) for s, good, v in res if s.g('failed') and (good or s.g('committed'))]
            ctx.ob(K, f'new:{nm}:fault{fail}', res and not bad, f'store operation {fail} fails: answered {bad[:1]}', ctx.loc(f))
    tabs = ((11, 'a'), (12, 'tbl'), (13, 'b'))
    over = [('same', {}, True), ('fingerprint', {'schema_fingerprint': ('s', 'fq')}, False), ('key columns', {'primary_key_columns': ('a', (('s', 'k1'),))}, False), ('key column order', {'primary_key_columns': ('a', (('s', 'k2'), ('s', 'k1')))}, False),
            ('empty fingerprint', {'schema_fingerprint': ('s', '')}, False), ('schema version above', {'schema_version': ('c', 4)}, False), ('schema version below', {'schema_version': ('c', 2)}, False), ('retention', {'retention': RET}, False)]
    base = {P(ckey(ctx)): cval(ctx, 'Catalog', catalog(ctx, tabs, 7)), P(ckey(ctx, 11)): cval(ctx, 'TableMeta', meta(ctx, 11, name=('s', 'a'))), P(ckey(ctx, 12)): cval(ctx, 'TableMeta', meta(ctx, 12)), P(ckey(ctx, 13)): cval(ctx, 'TableMeta', meta(ctx, 13, name=('s', 'b')))}
    for nm, ov, good_w in over:
        for fail in [None] + list(range(4)):
            it, res = run_store(ctx, f, Store(ctx, base, fail=fail), A(defn(ctx, **ov)), IDGEN)
            bad = []
            for s, good, v in res:
                if s.g('failed'):
                    if good: bad.append('accepted despite a failure')
                elif good != good_w: bad.append(('accepted' if good else 'refused') + ' ' + P(v))
                elif good and P(v) != P(meta(ctx, 12)): bad.append('returns ' + P(v))
                if [e for e in writes(s) if e[0] != 'commit'] : bad.append('writes ' + str([e[1] for e in writes(s) if e[0] != 'commit']))
            ctx.ob(K, f'known:{nm}:{fail}', res and not bad, f'known table, {nm} differs (store failure {fail}): {bad[:1]}', ctx.loc(f))
    for nm, ov in (('fingerprint', {'schema_fingerprint': ('s', '')}), ('key columns', {'primary_key_columns': ('a', ())}), ('schema version', {'schema_version': ('c', 0)}), ('retention', {'retention': RET})):
        b3 = dict(base); b3[P(ckey(ctx, 12))] = cval(ctx, 'TableMeta', meta(ctx, 12, **ov))
        it, res = run_store(ctx, f, Store(ctx, b3), A(defn(ctx)), IDGEN)
        bad = [P(v) for s, good, v in res if good or [e for e in writes(s) if e[0] != 'commit']]
        ctx.ob(K, 'stored:' + nm, res and not bad, f'known table whose stored {nm} is degenerate is accepted for another: {bad[:1]}', ctx.loc(f))
    for nm, key, val in (('catalog', P(ckey(ctx)), cval(ctx, 'TableMeta', meta(ctx, 12))), ('metadata', P(ckey(ctx, 12)), cval(ctx, 'Catalog', catalog(ctx, tabs, 7)))):
        b3 = dict(base); b3[key] = val
        it, res = run_store(ctx, f, Store(ctx, b3), A(defn(ctx)), IDGEN)
        bad = [P(v) for s, good, v in res if good or s.g('committed')]
        ctx.ob(K, 'kind:' + nm, res and not bad, f'a {nm} record of another kind is accepted: {bad[:1]}', ctx.loc(f))
    it, res = run_store(ctx, f, Store(ctx, base), A(defn(ctx, name=('s', 'Tbl'))), IDGEN)
    bad = [P(v) for s, good, v in res if not good or P(v) != P(meta(ctx, 901, name=('s', 'Tbl')))]
    ctx.ob(K, 'other:case', res and not bad, f'a name differing in case is answered with {bad[:1]}', ctx.loc(f))
    for other in ('tb', 't', 'tbl2', 'xtbl'):
        it, res = run_store(ctx, f, Store(ctx, base), A(defn(ctx, name=('s', other))), IDGEN)
        bad = [P(v) for s, good, v in res if not good or P(v) != P(meta(ctx, 901, name=('s', other)))]
        ctx.ob(K, 'other:' + other, res and not bad, f'unknown name {other} is answered with {bad[:1]}', ctx.loc(f))
    b2 = {k: v for k, v in base.items() if k != P(ckey(ctx, 12))}
    it, res = run_store(ctx, f, Store(ctx, b2), A(defn(ctx)), IDGEN)
    bad = [P(v) for s, good, v in res if good or s.g('committed')]
    ctx.ob(K, 'known:no metadata', res and not bad, f'catalog entry without metadata: accepted {bad[:1]}', ctx.loc(f))

@rule('M03')
def init_keeps(ctx):
    """initialising never overwrites an existing head or catalog"""
    K = 'init_keeps'
    H = vval(ctx, 'TableHead', head(ctx, 7))
    for fn, key, existing, args, fresh in (('init_table_head', P(vkey(ctx, 'TableHead')), H, {'table_id': arg('TBL'), 'head': head(ctx, None)}, P(vval(ctx, 'TableHead', head(ctx, None)))),
                                           ('init_catalog_root', P(ckey(ctx)), cval(ctx, 'Catalog', catalog(ctx, ((1, 'a'),), 4)), {}, P(cval(ctx, 'Catalog', catalog(ctx, (), 0))))):
        f = meth(ctx, fn)
        for fail in (None, 0, 1, 2):
            it, res = run_store(ctx, f, Store(ctx, {key: existing}, fail=fail), args)
            bad = [1 for s, good, v in res if [e for e in writes(s) if e[0] != 'commit'] or s.g('failed') and good or not s.g('failed') and not good]
            ctx.ob(K, f'{fn}:existing:{fail}', res and not bad, f'{fn} with an existing record (store failure {fail}) writes it or misreports', ctx.loc(f))
            it, res = run_store(ctx, f, Store(ctx, {}, fail=fail), args)
            bad = []
            for s, good, v in res:
                if s.g('failed'):
                    if good or s.g('committed'): bad.append('accepted despite a failure')
                    continue
                w = [(e[0], e[1] if len(e) > 1 else '', P(e[2]) if len(e) > 2 else '') for e in writes(s)]
                if not good or w != [('put', key, fresh.replace('[]', '[]')), ('commit', '', '')] and not (w and w[0][:2] == ('put', key) and re.sub(r'coll\w*|\[\]|empty|\(\)', '', w[0][2]) == re.sub(r'\[\]', '', fresh) and w[1:] == [('commit', '', '')]): bad.append(w)
            ctx.ob(K, f'{fn}:new:{fail}', res and not bad, f'{fn} on an empty store (failure {fail}): {bad[:1]}', ctx.loc(f))

@rule('M03')
def register_head(ctx):
    """a registered table gets a head without versions for its own id and schema version; a failure of either step surfaces"""
    K = 'register_head'
    c = [b for k, b in ctx.F.bodies.items() if k.startswith('crate::manifest::bootstrap::TonboManifest') and k.endswith('::register_table')]
    if len(c) != 1: raise Missing('TonboManifest::register_table')
    g = c[0]
    rec = lambda nm: lambda it, st, c: [(st, mk(('call', nm, tuple(it.deepval(st, x) for x in c.args[1:]))))]
    for bad_step in (None, 'reg', 'head'):
        def a1(it, st, name, args, site, term):
            st.setg('reg', tuple(P(x) for x in args))
            return [(st, err(arg('E')) if bad_step == 'reg' else ok(meta(ctx, 5)))]
        def a2(it, st, name, args, site, term):
            st.setg('head', tuple(args)); return [(st, err(arg('E')) if bad_step == 'head' else ok(UNIT))]
        it, outs = ctx.run(g, CQ(exact=True, calls=[(r'driver::Manifest::.*::register_table$', rec('REG')), (r'driver::Manifest::.*::init_table_head$', rec('HEAD'))], awaits=[(r'^REG$', a1), (r'^HEAD$', a2)]))
        bad = []
        for o in outs:
            for s, vi, w in it.split(o.st, it.rd(o.st, o.v), RESULT):
                if (vi == 0) != (bad_step is None): bad.append('accepted' if vi == 0 else 'refused')
                if vi == 0:
                    h = s.g('head')
                    if h is None: bad.append('no head'); continue
                    hf = {k: P(x) for k, x in fields(ctx, h[1]).items()}
                    if P(h[0]) != P(TID(ctx, 5)) or hf != {'table_id': P(TID(ctx, 5)), 'schema_version': '3', 'wal_floor': P(NONE), 'last_manifest_txn': P(NONE)}: bad.append(f'head {P(h[0])} {hf}')
                    if P(it.deepval(s, w[3][0])) != P(meta(ctx, 5)): bad.append('returns ' + P(it.deepval(s, w[3][0])))
                    if s.g('reg') != ('file_ids', 'definition'): bad.append(s.g('reg'))
        ctx.ob(K, str(bad_step), outs and not bad, f'failing step {bad_step}: {bad[:1]}', ctx.loc(g))

@rule('M03', 'M04')
def table_meta(ctx):
    """the metadata returned for a table is that table's; a missing entry is an error"""
    K = 'table_meta'
    f = meth(ctx, 'table_meta')
    d = {P(ckey(ctx, 5)): cval(ctx, 'TableMeta', meta(ctx, 5)), P(ckey(ctx, 6)): cval(ctx, 'TableMeta', meta(ctx, 6))}
    for tid, present in ((5, True), (7, False)):
        for fail in (None, 0, 1, 2):
            it, res = run_store(ctx, f, Store(ctx, d, fail=fail), {'table': TID(ctx, tid)})
            bad = [P(v) for s, good, v in res if good and (not present or s.g('failed') or P(v) != P(meta(ctx, tid))) or not good and present and not s.g('failed')]
            ctx.ob(K, f'{tid}:{fail}', res and not bad, f'table {tid} (store failure {fail}): {bad[:1]}', ctx.loc(f))
    # the catalog root under a table key is not metadata
    it, res = run_store(ctx, f, Store(ctx, {P(ckey(ctx, 5)): cval(ctx, 'Catalog', catalog(ctx, (), 0))}), {'table': TID(ctx, 5)})
    ctx.ob(K, 'kind', res and not any(good for _, good, _ in res), 'a catalog record is accepted as table metadata', ctx.loc(f))

# ---- reads ---------------------------------------------------------------------------------------------------------------
@rule('M04')
def snapshots(ctx):
    """a snapshot is the head together with exactly the version asked for, read in one session; failures surface"""
    K = 'snapshots'
    V = lambda n: vstate(ctx, n, ((n,),), (n,), some(seg(ctx, n)))
    base = {P(vkey(ctx, 'TableHead')): vval(ctx, 'TableHead', head(ctx, 7))}
    for n in (5, 6, 7): base[P(vkey(ctx, 'TableVersion', n))] = vval(ctx, 'TableVersion', V(n))
    fresh = {P(vkey(ctx, 'TableHead')): vval(ctx, 'TableHead', head(ctx, None))}
    cases = [('snapshot_latest', base, {'table': arg('TBL')}, (7, 7)), ('snapshot_latest', fresh, {'table': arg('TBL')}, (None, None)), ('snapshot_latest', {}, {'table': arg('TBL')}, None)]
    for n in (4, 5, 6, 7, 8): cases.append(('snapshot_at_version', base, {'table': arg('TBL'), 'manifest_ts': TS(ctx, n)}, (7, n if n in (5, 6, 7) else None)))
    cases.append(('snapshot_at_version', {}, {'table': arg('TBL'), 'manifest_ts': TS(ctx, 5)}, None))
    bad_kind = {P(vkey(ctx, 'TableHead')): vval(ctx, 'TableHead', head(ctx, 7)), P(vkey(ctx, 'TableVersion', 7)): vval(ctx, 'WalFloor', seg(ctx, 1))}
    cases.append(('snapshot_latest', bad_kind, {'table': arg('TBL')}, None))
    cases.append(('snapshot_at_version', bad_kind, {'table': arg('TBL'), 'manifest_ts': TS(ctx, 7)}, None))
    for ci, (fn, d, args, want) in enumerate(cases):
        f = meth(ctx, fn)
        for fail in (None, 0, 1, 2, 3):
            it, res = run_store(ctx, f, Store(ctx, d, fail=fail), args)
            bad = []
            for s, good, v in res:
                if s.g('failed') or want is None:
                    if good: bad.append('answered ' + P(v))
                    continue
                if not good: bad.append('refused ' + P(v)); continue
                g = fields(ctx, v)
                if P(g['head']) != P(head(ctx, want[0])): bad.append('head ' + P(g['head']))
                wv = P(NONE) if want[1] is None else P(some(V(want[1])))
                if P(g['latest_version']) != wv: bad.append(f'version {P(g["latest_version"])}, expected {wv}')
                if [e for e in s.g('log') if e[0] == 'open'] != [('open', 'r')]: bad.append('not read in one session')
            ctx.ob(K, f'{fn}:{ci}:{fail}', res and not bad, f'{fn} case {ci} (store failure {fail}): {bad[:1]}', ctx.loc(f))

@rule('M04')
def listing(ctx):
    """the version list holds the newest versions of the table, newest first, at most as many as asked for"""
    K = 'listing'
    f = meth(ctx, 'list_versions')
    for order in itertools.permutations((3, 5, 8)):
        for lim in (0, 1, 2, 3, 4):
            scan = ('a', tuple(('t', (vkey(ctx, 'TableVersion', n), vval(ctx, 'TableVersion', vstate(ctx, n)))) for n in order))
            it, res = run_store(ctx, f, Store(ctx, {}, scan=scan), {'table': arg('TBL'), 'limit': ('c', lim)})
            want = sorted(order, reverse=True)[:lim or None]
            bad = []
            for s, good, v in res:
                if not good: bad.append('refused'); continue
                if v[0] == 'coll' and v[2] == 'empty': v = ('a', ())
                got = [P(fields(ctx, x)['commit_timestamp']) for x in v[1]] if v[0] == 'a' else P(v)
                if got != [P(TS(ctx, n)) for n in want]: bad.append(got)
                sc = [e[1] for e in s.g('log') if e[0] == 'scan']
                exp = f'ScanRange#0{{{P(some(vkey(ctx, "TableVersion", 0)))},Option#1{{VersionKey#1{{TBL,Timestamp#0{{{2**64 - 1}}}}}}}}}'
                if sc != [exp]: bad.append(f'scans {sc}, expected {exp}')
            ctx.ob(K, f'{order}:{lim}', res and not bad, f'versions {order}, limit {lim}: expected {want}, got {bad[:1]}', ctx.loc(f))
    for fail in (0, 1, 2):
        scan = ('a', (('t', (vkey(ctx, 'TableVersion', 3), vval(ctx, 'TableVersion', vstate(ctx, 3)))),))
        it, res = run_store(ctx, f, Store(ctx, {}, scan=scan, fail=fail), {'table': arg('TBL'), 'limit': ('c', 0)})
        bad = [P(v) for s, good, v in res if good and s.g('failed')]
        ctx.ob(K, f'fault{fail}', res and not bad, f'store operation {fail} fails: answered {bad[:1]}', ctx.loc(f))
    f = meth(ctx, 'wal_floor')
    for k, v in (('TableHead', head(ctx, 7)), ('TableVersion', vstate(ctx, 7))):
        it, res = run_store(ctx, f, Store(ctx, {P(vkey(ctx, 'WalFloor')): vval(ctx, k, v)}), {'table': arg('TBL')})
        bad = [P(v) for s, good, v in res if good]
        ctx.ob(K, 'wal_floor:kind:' + k, res and not bad, f'a {k} record stored as WAL floor is answered with {bad[:1]}', ctx.loc(f))
    for present in (True, False):
        for fail in (None, 0, 1, 2):
            d = {P(vkey(ctx, 'WalFloor')): vval(ctx, 'WalFloor', seg(ctx, 4))} if present else {}
            it, res = run_store(ctx, f, Store(ctx, d, fail=fail), {'table': arg('TBL')})
            w = P(some(seg(ctx, 4))) if present else P(NONE)
            bad = [P(v) for s, good, v in res if good and (s.g('failed') or P(v) != w) or not good and not s.g('failed')]
            ctx.ob(K, f'wal_floor:{present}:{fail}', res and not bad, f'WAL floor present={present} (store failure {fail}): {bad[:1]}', ctx.loc(f))

@rule('M04', 'M01')
def record_kinds(ctx):
    """a version-store record counts only under a key of its own kind"""
    K = 'record_kinds'
    f = [b for k, b in ctx.F.bodies.items() if k.endswith('::validate_key_value') and 'VersionCodec' in k]
    if len(f) != 1: raise Missing('VersionCodec::validate_key_value')
    vals = {'TableHead': head(ctx, 7), 'TableVersion': vstate(ctx, 7), 'WalFloor': seg(ctx, 4)}
    for kk in vals:
        for vk, v in vals.items():
            it, outs = ctx.run(f[0], CQ(exact=True), args=[it0(ctx, vkey(ctx, kk, 7 if kk == 'TableVersion' else None)), it0(ctx, vval(ctx, vk, v))])
            got = {vi == 0 for o in outs for s, vi, w in it.split(o.st, it.rd(o.st, o.v), RESULT)}
            ctx.ob(K, f'{kk}:{vk}', got == {kk == vk}, f'a {vk} record under a {kk} key is {"accepted" if True in got else "refused"}', ctx.loc(f[0]))
def it0(ctx, v): return v

@rule('M04')
def table_snapshots(ctx):
    """a table snapshot pairs the version snapshot asked for with that table's metadata; only a missing catalog entry falls back to the cached metadata"""
    K = 'table_snapshots'
    ME = ctx.adt('driver::ManifestError')
    def m(n):
        c = [b for k, b in ctx.F.bodies.items() if k.startswith('crate::manifest::bootstrap::TonboManifest') and k.endswith('::' + n)]
        if len(c) != 1: raise Missing('TonboManifest::' + n)
        return c[0]
    VS = ctx.adt('driver::VersionSnapshot')
    snap = struct(ctx, VS, manifest_snapshot=arg('MS'), head=arg('HEAD'), latest_version=arg('LATEST'))
    missing = enum(ctx, ME, 'Invariant', ('s', 'catalog metadata missing for table_id'))
    other = [enum(ctx, ME, 'Invariant', ('s', 'manifest value type mismatch')), enum(ctx, ME, 'Backend', arg('IO')), enum(ctx, ME, 'CatalogConflict', arg('TXT'))]
    for fn, inner, extra in (('snapshot_latest', ('snapshot_latest', 'table'), {}), ('snapshot_at_version', ('snapshot_at_version', 'table', 'manifest_ts'), {}), ('snapshot_latest_with_fallback', ('snapshot_latest', 'table'), {})):
        g = m(fn)
        for mv in ['ok', missing] + other:
            for vfail in (False, True):
                rec = lambda it, st, c: [(st, mk(('call', 'INNER', (('s', c.short),) + tuple(it.deepval(st, x) for x in c.args[1:]))))]
                def aw(it, st, name, args, site, term):
                    st.setg('calls', st.g('calls', ()) + ((args[0][1],) + tuple(P(x) for x in args[1:]),))
                    if args[0][1] == 'table_meta': return [(st, ok(arg('META')) if mv == 'ok' else err(mv))]
                    return [(st, err(arg('VERR')) if vfail else ok(snap))]
                it, outs = ctx.run(g, CQ(exact=True, calls=[(r'driver::Manifest::.*::\w+$', rec)], awaits=[(r'^INNER$', aw)]))
                fb = fn.endswith('fallback') and mv is missing
                wantok = not vfail and (mv == 'ok' or fb)
                bad = []
                for o in outs:
                    for s, vi, w in it.split(o.st, it.rd(o.st, o.v), RESULT):
                        if (vi == 0) != wantok: bad.append('answered' if vi == 0 else 'refused'); continue
                        if vi: continue
                        h = {k: P(x) for k, x in fields(ctx, it.deepval(s, w[3][0])).items()}
                        exp = {'MS', 'HEAD', 'LATEST', 'fallback' if fb else 'META'}
                        if set(h.values()) != exp or h.get('head') != 'HEAD' or h.get('latest_version') != 'LATEST': bad.append(h)
                        cs = [c for c in s.g('calls') if c[0] != 'table_meta']
                        if cs != [inner] or ('table_meta', 'table') not in s.g('calls'): bad.append(s.g('calls'))
                ctx.ob(K, f'{fn}:{mv if mv == "ok" else P(mv)}:{vfail}', outs and not bad, f'{fn} with catalog answer {mv if mv == "ok" else P(mv)}, version failure {vfail}: {bad[:1]}', ctx.loc(g))

@rule('M01')
def gc_plan(ctx):
    """a recorded GC plan is committed under its table's key; failures surface"""
    K = 'gc_plan'
    f = meth(ctx, 'put_gc_plan')
    for fail in (None, 0, 1):
        it, res = run_store(ctx, f, Store(ctx, {}, fail=fail), {'table_id': arg('TBL'), 'plan': arg('PLAN')})
        bad = []
        for s, good, v in res:
            if s.g('failed'):
                if good: bad.append('accepted despite a failure')
                continue
            w = [(e[0],) + ((e[1], P(e[2])) if e[0] == 'put' else e[1:]) for e in writes(s)]
            if not good or len(w) != 2 or w[0][0] != 'put' or 'TBL' not in w[0][1] or 'PLAN' not in w[0][2] or w[1] != ('commit',): bad.append(w)
        ctx.ob(K, str(fail), res and not bad, f'recording a GC plan (store failure {fail}): {bad[:1]}', ctx.loc(f))

@rule('M01', 'M03')
def stores_separate(ctx):
    """the version, catalog and GC-plan stores live under distinct directories of the database root, each with all its files below its own directory"""
    K = 'stores_separate'
    f = [b for k, b in ctx.F.bodies.items() if k.endswith('manifest::bootstrap::init_fs_manifest')]
    if len(f) != 1: raise Missing('init_fs_manifest')
    S_ = lambda it, st, v: it.deepval(st, v)
    txt = lambda v: v[1] if v[0] == 's' else P(v)
    def parse(it, st, c):
        v = S_(it, st, c.args[0])
        return [(st, ok(v))] if v[0] == 's' else None
    def child(it, st, c):
        a, b = S_(it, st, c.args[0]), S_(it, st, c.args[1])
        return [(st, ('s', (a[1] + '/' if a[1] else '') + b[1]))] if a[0] == b[0] == 's' else None
    ident = lambda it, st, c: [(st, S_(it, st, c.args[0]))]
    def new(it, st, c):
        st.setg('stores', st.g('stores', ()) + ((c.name.split('::')[-2].split('<')[0] if '<' not in c.name.split('::')[-2] else c.name, txt(S_(it, st, c.args[1]))),))
        return [(st, arg(f'ST{len(st.g("stores"))}'))]
    def man(it, st, c):
        n = st.g('nman', 0) + 1; st.setg('nman', n)
        return [(st, ('s', '|'.join(sorted(x[1] for x in st.g('stores')[-4:]))))]
    def tm(it, st, c):
        st.setg('tm', tuple(txt(S_(it, st, a)) for a in c.args)); return None
    fut = lambda it, st, c: [(st, mk(('call', 'FUT', ())))]
    for root in ('', 'base', 'a/b'):
        calls = [(r'^fusio::path::.*Path::parse$', parse), (r'PathPart.*::parse$', parse), (r'Path::child$', child), (r'Path::as_ref$|AsRef.*as_ref$|ToString::to_string$', ident), (r'(HeadStoreImpl|SegmentStoreImpl|CheckpointStoreImpl|LeaseStoreImpl).*::new$', new),
                 (r'create_dir_all$', fut), (r'driver::Manifest::.*::open$', man), (r'TonboManifest::.*::new$', tm), (r'TonboManifest::.*::init_catalog$', fut)]
        it, outs = ctx.run(f[0], CQ(exact=True, calls=calls, awaits=[(r'^FUT$', lambda it, st, *a: [(st, ok(UNIT))])]), args={'root': ('s', root)})
        bad = []
        for o in outs:
            t = o.st.g('tm')
            if t is None: bad.append('no manifest built'); continue
            groups = [set(x.split('|')) for x in t]
            if len(groups) != 3 or any(len(g) < 3 for g in groups): bad.append(t); continue
            for i in range(3):
                for j in range(3):
                    if i != j:
                        for x in groups[i]:
                            for y in groups[j]:
                                if x == y or x.startswith(y + '/') or y.startswith(x + '/'): bad.append(f'stores share {x} / {y}')
            if root and any(not x.startswith(root + '/') for g in groups for x in g): bad.append(f'outside the root: {t}')
        ctx.ob(K, root or '(empty)', outs and not bad, f'database root {root!r}: {bad[:1]}', ctx.loc(f[0]))
