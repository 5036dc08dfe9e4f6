"""Keys: order, equality and hash of user keys; composite (key, timestamp) order; extraction and serialisation."""
from core import *

CELL = 'typed_arrow_dyn::view::cell::DynCellRaw'
ROWRAW = 'typed_arrow_dyn::view::rows::DynRowRaw'
ORDP = {'Ordering#0': '<', 'Ordering#1': '=', 'Ordering#2': '>'}

def cellv(ctx, kind, n):
    ad = ctx.F.adts[CELL]['v']
    i = next((i for i, v in enumerate(ad) if v['n'] == kind), None)
    if i is None: raise Missing('cell kind ' + kind)
    fs = [f[0] for f in ad[i]['f']]
    return ('e', CELL, i, tuple(arg(f'{n}p' if f == 'ptr' else f'{n}l' if f == 'len' else n) for f in fs))

def keyrow(ctx, cells, null=()):
    cs = ('a', tuple(NONE if i in null else some(c) for i, c in enumerate(cells)))
    raw = ('e', ROWRAW, 0, tuple(cs if f[0] == 'cells' else mk(('arg', 'flds')) for f in ctx.F.adts[ROWRAW]['v'][0]['f']))
    return raw

def cells_of(it, st, c):
    v = it.deepval(st, c.args[0])
    i = next(i for i, f in enumerate(it.F.adts[ROWRAW]['v'][0]['f']) if f[0] == 'cells')
    return v[3][i] if v[0] == 'e' and v[1] == ROWRAW else None

def row_hooks(rows):
    def cells(it, st, c):
        v = cells_of(it, st, c)
        return [(st, it.tmp(st, c.frame, ('cells', c.bb), v))] if v else None
    def ln(it, st, c):
        v = cells_of(it, st, c)
        return [(st, ('c', len(v[1])))] if v else None
    def emp(it, st, c):
        v = cells_of(it, st, c)
        return [(st, boolv(len(v[1]) == 0))] if v else None
    def as_raw(it, st, c):
        p = path(it.deepval(st, c.args[0]))
        return [(st, ok(rows[p]))] if p in rows else None
    return [(r'rows::DynRowRaw::cells$', cells), (r'rows::DynRowRaw::len$', ln), (r'rows::DynRowRaw::is_empty$', emp), (r'DynRowOwned::as_raw$', as_raw),
            (r'rows::DynRowRaw::into_cells$', cells)]

def bytes_rel(n, m, r):
    """relation of two byte strings given as (ptr, len) pairs"""
    a, b = r'from_raw_parts\(%sp' % n, r'from_raw_parts\(%sp' % m
    out = [(a, b, r)]
    if r == '=': out += [('^%sl$' % n, '^%sl$' % m, '=')]
    return out

class KeyCmp:
    """evaluate a comparison trait method of a key type on two rows of given cells under given relations"""
    def __init__(s, ctx): s.ctx = ctx
    def __call__(s, trait, a, b, method, rows, rels=(), truths=()):
        ctx = s.ctx
        f = s.impl(trait, a, b, method)
        wrap = {'KeyRow': lambda n: ('e', ctx.adt('row::KeyRow'), 0, (rows[n],)), 'KeyOwned': lambda n: ('e', ctx.adt('owned::KeyOwned'), 0, (arg(n),))}
        def nan(it, st, c):
            p = path(it.deepval(st, c.args[0]))
            for rx, t in truths:
                if re.search(rx, f'is_nan({p})'): return [(st, boolv(t))]
        q = CQ(rels=rels, calls=row_hooks(rows) + [(r'::is_nan$', nan)], exact=True, inline_cmp=['<key::'])
        it, outs = ctx.run(f, q, args=[wrap[a]('L'), wrap[b]('R')])
        res = set()
        for o in outs:
            v = it.deepval(o.st, o.v)
            for x in alts(v):
                p = path(x)
                m = re.fullmatch(r'Option#1\{(.*)\}', p)
                p = m.group(1) if m else p
                res.add({'Ordering#0': '<', 'Ordering#1': '=', 'Ordering#2': '>', '1': True, '0': False, 'True': True, 'False': False}.get(p, p))
        return res, f
    def impl(s, trait, a, b, method):
        ctx = s.ctx
        c = []
        for im in ctx.F.impls:
            if not im['trait'].endswith('::' + trait): continue
            t = ctx.F.types[im['self']]
            if not (t.get('n') or '').endswith('::' + a): continue
            for n, f in im['fns']:
                if n == method and f in ctx.F.bodies:
                    body = ctx.F.bodies[f]
                    t2 = ctx.F.types[body['locals'][2][0]]
                    while t2['k'] == 'ref': t2 = ctx.F.types[t2['t']]
                    if (t2.get('n') or '').endswith('::' + b): c.append(body)
        if len(c) != 1: raise Missing(f'impl {trait}<{b}> for {a}::{method}')
        return c[0]

SCALARS = ['Bool', 'I32', 'I64', 'U32', 'U64', 'F32', 'F64', 'Str', 'Bin']
PAIRS = [('Ord', 'KeyRow', 'KeyRow', 'cmp'), ('PartialOrd', 'KeyRow', 'KeyRow', 'partial_cmp'), ('Ord', 'KeyOwned', 'KeyOwned', 'cmp'), ('PartialOrd', 'KeyOwned', 'KeyOwned', 'partial_cmp'),
         ('PartialOrd', 'KeyRow', 'KeyOwned', 'partial_cmp'), ('PartialOrd', 'KeyOwned', 'KeyRow', 'partial_cmp')]
EQS = [('PartialEq', a, b, 'eq') for a in ('KeyRow', 'KeyOwned') for b in ('KeyRow', 'KeyOwned')]

def scalar_cases(kind):
    """(name, rels, truths, expected order)"""
    if kind in ('Str', 'Bin'):
        return [(r, bytes_rel('A', 'B', r), (), r) for r in '<=>']
    out = [(r, [('^A$', '^B$', r)], [(r'is_nan\([AB]\)', False)], r) for r in '<=>']
    if kind in ('F32', 'F64'):
        out = [(r, [('^A$', '^B$', r), ('^A$', '^A$', '='), ('^B$', '^B$', '=')], [(r'is_nan\([AB]\)', False)], r) for r in '<=>']
        sel = lambda n, x: (f'^{n}$', f'^{n}$', '?' if x else '=')
        for x, y, r in ((True, False, '>'), (False, True, '<'), (True, True, '=')):
            out.append((f"nan{int(x)}{int(y)}", [('^A$', '^B$', '?'), sel('A', x), sel('B', y)], [(r'is_nan\(A\)', x), (r'is_nan\(B\)', y)], r))
    return out

@rule('K01', 'I01', 'Q01', 'S03')
def key_scalar_order(ctx):
    """cmp, partial_cmp and eq of one-component keys agree with the natural order of the component, for every pair of key representations"""
    K = 'key_scalar_order'
    kc = KeyCmp(ctx)
    for kind in SCALARS:
        rows = {'L': keyrow(ctx, [cellv(ctx, kind, 'A')]), 'R': keyrow(ctx, [cellv(ctx, kind, 'B')])}
        for name, rels, truths, want in scalar_cases(kind):
            for tr, a, b, m in PAIRS:
                got, f = kc(tr, a, b, m, rows, rels, truths)
                ctx.ob(K, f'{kind}:{name}:{a}-{b}.{m}', got == {want}, f'comparing {a} with {b} holding {kind} values with A {want} B ({name}) gives {sorted(map(str, got))}', ctx.loc(f))
            for tr, a, b, m in EQS:
                got, f = kc(tr, a, b, m, rows, rels, truths)
                ctx.ob(K, f'{kind}:{name}:{a}-{b}.{m}', got == {want == '='}, f'equality of {a} and {b} holding {kind} values with A {want} B ({name}) gives {sorted(map(str, got))}', ctx.loc(f))

@rule('K01')
def key_cross_kind(ctx):
    """components of different kinds are never equal and are ordered by one fixed total order of kinds"""
    K = 'key_cross_kind'
    kc = KeyCmp(ctx)
    for rep in ('KeyRow', 'KeyOwned'):
        below = {k: set() for k in SCALARS}
        for i, x in enumerate(SCALARS):
            for y in SCALARS:
                if x == y: continue
                rows = {'L': keyrow(ctx, [cellv(ctx, x, 'A')]), 'R': keyrow(ctx, [cellv(ctx, y, 'B')])}
                got, f = kc('Ord', rep, rep, 'cmp', rows)
                ctx.ob(K, f'{rep}:{x}-{y}', len(got) == 1 and got <= {'<', '>'}, f'order of a {x} and a {y} component: {sorted(map(str, got))}', ctx.loc(f))
                if got == {'<'}: below[y].add(x)
                e, f2 = kc('PartialEq', rep, rep, 'eq', rows)
                ctx.ob(K, f'{rep}:eq:{x}-{y}', e == {False}, f'equality of a {x} and a {y} component: {sorted(map(str, e))}', ctx.loc(f2))
        ranks = sorted(len(v) for v in below.values())
        ctx.ob(K, f'{rep}:total', ranks == list(range(len(SCALARS))), f'kinds are not totally ordered: {below}', ctx.loc(f))

@rule('K01', 'I01', 'Q03')
def key_rows_order(ctx):
    """multi-component keys compare lexicographically, then by length; equality needs every component"""
    K = 'key_rows_order'
    kc = KeyCmp(ctx)
    A = [cellv(ctx, 'I64', f'A{i}') for i in range(3)]
    B = [cellv(ctx, 'I64', f'B{i}') for i in range(3)]
    import itertools
    for n in (2, 3):
        for rs in itertools.product('<=>', repeat=n):
            want = next((r for r in rs if r != '='), '=')
            rels = [(f'^A{i}$', f'^B{i}$', r) for i, r in enumerate(rs)]
            rows = {'L': keyrow(ctx, A[:n]), 'R': keyrow(ctx, B[:n])}
            for tr, a, b, m in PAIRS if n == 2 else PAIRS[:1] + PAIRS[2:3]:
                got, f = kc(tr, a, b, m, rows, rels)
                ctx.ob(K, f'{"".join(rs)}:{a}-{b}.{m}', got == {want}, f'components related {rs} compare {sorted(map(str, got))}', ctx.loc(f))
            for tr, a, b, m in EQS if n == 2 else EQS[:1] + EQS[3:]:
                got, f = kc(tr, a, b, m, rows, rels)
                ctx.ob(K, f'{"".join(rs)}:{a}-{b}.{m}', got == {want == '='}, f'components related {rs}: equality {sorted(map(str, got))}', ctx.loc(f))
    for la, lb in ((1, 2), (2, 1), (0, 1), (1, 0), (0, 0)):
        for r in '<=>' if la and lb else '=':
            rels = [('^A0$', '^B0$', r), ('^A1$', '^B1$', '=')]
            rows = {'L': keyrow(ctx, A[:la]), 'R': keyrow(ctx, B[:lb])}
            want = r if r != '=' else '<' if la < lb else '=' if la == lb else '>'
            for tr, a, b, m in PAIRS:
                got, f = kc(tr, a, b, m, rows, rels)
                ctx.ob(K, f'len{la}{lb}{r}:{a}-{b}.{m}', got == {want}, f'keys of {la} and {lb} components, first related {r}, compare {sorted(map(str, got))}', ctx.loc(f))
            for tr, a, b, m in EQS:
                got, f = kc(tr, a, b, m, rows, rels)
                ctx.ob(K, f'len{la}{lb}{r}:{a}-{b}.{m}', got == {want == '='}, f'keys of {la} and {lb} components, first related {r}: equality {sorted(map(str, got))}', ctx.loc(f))

def key_struct(ctx, method, la, lb, rs, rep='KeyRow'):
    """struct components of la and lb fields whose fields are I64 related rs"""
    kc = KeyCmp(ctx)
    cells = {'A': [cellv(ctx, 'I64', f'A{i}') for i in range(la)], 'B': [cellv(ctx, 'I64', f'B{i}') for i in range(lb)]}
    rows = {'L': keyrow(ctx, [cellv(ctx, 'Struct', 'A')]), 'R': keyrow(ctx, [cellv(ctx, 'Struct', 'B')])}
    def side(p): return 'A' if re.search(r'\bA\b', p) else 'B'
    def view(it, st, c): return [(st, mk(('view', it.deepval(st, c.args[0]))))]
    def ln(it, st, c): return [(st, ('c', len(cells[side(path(it.deepval(st, c.args[0])))])))]
    def get(it, st, c):
        p = path(it.deepval(st, c.args[0])); i = it.deepval(st, c.args[1])
        if i[0] != 'c' or i[1] >= len(cells[side(p)]): return None
        return [(st, ok(some(mk(('cellof', T(('arg', f'{side(p)}{i[1]}')))))))]
    def raw(it, st, c):
        p = path(it.deepval(st, c.args[0]))
        m = re.search(r'([AB])(\d)', p)
        return [(st, cells[m.group(1)][int(m.group(2))])] if m else None
    f = kc.impl('Ord' if method == 'cmp' else 'PartialEq', rep, rep, method)
    hooks = [(r'::as_view$', view), (r'DynStruct\w*(::<.*>)?::len$', ln), (r'DynStruct\w*(::<.*>)?::get$', get), (r'::into_raw$', raw)]
    q = CQ(rels=[(f'^A{i}$', f'^B{i}$', r) for i, r in enumerate(rs)], calls=row_hooks(rows) + hooks, exact=True, inline_cmp=['<key::'])
    w = lambda n: ('e', ctx.adt('row::KeyRow'), 0, (rows[n],)) if rep == 'KeyRow' else ('e', ctx.adt('owned::KeyOwned'), 0, (arg(n),))
    it, outs = ctx.run(f, q, args=[w('L'), w('R')])
    return {path(x) for o in outs for x in alts(it.deepval(o.st, o.v))}, f

@rule('K01')
def key_struct_order(ctx):
    """struct components compare field by field, then by number of fields"""
    K = 'key_struct_order'
    import itertools
    for la, lb in ((2, 2), (1, 2), (2, 1)):
        for rs in itertools.product('<=>', repeat=min(la, lb)):
            want = next((r for r in rs if r != '='), '<' if la < lb else '=' if la == lb else '>')
            got, f = key_struct(ctx, 'cmp', la, lb, rs)
            ctx.ob(K, f'cmp:{la}{lb}{"".join(rs)}', {ORDP.get(g, g) for g in got} == {want}, f'struct fields related {rs} compare {sorted(got)[:3]}', ctx.loc(f))
            got, f = key_struct(ctx, 'eq', la, lb, rs)
            ctx.ob(K, f'eq:{la}{lb}{"".join(rs)}', got == ({'1'} if want == '=' else {'0'}), f'struct fields related {rs}: equality {sorted(got)[:3]}', ctx.loc(f))

@rule('K01')
def key_hash(ctx):
    """equal keys feed the same values to the hasher"""
    K = 'key_hash'
    def events(rep, rows, rels=(), truths=()):
        f = ctx.impl('Hash', rep, 'hash')
        def h(it, st, c):
            v = path(it.deepval(st, c.args[0]))
            st.setg('h', st.g('h', ()) + (v,)); return [(st, UNIT)]
        def wr(it, st, c):
            v = path(it.deepval(st, c.args[1]))
            st.setg('h', st.g('h', ()) + (v,)); return [(st, UNIT)]
        def nan(it, st, c):
            p = path(it.deepval(st, c.args[0]))
            for rx, t in truths:
                if re.search(rx, f'is_nan({p})'): return [(st, boolv(t))]
        q = CQ(rels=rels, exact=True, inline_cmp=['<key::'], calls=row_hooks(rows) + [(r'::is_nan$', nan), (r'^core::hash::Hasher::write', wr), (r'core::hash::Hash::hash$|as core::hash::Hash>::hash$|core::hash::impls.*::hash$', lambda it, st, c: None if c.body is not None else h(it, st, c))])
        w = ('e', ctx.adt('row::KeyRow'), 0, (rows['L'],)) if rep == 'KeyRow' else ('e', ctx.adt('owned::KeyOwned'), 0, (arg('L'),))
        it, outs = ctx.run(f, q, args=[w, arg('STATE')])
        return {o.st.g('h', ()) for o in outs}, f
    byrep = {}
    for rep in ('KeyRow', 'KeyOwned'):
        for kind in SCALARS:
            cases = [('', (), ())]
            if kind in ('F32', 'F64'):
                cases = [('nan', [('^A$', '.*', '?')], [(r'is_nan\(A\)', True)]), ('zero', [('^A$', r'^0(\.0)?$', '='), ('^A$', '^A$', '=')], [(r'is_nan\(A\)', False)]), ('', [('^A$', r'^0(\.0)?$', '<>'), ('^A$', '^A$', '=')], [(r'is_nan\(A\)', False)])]
            for name, rels, truths in cases:
                rows = {'L': keyrow(ctx, [cellv(ctx, kind, 'A')])}
                ev, f = events(rep, rows, rels, truths)
                byrep[(rep, kind, name)] = ev
                ctx.ob(K, f'{rep}:{kind}:{name}:definite', len(ev) == 1, f'hash of a {kind} key ({name}) depends on more than its value: {sorted(ev)[:2]}', ctx.loc(f))
                if name in ('nan', 'zero'):
                    ctx.ob(K, f'{rep}:{kind}:{name}', all(not re.search(r'\bA\b', x) for e in ev for x in e), f'equal {name} values hash differently: {sorted(ev)[:2]}', ctx.loc(f))
                elif kind in ('Str', 'Bin'):
                    bad = [x for e in ev for x in e if re.search(r'\bAp\b', re.sub(r'from_raw_parts\(Ap(\.\w+)*,Al\)', '', x))]
                    ctx.ob(K, f'{rep}:{kind}:content', not bad and any('from_raw_parts' in x for e in ev for x in e), f'hash of {kind} keys is not a function of their bytes: {sorted(ev)[:2]}', ctx.loc(f))
                else:
                    ctx.ob(K, f'{rep}:{kind}:value', any(re.search(r'\bA\b', x) for e in ev for x in e), f'{kind} value does not reach the hasher', ctx.loc(f))
        two, f = events(rep, {'L': keyrow(ctx, [cellv(ctx, 'I64', 'A0'), cellv(ctx, 'I64', 'A1')])})
        ctx.ob(K, f'{rep}:components', len(two) == 1 and all([x for x in e if x in ('A0', 'A1')] == ['A0', 'A1'] for e in two), f'components hashed: {sorted(two)[:2]}', ctx.loc(f))
    for (rep, kind, name), ev in byrep.items():
        if rep == 'KeyRow': ctx.ob(K, f'agree:{kind}:{name}', ev == byrep[('KeyOwned', kind, name)], f'KeyRow and KeyOwned hash {kind} ({name}) differently: {ev} / {byrep[("KeyOwned", kind, name)]}')

@rule('K01', 'K03')
def key_no_nulls(ctx):
    """a key row is only built from rows without null components"""
    K = 'key_no_nulls'
    f = ctx.fn('crate::key::row::KeyRow::from_dyn')
    for n in (1, 2, 3):
        for null in [()] + [(i,) for i in range(n)]:
            rows = {}
            raw = keyrow(ctx, [cellv(ctx, 'I64', f'A{i}') for i in range(n)], null)
            it, outs = ctx.run(f, CQ(calls=row_hooks(rows), exact=True), args=[raw])
            r = results(it, outs)
            if null: ctx.ob(K, f'{n}:{null[0]}', not r.get('Ok') and r.get('Err'), f'a row with null component {null[0]} of {n} becomes a key', ctx.loc(f))
            else: ctx.ob(K, f'{n}:none', r.get('Ok') and not r.get('Err') and all(pstr(it, s, v[0]) == path(('e', ctx.adt('row::KeyRow'), 0, (raw,))) for s, v in r['Ok']), f'a row without nulls is refused or changed', ctx.loc(f))
    fo = ctx.fn('crate::key::row::KeyRow::from_owned')
    rows = {'L': keyrow(ctx, [cellv(ctx, 'I64', 'A0')])}
    it, outs = ctx.run(fo, CQ(calls=row_hooks(rows), exact=True), args=[('e', ctx.adt('owned::KeyOwned'), 0, (arg('L'),))])
    r = results(it, outs)
    ctx.ob(K, 'from_owned', r.get('Ok') and all('A0' in pstr(it, s, v[0]) for s, v in r['Ok']), 'from_owned', ctx.loc(fo))

# ------------------------------------------------------------------ composite order
@rule('K02', 'I01', 'Q01')
def version_order(ctx):
    """(key, timestamp) pairs order by key ascending, then timestamp descending; equality needs both"""
    K = 'version_order'
    for n in ('KeyTsViewRaw', 'KeyTsOwned'):
        ad = ctx.adt('ts::' + n)
        fs = [f[0] for f in ctx.F.adts[ad]['v'][0]['f']]
        mkv = lambda s: ('e', ad, 0, tuple(arg(f'{s}{f}') for f in fs))
        for rk in '<=>':
            for rt in '<=>':
                want = rk if rk != '=' else FLIP[rt]
                rels = [('^Akey$', '^Bkey$', rk), (r'^Ats(\.0)?$', r'^Bts(\.0)?$', rt)]
                for tr, m in (('Ord', 'cmp'), ('PartialOrd', 'partial_cmp'), ('PartialEq', 'eq')):
                    f = ctx.impl(tr, n, m)
                    it, outs = ctx.run(f, CQ(rels=rels, inline_cmp=['<key::ts::'], exact=True), args=[mkv('A'), mkv('B')])
                    got = {path(x) for o in outs for x in alts(it.deepval(o.st, o.v))}
                    got = {re.sub(r'Option#1\{(.*)\}', r'\1', g) for g in got}
                    w = {'<': 'Ordering#0', '=': 'Ordering#1', '>': 'Ordering#2'}[want] if m != 'eq' else '01'[want == '=']
                    ctx.ob(K, f'{n}:{m}:{rk}{rt}', got == {w}, f'key {rk}, timestamp {rt}: {m} gives {sorted(got)[:3]}', ctx.loc(f))
        f = ctx.impl('Hash', n, 'hash')
        def h(it, st, c):
            st.setg('h', st.g('h', ()) + (path(it.deepval(st, c.args[0])),)); return [(st, UNIT)]
        it, outs = ctx.run(f, CQ(calls=[(r'core::hash::Hash::hash$|as core::hash::Hash>::hash$', h)]), args=[mkv('A'), arg('STATE')])
        ctx.ob(K, f'{n}:hash', outs and all(set(o.st.g('h', ())) <= {'Akey', 'Ats', 'Ats.0'} and 'Akey' in o.st.g('h', ()) for o in outs), 'hash uses something else than key and timestamp', ctx.loc(f))
        new = ctx.fn(f'crate::key::ts::{n}::new')
        case(ctx, K, f'{n}:new', new, CQ(), ret=re.escape(path(('e', ad, 0, tuple(arg(f) for f in fs)))))
        for m, pat in (('key', r'self\.key'), ('timestamp', r'self\.ts')):
            case(ctx, K, f'{n}:{m}', f'crate::key::ts::{n}::{m}', CQ(), ret=pat)
    case(ctx, K, 'from_pair', ctx.impl('From', 'KeyTsOwned', 'from'), CQ(), args=[('t', (arg('key'), arg('ts')))], ret=r'KeyTsOwned#0\{key,ts\}')
    case(ctx, K, 'as_raw_view', 'crate::key::ts::KeyTsOwned::as_raw_view', CQ(calls=[(r'KeyRow::from_owned$', pure())]), ret=r'KeyTsViewRaw#0\{from_owned\(self\.key\)@Ok\.0,self\.ts\}')
    fo = ctx.fn('crate::key::ts::KeyTsViewRaw::from_owned')
    case(ctx, K, 'from_owned', fo, CQ(calls=[(r'KeyRow::from_owned$', pure())]), ret=r'KeyTsViewRaw#0\{from_owned\(key\)@Ok\.0,ts\}')
    case(ctx, K, 'into_parts', 'crate::key::ts::KeyTsViewRaw::into_parts', CQ(), ret=r'\(self\.key,self\.ts\)')
    # timestamps themselves
    for rt in '<=>':
        for tr, m in (('Ord', 'cmp'), ('PartialOrd', 'partial_cmp'), ('PartialEq', 'eq')):
            f = ctx.impl(tr, 'mvcc::Timestamp', m)
            w = {'<': 'Ordering#0', '=': 'Ordering#1', '>': 'Ordering#2'}[rt] if m != 'eq' else '01'[rt == '=']
            case(ctx, K, f'ts:{m}:{rt}', f, CQ(rels=[(r'^self(\.0)?$', r'^other(\.0)?$', rt)]), ret=lambda p: re.sub(r'Option#1\{(.*)\}', r'\1', p) == w)

# ------------------------------------------------------------------ clock
def atomic_hooks(fieldrx):
    """precise model of one atomic integer; ghost 'ops' records every modification, 'last' the latest value read"""
    def on(it, st, c):
        p = path(it.deepval(st, c.args[0]))
        if not re.fullmatch(fieldrx, p): return None
        op = c.name.rsplit('::', 1)[-1]
        a = [it.deepval(st, x) for x in c.args[1:]]
        def fresh(st, n):
            t = arg(n)
            for k in list(st.known):
                if any(x == t or x == t[1] for x in (k if isinstance(k, tuple) else (k,))): del st.known[k]
            st.setg('last', t); return t
        def did(st, *e): st.setg('ops', st.g('ops', ()) + (e,) if len(st.g('ops', ())) < 3 else st.g('ops'))
        if op == 'load': return [(st, fresh(st, 'CUR'))]
        if op == 'store': did(st, 'store', path(a[0])); return [(st, UNIT)]
        if op in ('fetch_add', 'fetch_max', 'swap', 'fetch_sub', 'fetch_min'):
            did(st, op, path(a[0])); return [(st, fresh(st, 'OLD'))]
        if op in ('compare_exchange', 'compare_exchange_weak'):
            s1, s2 = st.copy(), st
            did(s1, 'cas', path(a[0]), path(a[1]))
            s1.setg('cas', (a[0], a[1]))
            return [(s1, ok(a[0])), (s2, err(fresh(s2, 'ACT')))]
        return None
    return [(r'sync::atomic::Atomic', on)]

@rule('C01')
def clock(ctx):
    """timestamps are handed out by one atomic step that moves the clock past them; the clock never moves back"""
    K = 'clock'
    C = 'crate::mvcc::CommitClock::'
    H = atomic_hooks(r'self\.next(\.\w+)*')
    al = ctx.fn(C + 'alloc')
    it, outs = ctx.run(al, CQ(calls=H))
    bad = []
    for o in outs:
        ops = o.st.g('ops', ())
        p = path(it.norm(it.deepval(o.st, o.v)))
        if not (len(ops) == 1 and (ops[0] == ('fetch_add', '1') and p in ('OLD', 'Timestamp#0{OLD}') or ops[0][0] == 'cas' and re.fullmatch(r'Timestamp#0\{%s\}|%s' % (re.escape(ops[0][1]), re.escape(ops[0][1])), p) and ops[0][2] in (f'({ops[0][1]} + 1)', f'({ops[0][1]} +s 1)'))): bad.append((ops, p))
    ctx.ob(K, 'alloc', outs and not bad, f'allocation performs {bad[:2]}: not one atomic step handing out the value it moves past', ctx.loc(al))
    ad = ctx.fn(C + 'advance_to_at_least')
    it, outs = ctx.run(ad, CQ(calls=H))
    bad = []
    for o in outs:
        ops, last = o.st.g('ops', ()), o.st.g('last')
        cand = arg('candidate')
        if any(x[0] not in ('cas', 'fetch_max') for x in ops): bad.append(ops); continue
        if any(x[0] == 'fetch_max' and x[1] in ('candidate', 'candidate.0') for x in ops): continue
        if ops:
            cur, new = o.st.g('cas')
            if path(new) not in ('candidate', 'candidate.0') or not it.rel(o.st, new, cur) <= {'>', '='}: bad.append(('cas', path(cur), path(new)))
        elif last is None or not any(it.rel(o.st, c, last) <= {'<', '='} for c in (cand, fld(cand, '0'))): bad.append(('returns although the clock may be behind', path(last) if last else None))
    ctx.ob(K, 'advance', outs and not bad, f'{bad[:2]}', ctx.loc(ad))
    pk = ctx.fn(C + 'peek')
    it, outs = ctx.run(pk, CQ(calls=H))
    ctx.ob(K, 'peek', outs and all(not o.st.g('ops') and path(it.norm(it.deepval(o.st, o.v))) == 'CUR' for o in outs), 'peek does not return the current value unchanged', ctx.loc(pk))
    nw = ctx.fn(C + 'new')
    it, outs = ctx.run(nw, CQ())
    df = ctx.fn('crate::<impl core::default::Default for mvcc::CommitClock>::default', opt=True) or ctx.impl('Default', 'CommitClock', 'default')
    it, outs = ctx.run(df, CQ())
    ctx.ob(K, 'default', outs and all(re.search(r'(?<!\d)0(?!\d)', path(it.deepval(o.st, o.v))) and not re.search(r'18446744073709551\d+', path(it.deepval(o.st, o.v))) for o in outs), f'a fresh clock starts at {[path(it.deepval(o.st, o.v)) for o in outs]}', ctx.loc(df))
    it, outs = ctx.run(nw, CQ())
    ctx.ob(K, 'new', outs and all(re.search(r'start(\.0)?\b', path(it.deepval(o.st, o.v))) and '+' not in path(it.deepval(o.st, o.v)) for o in outs), f'{[path(it.deepval(o.st, o.v)) for o in outs]}', ctx.loc(nw))
    T_ = 'crate::mvcc::Timestamp::'
    for m, pat in (('next', r'(Timestamp#0\{)?\(self(\.0)? \+s 1\)\}?'), ('saturating_add', r'(Timestamp#0\{)?\(self(\.0)? \+s delta\)\}?'), ('saturating_sub', r'(Timestamp#0\{)?\(self(\.0)? -s delta\)\}?'), ('new', r'Timestamp#0\{raw\}|raw'), ('get', r'self(\.0)?')):
        f = ctx.fn(T_ + m, opt=True)
        sat = [(r'core::num::.*::saturating_(add|sub)$', lambda it, st, c: [(st, mk(('bin', 'SatAdd' if c.name.endswith('add') else 'SatSub', c.args[0], c.args[1])))])]
        if f: case(ctx, K, f'ts.{m}', f, CQ(calls=sat), ret=pat)
    for m, v in (('MIN', 0), ('MAX', 2**64 - 1)):
        it, outs = ctx.run(T_ + m, CQ())
        ctx.ob(K, f'ts.{m}', outs and all(it.norm(it.deepval(o.st, o.v)) == ('c', v) for o in outs), f'{[path(it.deepval(o.st, o.v)) for o in outs]}')
    case(ctx, K, 'view.new', 'crate::mvcc::ReadView::new', CQ(), ret=r'(ReadView#0\{)?read_ts\}?')
    case(ctx, K, 'view.read_ts', 'crate::mvcc::ReadView::read_ts', CQ(), ret=r'self(\.read_ts)?')

# ------------------------------------------------------------------ extraction
EX = 'crate::extractor::extractors::'
DT = 'arrow_schema::datatype::DataType'
ORDERED = {'Boolean', 'Int32', 'Int64', 'UInt32', 'UInt64', 'Float32', 'Float64', 'Utf8', 'LargeUtf8', 'Binary', 'LargeBinary', 'FixedSizeBinary'}

def dtype(ctx, name):
    for i, v in enumerate(ctx.F.adts[DT]['v']):
        if v['n'] == name: return ('e', DT, i, tuple(arg(f'{name}{j}') for j, _ in enumerate(v['f'])))
    raise Missing('DataType::' + name)

@rule('K03')
def key_types(ctx):
    """exactly the column types with a total order are accepted as key columns, wherever they stand in the key"""
    K = 'key_types'
    new = ctx.fn(EX + 'DynKeyProjection::new')
    schema = arg('schema')
    for kind in [v['n'] for v in ctx.F.adts[DT]['v']]:
        for pos in (0, 1):
            def dt(it, st, c):
                p = path(it.deepval(st, c.args[0]))
                k = kind if re.search(r'\(schema,%d\)' % (7 if pos == 0 else 3), p) else 'Int64'
                return [(st, it.tmp(st, c.frame, ('dt', c.bb), dtype(ctx, k)))]
            q = CQ(exact=True, calls=[(r'field::Field::data_type$', dt), (r'schema::Schema::field$', pure()), (r'DynProjection::from_indices$', lambda it, st, c: [(st, ok(mk(('call', 'proj', tuple(it.deepval(st, a) for a in c.args)))))])])
            it, outs = ctx.run(new, q, args={'columns': ('a', (('c', 7), ('c', 3)))})
            r = results(it, outs)
            if kind in ORDERED: ctx.ob(K, f'accept:{kind}:{pos}', r.get('Ok') and not r.get('Err'), f'a {kind} key column is refused', ctx.loc(new))
            else: ctx.ob(K, f'refuse:{kind}:{pos}', r.get('Err') and not r.get('Ok'), f'a {kind} column is accepted as component {pos} of the key', ctx.loc(new))
    it, outs = ctx.run(new, CQ(exact=True), args={'columns': ('a', ())})
    r = results(it, outs)
    ctx.ob(K, 'empty', r.get('Err') and not r.get('Ok'), 'a key without columns is accepted', ctx.loc(new))

@rule('K03')
def key_projection(ctx):
    """the projection uses exactly the given columns, in the given order; the key schema describes the same columns"""
    K = 'key_projection'
    new = ctx.fn(EX + 'DynKeyProjection::new')
    def dt(it, st, c): return [(st, it.tmp(st, c.frame, ('dt', c.bb), dtype(ctx, 'Int64')))]
    q = CQ(exact=True, calls=[(r'field::Field::data_type$', dt), (r'schema::Schema::field$', pure()), (r'DynProjection::from_indices$', lambda it, st, c: [(st, ok(mk(('call', 'proj', tuple(it.deepval(st, a) for a in c.args)))))])])
    it, outs = ctx.run(new, q, args={'columns': ('a', (('c', 7), ('c', 3)))})
    r = results(it, outs)
    ad = ctx.adt('DynKeyProjection')
    fs = [f[0] for f in ctx.F.adts[ad]['v'][0]['f']]
    for s, v in r.get('Ok', []):
        x = it.deepval(s, v[0])
        g = {f: path(y) for f, y in zip(fs, x[3])} if x[0] == 'e' else {}
        ctx.ob(K, 'projection', re.fullmatch(r'proj\(schema,\[7,3\]\)', g.get('projection', '')), f"projection built from {g.get('projection')}", ctx.loc(new))
        ctx.ob(K, 'columns', g.get('key_columns') == '[7,3]', f"key columns {g.get('key_columns')}", ctx.loc(new))
        ctx.ob(K, 'schema', g.get('schema') == 'schema', f"schema {g.get('schema')}", ctx.loc(new))
        ks = g.get('key_schema', '')
        ctx.ob(K, 'key_schema', 0 <= ks.find('field(schema,7)') < ks.find('field(schema,3)'), f'key schema {ks}', ctx.loc(new))
    ctx.need(K, 4)
    pf = ctx.fn(EX + 'projection_for_field')
    seen = []
    def nh(it, st, c): seen.append([path(it.deepval(st, a)) for a in c.args]); return [(st, ok(arg('P')))]
    ctx.run(pf, CQ(exact=True, calls=[(r'DynKeyProjection::new$', nh)]))
    ctx.ob(K, 'for_field', seen and all(a == ['schema', '[col]'] for a in seen), f'{seen[:1]}', ctx.loc(pf))
    seen.clear()
    pc = ctx.fn(EX + 'projection_for_columns')
    ctx.run(pc, CQ(exact=True, calls=[(r'DynKeyProjection::new$', nh)]))
    ctx.ob(K, 'for_columns', seen and all(a == ['schema', 'columns'] for a in seen), f'{seen[:1]}', ctx.loc(pc))
    for m, pat in (('key_schema', r'self\.key_schema'), ('key_indices', r'self\.key_columns')):
        case(ctx, K, m, ctx.impl('KeyProjection', 'DynKeyProjection', m), CQ(), ret=pat)
    # projecting rows
    pv = ctx.impl('KeyProjection', 'DynKeyProjection', 'project_view')
    for same in (True, False):
        H = [(r'ensure_batch_schema$', lambda it, st, c: [(st.copy(), ok(UNIT)), (setw(st), err(arg('E')))]),
             (r'RecordBatch::schema$', ret(arg('BS'))), (r'DynProjection::from_indices$', lambda it, st, c: [(st.copy(), ok(mk(('call', 'proj', tuple(it.deepval(st, a) for a in c.args))))), (setw(st), err(arg('E')))]),
             (r'DynSchema::from_ref$', pure()), (r'project_row_raw$', lambda it, st, c: [(st.copy(), ok(mk(('call', 'raw', tuple(it.deepval(st, a) for a in c.args))))), (setw(st), err(arg('E')))]),
             (r'KeyRow::from_dyn$', lambda it, st, c: [(st.copy(), ok(mk(('call', 'key', (it.deepval(st, c.args[0]),))))), (setw(st), err(arg('E')))]), (r'map_view_err$|map_key_row_err$', pure())]
        q = lambda: CQ(exact=True, calls=H, rels=[(r'^BS$', r'^self\.schema$', '=' if same else '<>')])
        it, outs = ctx.run(pv, q(), args={'rows': ('a', (arg('R0'), arg('R1')))})
        r = results(it, outs)
        pj = r'self\.projection' if same else r'proj\(BS,self\.key_columns\)'
        ds = r'self\.dyn_schema' if same else r'from_ref\(BS\)'
        one = lambda i: r'key\(raw\(%s,%s,batch,R%d\)\)' % (pj, ds, i)
        bad = [pstr(it, s, v[0]) for s, v in r.get('Ok', []) if s.g('w') or not re.fullmatch(r'\[%s,%s\]' % (one(0), one(1)), pstr(it, s, v[0]))]
        ctx.ob(K, f'view:{"same" if same else "fresh"}', r.get('Ok') and not bad, f'keys of rows R0, R1: {bad[:2]}', ctx.loc(pv))
    # no key is taken out of a batch of another schema
    it, outs = ctx.run(pv, CQ(exact=True, calls=[(r'schemas_compatible$', lambda it, st, c: [(st, FALSE)]), (r'RecordBatch::schema$', ret(arg('BS'))), (r'DynProjection::from_indices$|project_row_raw$|KeyRow::from_dyn$', lambda it, st, c: [(st, ok(mk(('call', 'x', ()))))])]), args={'rows': ('a', (arg('R0'), arg('R1')))})
    r = results(it, outs)
    ctx.ob(K, 'view:foreign', r.get('Err') and not r.get('Ok'), 'keys are taken out of a batch whose schema is not the table schema', ctx.loc(pv))
    vs = ctx.impl('KeyProjection', 'DynKeyProjection', 'validate_schema')
    for tv in (True, False):
        it, outs = ctx.run(vs, CQ(calls=[(r'schemas_compatible$', lambda it, st, c: [(st, boolv(tv))])]))
        r = results(it, outs)
        ctx.ob(K, f'validate:{tv}', (r.get('Ok') and not r.get('Err')) if tv else (r.get('Err') and not r.get('Ok')), 'schema validation ignores its verdict', ctx.loc(vs))

def setw(st):
    st.setg('w', 'fail'); return st

@rule('K03', 'I02')
def schema_compat(ctx):
    """a batch schema is accepted exactly when it equals the table schema, optionally followed by a non-null u64 commit column"""
    K = 'schema_compat'
    f = ctx.fn(EX + 'schemas_compatible')
    def run(ne, na, rels, name='_commit_ts', dt='UInt64', nullable=False, whole='<>', allextra=False):
        def fields(it, st, c):
            p = path(it.deepval(st, c.args[0]))
            n, t = (ne, 'E') if p == 'expected' else (na, 'A')
            return [(st, it.tmp(st, c.frame, ('f', t), ('a', tuple(arg(f'{t}{i}') for i in range(n)))))]
        def nm(it, st, c):
            p = path(it.deepval(st, c.args[0]))
            return [(st, it.tmp(st, c.frame, ('n', c.bb), ('s', name if (p == f'A{na - 1}' or allextra and re.fullmatch(r'A\d', p) and int(p[1]) >= ne) and na > ne else p)))]
        def dth(it, st, c): return [(st, it.tmp(st, c.frame, ('dt', c.bb), dtype(ctx, dt)))]
        q = CQ(exact=True, rels=[('^expected$', '^actual$', whole)] + list(rels), calls=[(r'schema::Schema::fields$', fields), (r'field::Field::name$', nm), (r'Field::data_type$', dth), (r'Field::is_nullable$', lambda it, st, c: [(st, boolv(nullable))])])
        it, outs = ctx.run(f, q)
        return {path(x) for o in outs for x in alts(it.deepval(o.st, o.v))}
    eq = lambda *rs: [(f'^E{i}$', f'^A{i}$', r) for i, r in enumerate(rs)]
    T, N = {'1'}, {'0'}
    for key, want, kw in (('equal', T, dict(ne=2, na=2, rels=eq('=', '='), whole='=')), ('commit', T, dict(ne=2, na=3, rels=eq('=', '='))), ('commit1', T, dict(ne=1, na=2, rels=eq('='))),
                          ('differ', N, dict(ne=2, na=2, rels=eq('=', '<'))), ('head0', N, dict(ne=2, na=3, rels=eq('<', '='))), ('head1', N, dict(ne=2, na=3, rels=eq('=', '>'))),
                          ('name', N, dict(ne=2, na=3, rels=eq('=', '='), name='other')), ('type', N, dict(ne=2, na=3, rels=eq('=', '='), dt='Int64')), ('nullable', N, dict(ne=2, na=3, rels=eq('=', '='), nullable=True)),
                          ('missing', N, dict(ne=2, na=1, rels=eq('='))), ('two-extra', N, dict(ne=1, na=3, rels=eq('='), allextra=True)), ('three-extra', N, dict(ne=1, na=4, rels=eq('='), allextra=True))):
        got = run(**kw)
        ctx.ob(K, key, got == want, f'{key}: accepted = {sorted(got)}', ctx.loc(f))

@rule('K03')
def schema_builder(ctx):
    """the builder resolves every key name to the column of that name, in key order, and refuses missing names and empty keys"""
    K = 'schema_builder'
    b = ctx.fn('crate::schema::SchemaBuilder::build')
    ad = ctx.adt('schema::SchemaBuilder')
    fs = [f[0] for f in ctx.F.adts[ad]['v'][0]['f']]
    def run(parts, cols, meta=FALSE):
        seen = []
        def fields(it, st, c): return [(st, it.tmp(st, c.frame, ('f', c.bb), ('a', tuple(('s', x) for x in cols))))]
        def nm(it, st, c): return [(st, c.args[0])]
        def pc(it, st, c): seen.append([path(it.deepval(st, a)) for a in c.args]); return [(st, ok(arg('EX')))]
        v = ('e', ad, 0, tuple({'schema': arg('schema'), 'key_parts': ('a', tuple(('s', p) for p in parts)), 'write_metadata': meta}.get(f, arg(f)) for f in fs))
        it, outs = ctx.run(b, CQ(exact=True, calls=[(r'schema::Schema::fields$', fields), (r'field::Field::name$', nm), (r'projection_for_columns$|DynKeyProjection::new$', pc), (r'DynModeConfig::new$', lambda it, st, c: [(st, ok(arg('CFG')))])]), args=[v])
        return it, results(it, outs), seen
    for parts, cols, want in ((['b', 'a'], ['a', 'x', 'b'], '[2,0]'), (['x'], ['a', 'x', 'b'], '[1]'), (['a', 'b', 'x'], ['a', 'x', 'b'], '[0,2,1]'), (['id', 'i'], ['idx', 'id2', 'id', 'A', 'i'], '[2,4]'), (['i', 'id'], ['idx', 'id', 'ii', 'i'], '[3,1]'), (['id'], ['ID', 'xid', 'id'], '[2]')):
        it, r, seen = run(parts, cols)
        ctx.ob(K, f'indices:{"".join(parts)}', r.get('Ok') and seen and all(a[1] == want and a[0] == 'schema' for a in seen), f'key {parts} of columns {cols} resolves to {seen[:2]}', ctx.loc(b))
    for parts in (['a', 'zz'], ['zz'], ['zz', 'a'], []):
        it, r, seen = run(parts, ['a', 'x'])
        ctx.ob(K, f'refuse:{"".join(parts)}', r.get('Err') and not r.get('Ok'), f'key {parts} of columns a, x is accepted', ctx.loc(b))
    # the key recorded in the schema names every part, in order
    for parts in (['b', 'a'], ['a'], ['a', 'b', 'x']):
        put = []
        def ins(it, st, c):
            put.append((path(it.deepval(st, c.args[1])), path(it.deepval(st, c.args[2])))); return [(st, NONE)]
        cols = ['a', 'x', 'b']
        v = ('e', ad, 0, tuple({'schema': arg('schema'), 'key_parts': ('a', tuple(('s', p) for p in parts)), 'write_metadata': TRUE}.get(f, arg(f)) for f in fs))
        it, outs = ctx.run(b, CQ(exact=True, calls=[(r'schema::Schema::fields$', lambda it, st, c: [(st, it.tmp(st, c.frame, ('f', c.bb), ('a', tuple(('s', x) for x in cols))))]), (r'field::Field::name$', lambda it, st, c: [(st, c.args[0])]),
            (r'HashMap.*::insert$', ins), (r'to_value$', lambda it, st, c: [(st, ok(it.deepval(st, c.args[0])))]), (r'to_string$', lambda it, st, c: [(st, it.deepval(st, c.args[0]))]), (r'projection_for_columns$|DynKeyProjection::new$', lambda it, st, c: [(st, ok(arg('EX')))]), (r'DynModeConfig::new$', lambda it, st, c: [(st, ok(arg('CFG')))])]), args={'self': v})
        w = '[' + ','.join(f'"{x}"' for x in parts) + ']'
        ctx.ob(K, f'metadata:{"".join(parts)}', put and all(w in y.replace("'", '"') for x, y in put), f'key {parts} is recorded as {put[:1]}', ctx.loc(b))
    # the order of the key is the order the user gave
    fid = lambda it, st, c: [(st, c.args[0])]
    for m, args, want in (('primary_key', {'field': ('s', 'n')}, '["n"]'), ('composite_key', {'fields': ('a', (('s', 'n1'), ('s', 'n2')))}, '["n1","n2"]'), ('add_key_part', {'field': ('s', 'n')}, None)):
        for prev in ((), ('p1',), ('p1', 'p2')):
            from rules.inmem import struct
            v = struct(ctx, ad, schema=arg('schema'), key_parts=('a', tuple(('s', p) for p in prev)), write_metadata=FALSE)
            it, outs = ctx.run(f'crate::schema::SchemaBuilder::{m}', CQ(exact=True, calls=[(r'Into::into$|String.*::from$', fid)]), args={'self': v, **args})
            w = want or '[' + ','.join(f'"{x}"' for x in prev + ('n',)) + ']'
            got = [(ppost(it, o.st, o.v, 'key_parts').replace("'", '"'), ppost(it, o.st, o.v, 'schema')) for o in outs]
            ctx.ob(K, f'{m}:{prev}', got and all(g == (w, 'schema') for g in got), f'{m} after {prev}: key {got[:1]}, expected {w}', ctx.loc(ctx.fn(f'crate::schema::SchemaBuilder::{m}')))
    for prev in (FALSE, TRUE):
        from rules.inmem import struct
        v = struct(ctx, ad, schema=arg('schema'), key_parts=('a', (('s', 'p1'),)), write_metadata=prev)
        it, outs = ctx.run('crate::schema::SchemaBuilder::with_metadata', CQ(exact=True), args={'self': v})
        got = [tuple(ppost(it, o.st, o.v, x).replace("'", '"') for x in ('schema', 'key_parts', 'write_metadata')) for o in outs]
        ctx.ob(K, f'with_metadata:{path(prev)}', got == [('schema', '["p1"]', path(TRUE))], f'with_metadata gives (schema, key, metadata wanted) = {got[:1]}', ctx.loc(ctx.fn('crate::schema::SchemaBuilder::with_metadata')))
    it, outs = ctx.run('crate::schema::SchemaBuilder::primary_key', CQ(exact=True, calls=[(r'Into::into$|String.*::from$', lambda it, st, c: [(st, c.args[0])])]))
    ctx.ob(K, 'primary_key', outs and all(ppost(it, o.st, o.v, 'key_parts') == '[field]' and ppost(it, o.st, o.v, 'schema') == 'self.schema' for o in outs), 'primary_key does not set the one key column')

@rule('K03')
def batch_row(ctx):
    """materialising a row takes that row of every user column, in column order, nulls as nulls, and no others"""
    K = 'batch_row'
    f = ctx.fn(EX + 'row_from_batch')
    def run(names, types, nulls, inrange=True):
        cols = ('a', tuple(arg(f'C{i}') for i in range(len(names))))
        ix = lambda p: int(re.search(r'C(\d)', p).group(1))
        def dth(it, st, c):
            p = path(it.deepval(st, c.args[0]))
            return [(st, it.tmp(st, c.frame, ('dt', c.bb, ix(p)), dtype(ctx, types[ix(p)])))] if re.search(r'C\d', p) else None
        def nm(it, st, c):
            p = path(it.deepval(st, c.args[0]))
            m = re.search(r'field\(.*,(\d)\)', p)
            return [(st, it.tmp(st, c.frame, ('n', c.bb), ('s', names[int(m.group(1))])))] if m else None
        def nul(it, st, c):
            if path(it.deepval(st, c.args[1])) != 'row': return None
            return [(st, boolv(nulls[ix(path(it.deepval(st, c.args[0])))]))]
        H = [(r'RecordBatch::columns$', lambda it, st, c: [(st, it.tmp(st, c.frame, ('cols',), cols))]), (r'RecordBatch::num_columns$', ret(('c', len(names)))), (r'RecordBatch::column$', lambda it, st, c: [(st, cols[1][c.args[1][1]])] if c.args[1][0] == 'c' else None),
             (r'RecordBatch::schema$', ret(arg('BS'))), (r'schema::Schema::field$', pure()), (r'Field::name$', nm), (r'Array::data_type$', dth), (r'Array::is_null$', nul), (r'RecordBatch::num_rows$', ret(arg('NR'))),
             (r'Array::is_valid$', lambda it, st, c: [(s, boolv(v == FALSE)) for s, v in nul(it, st, c) or []] or None),
             (r'downcast_column$', lambda it, st, c: [(st.copy(), ok(mk(('call', 'typed', (it.deepval(st, c.args[0]),))))), (setw(st), err(arg('E')))])]
        it, outs = ctx.run(f, CQ(exact=True, calls=H, rels=[('^row$', '^NR$', '<' if inrange else '=>')]))
        return it, results(it, outs)
    it, r = run(['a', 'b'], ['Int64', 'Utf8'], [False, False], inrange=False)
    ctx.ob(K, 'range', r.get('Err') and not r.get('Ok'), 'a row beyond the batch is materialised', ctx.loc(f))
    TY = dict(Boolean='Bool', Int32='I32', Int64='I64', UInt32='U32', UInt64='U64', Float32='F32', Float64='F64', Utf8='Str', Binary='Bin')
    CELL = 'typed_arrow_dyn::cell::DynCell'
    for ty, kind in TY.items():
        it, r = run(['x', 'a'], ['Int64', ty], [False, False])
        bad = []
        for s, v in r.get('Ok', []):
            x = it.deepval(s, v[0])
            x = x[3][0] if x[0] == 'e' else x
            e = x[1][1] if x[0] == 'a' and len(x[1]) == 2 else x
            p = path(e)
            m = re.fullmatch(r'Option#1\{DynCell#(\d+)\{.*value\w*\(typed\(C1\),row\).*\}\}', p)
            if s.g('w') or not m or ctx.F.adts[CELL]['v'][int(m.group(1))]['n'] != kind: bad.append(p)
        ctx.ob(K, f'type:{ty}', r.get('Ok') and not bad, f'a {ty} value becomes {bad[:1]}', ctx.loc(f))
    for names, types, nulls, want in ((['a', 'b'], ['Int64', 'Utf8'], [False, False], ['C0', 'C1']), (['a', 'b', 'c'], ['Int64', 'Int32', 'UInt64'], [False, True, False], ['C0', None, 'C2']), (['a', '_commit_ts', 'b', '_tombstone'], ['Int64', 'UInt64', 'Int64', 'Boolean'], [False] * 4, ['C0', 'C2']),
                                      (['a', '_tombstone', 'b'], ['Float64', 'Boolean', 'Float32'], [True, False, False], [None, 'C2']), (['a', 'b'], ['Binary', 'Boolean'], [False, False], ['C0', 'C1'])):
        it, r = run(names, types, nulls)
        bad = []
        for s, v in r.get('Ok', []):
            x = it.deepval(s, v[0])
            x = x[3][0] if x[0] == 'e' else x
            els = [path(e) for e in x[1]] if x[0] == 'a' else [path(x)]
            okk = not s.g('w') and len(els) == len(want) and all((e == 'Option#0') if w is None else re.fullmatch(r'Option#1\{DynCell#\d+\{.*value\w*\(typed\(%s\),row\).*\}\}' % w, e) for e, w in zip(els, want))
            if not okk: bad.append(els)
        ctx.ob(K, f'{"".join(names)}:{"".join("01"[n] for n in nulls)}', r.get('Ok') and not bad, f'columns {names} nulls {nulls}: row becomes {bad[:1]}', ctx.loc(f))

# ------------------------------------------------------------------ serialisation
DCELL = 'typed_arrow_dyn::cell::DynCell'
def dcell(ctx, kind):
    for i, v in enumerate(ctx.F.adts[DCELL]['v']):
        if v['n'] == kind: return ('e', DCELL, i, tuple(arg('V') for _ in v['f']))
    raise Missing('DynCell::' + kind)

KIND_TYPE = dict(Bool='Boolean', I8='Int8', I16='Int16', I32='Int32', I64='Int64', U8='UInt8', U16='UInt16', U32='UInt32', U64='UInt64', F32='Float32', F64='Float64', Str='Utf8', Bin='Binary')

@rule('K04')
def key_serde(ctx):
    """serialising then deserialising a key component gives the same kind and value; null and composite components are refused"""
    K = 'key_serde'
    ser = ctx.impl('Serialize', 'KeyOwned', 'serialize')
    conv = [b for k, b in ctx.F.bodies.items() if re.search(r"DynCellSeqVisitor as .*Visitor<'de>>::visit_seq$", k)]
    ctx.ob(K, 'reader', len(conv) == 1, 'the sequence reader of keys is gone')
    goodk = ['Bool', 'I8', 'I16', 'I32', 'I64', 'U8', 'U16', 'U32', 'U64', 'F32', 'F64', 'Str', 'Bin']
    kinds = [v['n'] for v in ctx.F.adts[DCELL]['v']]
    bits = [(r'::to_bits$', pure()), (r'::from_bits$', lambda it, st, c: [(st, bitsinv(it.deepval(st, c.args[0])))])]
    def bitsinv(v): return v[1][2][0] if v[0] == 'y' and v[1][0] == 'call' and str(v[1][1]).endswith('to_bits') else mk(('call', 'from_bits', (v,)))
    ad = ctx.adt('owned::KeyOwned')
    def serialize(cells):
        def out(it, st, c):
            st.setg('o', st.g('o', ()) + (it.deepval(st, c.args[1]),)); return [(st.copy(), ok(UNIT)), (setw(st), err(arg('E')))]
        H = bits + [(r'DynRowOwned::cells$', lambda it, st, c: [(st, it.tmp(st, c.frame, ('cells', c.bb), ('a', tuple(cells))))]), (r'DynRowOwned::len$', ret(('c', len(cells)))), (r'serialize_seq$', lambda it, st, c: [(st, ok(arg('SEQ')))]),
             (r'serialize_element$', out), (r'SerializeSeq::end$', lambda it, st, c: [(st, ok(UNIT))])]
        it, outs = ctx.run(ser, CQ(exact=True, calls=H), args=[('e', ad, 0, (arg('ROW'),)), arg('serializer')])
        return it, results(it, outs)
    sc = next((k for k in ctx.F.adts if k.endswith('::SerializedCell')), None)
    def deserialize(vals):
        """visit_seq on a sequence yielding vals"""
        def nxt(it, st, c):
            i = st.g('i', 0); st.setg('i', i + 1)
            if i >= len(vals): return [(st, ok(NONE))]
            s2 = st.copy()
            return [(st, ok(some(vals[i]))), (setw(s2), err(arg('E')))]
        it, outs = ctx.run(conv[0], CQ(exact=True, calls=bits + [(r'SeqAccess::next_element$', nxt)]))
        return it, results(it, outs)
    def lift(v):
        if sc is None: return v
        for i, x in enumerate(ctx.F.adts[sc]['v']):
            t = ctx.F.types[x['f'][0][1]] if len(x['f']) == 1 and isinstance(x['f'][0][1], int) else None
            if t and v[0] == 'e' and t.get('n') == v[1]: return ('e', sc, i, (v,))
        return v
    for kind in kinds:
        c = dcell(ctx, kind)
        it, r = serialize([some(c)])
        if kind not in goodk:
            ctx.ob(K, f'refuse:{kind}', r.get('Err') and not r.get('Ok'), f'a {kind} component is serialised', ctx.loc(ser)); continue
        outs = {s.g('o', ()) for s, _ in r.get('Ok', []) if not s.g('w')}
        lost = [1 for s, _ in r.get('Ok', []) if s.g('w')]
        ctx.ob(K, f'write:{kind}', len(outs) == 1 and all(len(o) == 1 for o in outs) and not lost, f'a {kind} component is written as {[[path(x) for x in o] for o in outs][:2]}', ctx.loc(ser))
        for o in outs:
            if kind in ('F32', 'F64'):
                ctx.ob(K, f'exact:{kind}', all('to_bits(V)' in path(x) for x in o), f'a {kind} component is written as {[path(x) for x in o]}: text formats do not preserve it', ctx.loc(ser))
            if len(o) != 1 or not conv: continue
            it2, r2 = deserialize([lift(o[0])])
            got = {pstr(it2, s, v[0]) for s, v in r2.get('Ok', []) if not s.g('w')}
            ctx.ob(K, f'read:{kind}', got == {f'[{path(c)}]'}, f'a {kind} component is read back as {sorted(got)[:2]}', ctx.loc(conv[0]))
            ctx.ob(K, f'read-error:{kind}', not [1 for s, v in r2.get('Ok', []) if s.g('w')], 'a read error is dropped', ctx.loc(conv[0]))
    a, b = ('e', DCELL, kinds.index('I64'), (arg('V0'),)), ('e', DCELL, kinds.index('Str'), (arg('V1'),))
    it, r = serialize([some(a), some(b)])
    outs = {tuple(path(x) for x in s.g('o', ())) for s, _ in r.get('Ok', []) if not s.g('w')}
    ctx.ob(K, 'order', outs == {(path(a), path(b))}, f'{outs}', ctx.loc(ser))
    for cells in ([NONE], [some(a), NONE], [NONE, some(a)]):
        it, r = serialize(cells)
        ctx.ob(K, f'null:{len(cells)}{cells[0] == NONE}', r.get('Err') and not [1 for s, _ in r.get('Ok', [])], 'a null component is serialised', ctx.loc(ser))
    # full deserialisation: fields and cells stay paired
    de = next((b for k, b in ctx.F.bodies.items() if re.search(r"<key::owned::KeyOwned as .*Deserialize<'de>>::deserialize$", k)), None)
    if de is None: raise Missing('Deserialize for KeyOwned')
    seen = []
    def tn(it, st, c): seen.append([path(it.deepval(st, x)) for x in c.args]); return [(st.copy(), ok(arg('ROW'))), (setw(st), err(arg('E')))]
    def fl(it, st, c): return [(st, mk(('call', 'Field', tuple(it.deepval(st, x) for x in c.args))))]
    H = [(r'deserialize_seq$', lambda it, st, c: [(st, ok(('a', (a, b))))]), (r'DynRowOwned::try_new$', tn), (r'field::Field::new$', fl), (r'Fields.*From.*::from$|fields::Fields::from$', lambda it, st, c: [(st, c.args[0])])]
    it, outs = ctx.run(de, CQ(exact=True, calls=H))
    r = results(it, outs)
    DTI = {v['n']: i for i, v in enumerate(ctx.F.adts[DT]['v'])}
    pat = r"\[Field\(.*DataType#%d,0\),Field\(.*DataType#%d,0\)\]" % (DTI['Int64'], DTI['Utf8'])
    ctx.ob(K, 'rebuild', seen and all(re.fullmatch(pat, x[0]) and x[1] == f'[Option#1{{{path(a)}}},Option#1{{{path(b)}}}]' for x in seen), f'{seen[:1]}', ctx.loc(de))
    for kind in goodk:
        c = dcell(ctx, kind); seen.clear()
        ctx.run(de, CQ(exact=True, calls=[(r'deserialize_seq$', lambda it, st, x: [(st, ok(('a', (a, c))))])] + H[1:]))
        pat = r"\[Field\(.*DataType#%d,0\),Field\(.*DataType#%d(\{\})?,0\)\]" % (DTI['Int64'], DTI[KIND_TYPE[kind]])
        ctx.ob(K, f'rebuild:{kind}', seen and all(re.fullmatch(pat, x[0]) for x in seen), f'a {kind} component is given the type {seen[:1]}', ctx.loc(de))
    ctx.ob(K, 'rebuild-error', r.get('Ok') and not any(s.g('w') for s, _ in r['Ok']), 'a failed reconstruction is reported as success', ctx.loc(de))

@rule('K04')
def key_construction(ctx):
    """keys built from values hold exactly that value as their single component; tuples concatenate in order"""
    K = 'key_construction'
    kinds = [v['n'] for v in ctx.F.adts[DCELL]['v']]
    n = 0
    for im in ctx.F.impls:
        if not im['trait'].endswith('convert::From') or not (ctx.F.types[im['self']].get('n') or '').endswith('owned::KeyOwned'): continue
        for m, fn in im['fns']:
            b = ctx.F.bodies.get(fn)
            if b is None: continue
            ty = ctx.F.ty_s(b['locals'][1][0])
            want = {'bool': 'Bool', 'i32': 'I32', 'i64': 'I64', 'u32': 'U32', 'u64': 'U64', 'f32': 'F32', 'f64': 'F64'}.get(ty, 'Str' if 'str' in ty.lower() else 'Bin' if 'u8' in ty else None)
            if want is None: continue
            seen = []
            def tn(it, st, c): seen.append([path(it.deepval(st, x)) for x in c.args]); return [(st, ok(arg('ROW')))]
            H = [(r'DynRowOwned::try_new$', tn), (r'field::Field::new$', pure()), (r'fields::Fields.*from', lambda it, st, c: [(st, c.args[0])]), (r'to_owned$|to_vec$', lambda it, st, c: [(st, c.args[0])])]
            ctx.run(b, CQ(exact=True, calls=H), args=[arg('value')])
            n += 1
            ctx.ob(K, f'from:{ty.split("::")[-1]}', seen and all(re.fullmatch(r'\[Option#1\{DynCell#%d\{value\}\}\]' % kinds.index(want), x[1]) for x in seen), f'a key from {ty} holds {seen[:1]}', ctx.loc(b))
            DTI = {v['n']: i for i, v in enumerate(ctx.F.adts[DT]['v'])}
            ctx.ob(K, f'type:{ty.split("::")[-1]}', seen and all(re.findall(r'DataType#(\d+)', x[0]) == [str(DTI[KIND_TYPE[want]])] for x in seen), f'a key from {ty} gets the field {[x[0] for x in seen][:1]}', ctx.loc(b))
    ctx.ob(K, 'instances', n >= 9, f'only {n} constructors found')
    tp = ctx.fn('crate::key::owned::KeyOwned::tuple')
    ad = ctx.adt('owned::KeyOwned')
    seen = []
    def tn(it, st, c): seen.append([path(it.deepval(st, x)) for x in c.args]); return [(st, ok(arg('ROW')))]
    def parts(it, st, c):
        p = path(it.deepval(st, c.args[0]))
        k = {'R0': ('a', (arg('f0'),)), 'R1': ('a', (arg('f1'), arg('f2')))}[p]; d = {'R0': ('a', (arg('c0'),)), 'R1': ('a', (arg('c1'), arg('c2')))}[p]
        return [(st, ('t', (k, d)))]
    H = [(r'DynRowOwned::try_new$', tn), (r'DynRowOwned::into_parts$', parts), (r'fields::Fields.*from', lambda it, st, c: [(st, c.args[0])])]
    ctx.run(tp, CQ(exact=True, calls=H), args=[('a', (('e', ad, 0, (arg('R0'),)), ('e', ad, 0, (arg('R1'),))))])
    ctx.ob(K, 'tuple', seen and all(x == ['[f0,f1,f2]', '[c0,c1,c2]'] for x in seen), f'{seen[:1]}', ctx.loc(tp))
    case(ctx, K, 'from_key_row', 'crate::key::owned::KeyOwned::from_key_row', CQ(calls=[(r'DynRowOwned::from_raw$', lambda it, st, c: [(st, ok(mk(('call', 'fr', (it.deepval(st, c.args[0]),)))))])]), when='Ok', ret=r'KeyOwned#0\{fr\(row(\.raw)?\)\}')

@rule('K04')
def key_accessors(ctx):
    """a key is read as text or bytes exactly when it is a single component of that kind"""
    K = 'key_accessors'
    kinds = [v['n'] for v in ctx.F.adts[DCELL]['v']]
    ad = ctx.adt('owned::KeyOwned')
    for meth, kind in (('as_utf8', 'Str'), ('as_bytes', 'Bin')):
        f = ctx.fn('crate::key::owned::KeyOwned::' + meth)
        for k in ('Str', 'Bin', 'I64'):
            for n in range(4):
                cells = [some(('e', DCELL, kinds.index(k), (arg('V'),)))] + [some(('e', DCELL, kinds.index('Str'), (arg('W'),))), some(('e', DCELL, kinds.index('Bin'), (arg('X'),)))]
                cells = cells[:n]
                st = State(); i0 = Interp(ctx.F, CQ(exact=True))
                me = i0.tmp(st, ('root', 0), 'me', ('e', ad, 0, (arg('ROW'),)))
                H = [(r'DynRowOwned::cells$', lambda it, st, c: [(st, it.tmp(st, c.frame, ('cells', c.bb), ('a', tuple(cells))))]), (r'DynRowOwned::len$', ret(('c', n))), (r'as_str$|as_slice$|Deref::deref$', lambda it, st, c: [(st, c.args[0])])]
                it, outs = ctx.run(f, CQ(exact=True, calls=H), args=[me], st=st)
                got = {path(it.deepval(s, it.rd(s, w[3][0]))) if vi == 1 else None for o in outs for s, vi, w in it.split(o.st, o.v, OPTION)}
                exp = 'V' if n == 1 and k == kind else None
                ctx.ob(K, f'{meth}:{k}:{n}', got == {exp}, f'{meth} of a key of {n} components, the first a {k}, is {got}, expected {exp}', ctx.loc(f))
