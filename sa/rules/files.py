"""Reading table files: caches, coalesced range reads, page-index validation, table configuration."""
import itertools, re
from core import *
from rules.inmem import RankQ, struct
from rules.ondisk import dv, config, SS

BL, MD = 'crate::ondisk::bloom::', 'crate::ondisk::metadata::'

def cache_run(ctx, kind, cap, ops):
    """run a sequence of ('i', key, value) / ('g', key) on a new cache: results of the reads, number of entries after each insertion"""
    bloom = kind == 'bloom'
    T = (BL + 'BloomFilterCache::') if bloom else (MD + 'ParquetMetadataCache::')
    AD = ctx.adt('bloom::BloomFilterCache' if bloom else 'metadata::ParquetMetadataCache')
    ei = [f[0] for f in ctx.F.adts[AD]['v'][0]['f']].index('entries')
    def key(k): return struct(ctx, ctx.adt('bloom::BloomCacheKey'), path=arg(f'W{k[0]}'), row_group=('c', k[1]), column=('c', k[2])) if bloom else arg(f'W{k[0]}')
    it, outs = ctx.run(ctx.fn(T + 'new'), CQ(exact=True), args=[('c', cap)])
    if len(outs) != 1: return None, None
    v = dv(it, outs[0].st, outs[0].v); reads, sizes = [], []
    for op in ops:
        st = State(); it = Interp(ctx.F, CQ(exact=True)); r = it.tmp(st, 0, 'cache', v)
        if op[0] == 'i':
            it, outs = ctx.run(ctx.fn(T + 'insert'), RankQ(exact=True), args=[r, key(op[1]) if bloom else it.tmp(st, 0, 'key', key(op[1])), arg(f'V{op[2]}')], st=st)
            vs = {dv(it, o.st, r) for o in outs}
            if len(vs) != 1: return None, None
            v = vs.pop(); e = v[3][ei]
            sizes.append(len(e[1]) if e[0] == 'a' else None)
        else:
            it, outs = ctx.run(ctx.fn(T + 'get'), RankQ(exact=True), args=[r, it.tmp(st, 0, 'key', key(op[1]))], st=st)
            reads.append(sorted({path(dv(it, o.st, o.v)) for o in outs}))
    return reads, sizes

@rule('S05')
def file_caches(ctx):
    """a cache returns the value last stored under exactly that key or nothing, never exceeds its size (at least 1), keeps what was just stored, and evicts only when full"""
    K = 'file_caches'
    for kind in ('bloom', 'metadata'):
        keys = [(0, 0, 0), (0, 0, 1), (0, 1, 0), (1, 0, 0)] if kind == 'bloom' else [(i, 0, 0) for i in range(4)]
        f = ctx.fn((BL + 'BloomFilterCache::' if kind == 'bloom' else MD + 'ParquetMetadataCache::') + 'insert')
        seqs = [s for n in (1, 2, 3) for s in itertools.product(range(3), repeat=n)] + [(0, 1, 2, 3), (0, 1, 0, 2, 3), (0, 1, 2, 0, 3), (3, 2, 1, 0, 3, 2), (0, 0, 1, 1, 2, 2, 3, 3)]
        for cap in (0, 1, 2, 3):
            lim = max(cap, 1)
            for s in seqs:
                ops = [('i', keys[k], i) for i, k in enumerate(s)] + [('g', k) for k in keys]
                reads, sizes = cache_run(ctx, kind, cap, ops)
                bad = None
                if reads is None: bad = 'has no single outcome'
                elif any(n is None or n > lim for n in sizes): bad = f'holds {sizes} entries'
                else:
                    last = {k: i for i, k in enumerate(s)}
                    for k, r in enumerate(reads):
                        full = len(set(s)) > lim
                        allowed = ({f'Option#1{{V{last[k]}}}'} if k in last else set()) | ({'Option#0'} if k not in last or full and k != s[-1] else set())
                        if not set(r) <= allowed: bad = f'returns {r} for key {keys[k]}'
                ctx.ob(K, f'{kind} {cap} {s}', not bad, f'a {kind} cache of size {cap} after storing {[keys[k] for k in s]} {bad}', ctx.loc(f))

@rule('S05')
def range_reads(ctx):
    """reading several ranges of a file returns exactly the bytes of each, in the order asked, however they overlap or are merged into larger reads; a failing read is an error"""
    K = 'range_reads'
    f = ctx.impl('AsyncFileReader', 'BatchedAsyncReader', 'get_byte_ranges')
    RD = ctx.adt('bloom::BatchedAsyncReader')
    G = 64 * 1024
    RANGE = 'core::ops::range::Range'
    def rg(a, b): return ('e', RANGE, 0, (('c', a), ('c', b)))
    def run(ranges, gap, fail=None):
        def get(it, st, c):
            r = dv(it, st, c.args[1])
            return [(st, mk(('call', 'GETBYTES', (r,))))]
        def aw(it, st, n, a, site, t):
            k = st.g('k', 0); st.setg('k', k + 1)
            r = dv(it, st, a[0])
            if fail == k: return [(st, err(arg('RDERR')))]
            if r[0] != 'e' or any(x[0] != 'c' for x in r[3]): return [(st, ok(arg('UNKNOWN')))]
            return [(st, ok(('e', 'BYTES', 0, r[3])))]
        def slc(it, st, c):
            b, r = dv(it, st, c.args[0]), dv(it, st, c.args[1])
            if b[0] != 'e' or b[1] != 'BYTES' or r[0] != 'e': return None
            lo, hi = b[3][0][1], b[3][1][1]
            nm = r[1].rsplit('::', 1)[-1]
            x = [y[1] if y[0] == 'c' else None for y in r[3]]
            a, z = (x[0], x[1]) if nm == 'Range' else (x[0], hi - lo) if nm == 'RangeFrom' else (0, x[0]) if nm == 'RangeTo' else (None, None)
            if a is None or z is None: return None
            if not (a <= z <= hi - lo): st.setg('panic', 1); return [(st, arg('PANIC'))]
            return [(st, ('e', 'BYTES', 0, (('c', lo + a), ('c', lo + z))))]
        st = State(); it = Interp(ctx.F, CQ(exact=True))
        r = it.tmp(st, 0, 'rd', struct(ctx, RD, inner=arg('INNER'), coalesce_gap_bytes=('c', gap)))
        q = RankQ(exact=True, calls=[(r'AsyncFileReader.*::get_bytes$|AsyncFileReader::get_bytes$', get), (r'Bytes::slice$', slc), (r'::boxed$|::boxed_local$', lambda it, st, c: [(st, c.args[0])])], awaits=[(r'^GETBYTES$', aw)])
        it, outs = ctx.run(f, q, args=[r, ('a', tuple(rg(a, b) for a, b in ranges))], st=st)
        res = []
        for o in outs:
            v = dv(it, o.st, o.v)
            if o.st.g('panic'): res.append('panic'); continue
            if v[0] == 'e' and v[2] == 0 and v[3][0][0] == 'a': res.append([(x[3][0][1], x[3][1][1]) if x[0] == 'e' and x[1] == 'BYTES' else path(x) for x in v[3][0][1]])
            else: res.append('error' if v[0] == 'e' and v[2] == 1 else path(v)[:80])
        return res
    base = [(0, 10), (10, 20), (5, 15), (3, 4), (100, 100), (21, 30), (4, 40), (200, 260)]
    cases = [()] + [(r,) for r in base] + list(itertools.permutations(base, 2)) + list(itertools.permutations(base[:6], 3)) + [(base[0], base[0]), (base[7], base[6], base[2], base[0], base[3])]
    for gap in (0, 1, 5, 1000):
        for c in cases if gap in (0, 5) else cases[:30]:
            got = run(c, gap)
            ctx.ob(K, f'{c} gap {gap}', got == [list(c)], f'ranges {c} (gap {gap}) are read as {got[:1]}', ctx.loc(f))
    for c in cases[20:24] + cases[-1:]:
        for k in (0,):
            got = run(c, 0, fail=k)
            ctx.ob(K, f'{c} failing', got and all(x == 'error' for x in got), f'a failing read of {c} gives {got[:1]}', ctx.loc(f))
    got = run(((0, 10), (500, 510)), 0, fail=1)
    ctx.ob(K, 'second failing', got == ['error'], f'the second read failing gives {got[:1]}', ctx.loc(f))

@rule('S05')
def page_indexes(ctx):
    """a file is accepted exactly when both page indexes are there and complete: one entry per row group and column (an empty file needs none)"""
    K = 'page_indexes'
    f = ctx.fn(SS + 'validate_page_indexes')
    def run(groups, ci, oi):
        o = lambda x: NONE if x is None else some(arg(x))
        st = State(); it = Interp(ctx.F, CQ(exact=True))
        def lst(tag, l): return NONE if l is None else some(it.tmp(st, 0, tag, ('a', tuple(('a', tuple(arg(f'{tag}{i}_{j}') for j in range(n))) for i, n in enumerate(l)))))
        C = [(r'ParquetMetaData::num_row_groups$', lambda it, st, c: [(st, ('c', len(groups)))]), (r'ParquetMetaData::column_index$', lambda it, st, c: [(st, civ)]), (r'ParquetMetaData::offset_index$', lambda it, st, c: [(st, oiv)]),
             (r'ParquetMetaData::row_groups$', lambda it, st, c: [(st, it.tmp(st, 0, 'rgs', ('a', tuple(arg(f'RG{i}') for i in range(len(groups))))))]),
             (r'ParquetMetaData::row_group$', lambda it, st, c: [(st, it.tmp(st, 0, ('rg', c.args[1][1]), arg(f'RG{c.args[1][1]}')))] if c.args[1][0] == 'c' else None),
             (r'RowGroupMetaData::num_columns$', lambda it, st, c: [(st, ('c', groups[int(path(dv(it, st, c.args[0]))[2:])]))])]
        civ, oiv = lst('CI', ci), lst('OI', oi)
        it, outs = ctx.run(f, CQ(exact=True, calls=C), args=[it.tmp(st, 0, 'p', arg('PATH')), it.tmp(st, 0, 'm', arg('META'))], st=st)
        return sorted(k for k, v in results(it, outs).items() if v)
    opts_ = [None, [], [1], [2], [2, 2], [2, 1], [1, 2], [2, 2, 2]]
    for groups in ([], [1], [2], [2, 2], [2, 1]):
        for ci in opts_:
            for oi in opts_:
                want = (not ci and not oi) if not groups else ci == groups and oi == groups
                got = run(groups, ci, oi)
                ctx.ob(K, f'{groups} {ci} {oi}', got == (['Ok'] if want else ['Err']), f'a file with row groups of {groups} columns, column index {ci}, offset index {oi}: {got}', ctx.loc(f))

@rule('S05')
def table_config(ctx):
    """a table configuration holds exactly what it was given (limits at least 1), and every setter changes its own value only"""
    K = 'table_config'
    SCF = ctx.adt('sstable::SsTableConfig'); names = [f[0] for f in ctx.F.adts[SCF]['v'][0]['f']]
    T = SS + 'SsTableConfig::'
    it, outs = ctx.run(ctx.fn(T + 'new'), CQ(exact=True), args=[arg('SCHEMA'), arg('FS'), arg('ROOT')])
    v = dv(it, outs[0].st, outs[0].v); got = {n: path(x) for n, x in zip(names, v[3])}
    ctx.ob(K, 'new', got['schema'] == 'SCHEMA' and got['fs'] == 'FS' and got['root'] == 'ROOT' and got['target_level'] == '0' and got['key_extractor'] == 'Option#0' and int(got['max_row_group_rows']) >= 1 and int(got['merge_iteration_budget']) >= 1, f'a new configuration is {got}', ctx.loc(ctx.fn(T + 'new')))
    full = ('e', SCF, 0, tuple(arg('S_' + n) for n in names))
    for fn, a, field, want in (('with_target_level', ('c', 9), 'target_level', '9'), ('with_target_level', ('c', 0), 'target_level', '0'), ('with_compression', arg('ZZ'), 'compression', 'ZZ'), ('with_key_extractor', arg('EX'), 'key_extractor', 'Option#1{EX}'),
                               ('with_merge_iteration_budget', ('c', 0), 'merge_iteration_budget', '1'), ('with_merge_iteration_budget', ('c', 12), 'merge_iteration_budget', '12'), ('with_max_row_group_rows', ('c', 0), 'max_row_group_rows', '1'), ('with_max_row_group_rows', ('c', 77), 'max_row_group_rows', '77')):
        it, outs = ctx.run(ctx.fn(T + fn), CQ(exact=True), args=[full, a])
        g = [{n: path(x) for n, x in zip(names, dv(it, o.st, o.v)[3])} for o in outs]
        w = {n: 'S_' + n for n in names}; w[field] = want
        ctx.ob(K, f'{fn} {path(a)}', g == [w], f'{fn}({path(a)}) gives {[{n: x[n] for n in x if x[n] != w[n]} for x in g]}', ctx.loc(ctx.fn(T + fn)))
    for fn in ('schema', 'target_level', 'compression', 'fs', 'root', 'merge_iteration_budget', 'max_row_group_rows'):
        st = State(); r = Interp(ctx.F, CQ(exact=True)).tmp(st, 0, 'cfg', full)
        it, outs = ctx.run(ctx.fn(T + fn), CQ(exact=True), args=[r], st=st)
        g = [path(dv(it, o.st, o.v)) for o in outs]
        ctx.ob(K, f'get {fn}', g == ['S_' + fn], f'{fn}() gives {g}', ctx.loc(ctx.fn(T + fn)))

def provider(ctx, cached, fail=None, rows=2):
    """a bloom filter provider over a file with two row groups of two columns; cached: keys already in the cache. Column (g, c) has its filter at 1000*(g+1)+100*c, 32 bytes; (1, 1) has none"""
    PV = ctx.adt('bloom::SstBloomFilterProvider'); BK = ctx.adt('bloom::BloomCacheKey')
    def gc(p): m = re.fullmatch(r'COL(\d)_(\d)', p); return (int(m.group(1)), int(m.group(2))) if m else None
    def rgf(it, st, c):
        i = dv(it, st, c.args[1]); return [(st, it.tmp(st, 0, ('rgx', i), arg(f'RG{i[1]}')))] if i[0] == 'c' else None
    def colf(it, st, c):
        g, i = path(dv(it, st, c.args[0])), dv(it, st, c.args[1])
        return [(st, it.tmp(st, 0, ('colx', g, i), arg(f'COL{g[2:]}_{i[1]}')))] if i[0] == 'c' else None
    def off(it, st, c):
        k = gc(path(dv(it, st, c.args[0]))); return [(st, NONE if k == (1, 1) else some(('c', 1000 * (k[0] + 1) + 100 * k[1])))]
    def ln(it, st, c):
        k = gc(path(dv(it, st, c.args[0]))); return [(st, NONE if k == (1, 1) else some(('c', 32)))]
    def rng(r): return f'B{r[3][0][1]}_{r[3][1][1]}' if r[0] == 'e' and r[3][0][0] == 'c' and r[3][1][0] == 'c' else 'B?'
    def get(it, st, c): return [(st, mk(('call', 'GETBYTES', (dv(it, st, c.args[1]),))))]
    def gets(it, st, c): return [(st, mk(('call', 'GETRANGES', (dv(it, st, c.args[1]),))))]
    def aw(it, st, n, a, site, t): return [(st, err(arg('RDERR')) if fail == 'read' else ok(arg(rng(dv(it, st, a[0])))))]
    def aws(it, st, n, a, site, t):
        l = dv(it, st, a[0])
        return [(st, err(arg('RDERR')) if fail == 'read' else ok(('a', tuple(arg(rng(r)) for r in l[1]))))]
    def parse(it, st, c):
        b = path(dv(it, st, c.args[0])); return [(st, err(arg('PARSE')) if fail == b else ok(arg('F_' + b)))]
    def ckey(v): v = v; return tuple(path(x) for x in v[3]) if v[0] == 'e' else None
    names = [f[0] for f in ctx.F.adts[BK]['v'][0]['f']]
    def norm(v): d = dict(zip(names, v[3])); return (path(d['path']), path(d['row_group']), path(d['column']))
    def look(it, st, c):
        k = norm(dv(it, st, c.args[1])); d = st.g('cache', ())
        for kk, x in d:
            if kk == k: return [(st, some(arg(x)))]
        return [(st, NONE)]
    def ins(it, st, c):
        k = norm(dv(it, st, c.args[1])); st.setg('cache', tuple(x for x in st.g('cache', ()) if x[0] != k) + ((k, path(dv(it, st, c.args[2]))),)); return [(st, UNIT)]
    st = State(); st.setg('cache', tuple((('W1', str(g), str(c)), f'CACHED{g}_{c}') for g, c in cached) + ((('W2', '0', '0'), 'OTHER'), (('W2', '1', '0'), 'OTHER')))
    it = Interp(ctx.F, CQ(exact=True))
    r = it.tmp(st, 0, 'pv', struct(ctx, PV, path=arg('W1'), metadata=arg('META'), reader=arg('READER'), cache=arg('CACHE')))
    C = [(r'ParquetMetaData::row_group$', rgf), (r'RowGroupMetaData::column$', colf), (r'bloom_filter_offset$', off), (r'bloom_filter_length$', ln), (r'AsyncFileReader.*::get_bytes$', get), (r'AsyncFileReader.*::get_byte_ranges$', gets), (r'Sbbf::from_bytes$', parse),
         (r'BloomFilterCache::get$', look), (r'BloomFilterCache::insert$', ins), (r'Mutex::lock$', lambda it, st, c: [(st, mk(('call', 'LOCK', ())))]), (r'AsRef.*::as_ref$|Deref.*::deref$', lambda it, st, c: [(st, c.args[0])] if path(dv(it, st, c.args[0])).startswith('B') else None)]
    q = lambda: RankQ(exact=True, calls=C, awaits=[(r'^GETBYTES$', aw), (r'^GETRANGES$', aws), (r'^LOCK$', lambda it, st, n, a, site, t: [(st, it.tmp(st, 0, 'guard', arg('GUARD')))])])
    return st, r, q, it

def file_of(g, c): return f'F_B{1000 * (g + 1) + 100 * c}_{1000 * (g + 1) + 100 * c + 32}'

@rule('S05')
def filter_lookup(ctx):
    """the filter for a row group and column is the cached one of exactly that file, row group and column, or the one parsed from exactly its bytes, which is then cached; no filter when there is none or it cannot be read"""
    K = 'filter_lookup'
    f = ctx.impl('AsyncBloomFilterProvider', 'SstBloomFilterProvider', 'bloom_filter')
    fb = ctx.impl('AsyncBloomFilterProvider', 'SstBloomFilterProvider', 'bloom_filters_batch')
    pos = [(0, 0), (0, 1), (1, 0), (1, 1)]
    for cached in ((), ((0, 1),), ((1, 0), (0, 0))):
        for fail in (None, 'read', 'B1000_1032', 'B2000_2032'):
            def want(g, c):
                if (g, c) in cached: return f'CACHED{g}_{c}'
                if (g, c) == (1, 1) or fail == 'read' or fail == file_of(g, c)[2:]: return None
                return file_of(g, c)
            for g, c in pos:
                st, r, q, it = provider(ctx, cached, fail)
                it, outs = ctx.run(f, q(), args=[r, ('c', g), ('c', c)], st=st)
                got = [path(dv(it, o.st, o.v)) for o in outs]
                w = want(g, c)
                cc = [dict(o.st.g('cache')).get(('W1', str(g), str(c))) for o in outs]
                ctx.ob(K, f'{g},{c} cached {cached} fail {fail}', got == ['Option#0' if w is None else f'Option#1{{{w}}}'] and cc == [w], f'the filter of row group {g}, column {c} (cached: {cached}, failing: {fail}) is {got}, cached as {cc}', ctx.loc(f))
            for req in [(), ((0, 0),), ((0, 0), (1, 0)), ((1, 1), (0, 1), (1, 0)), tuple(pos), tuple(reversed(pos))]:
                st, r, q, it = provider(ctx, cached, fail)
                it, outs = ctx.run(fb, q(), args=[r, it.tmp(st, 0, 'rq', ('a', tuple(('t', (('c', g), ('c', c))) for g, c in req)))], st=st)
                got = []
                for o in outs:
                    v = dv(it, o.st, o.v)
                    got.append({tuple(x[1] for x in e[1][0][1]): path(e[1][1]) for e in v[1]} if v[0] == 'a' else path(v)[:80])
                w = {k: want(*k) for k in req if want(*k)}
                ctx.ob(K, f'{req} cached {cached} fail {fail}', got == [w], f'the filters {req} (cached: {cached}, failing: {fail}) are {got[:1]}, expected {w}', ctx.loc(fb))
filter_lookup.whole = True

@rule('S05')
def filter_range(ctx):
    """the bytes of a filter are exactly those the file metadata names for that row group and column; its cache key names exactly file, row group and column"""
    K = 'filter_range'
    f, fk = ctx.fn(BL + 'SstBloomFilterProvider::<E>::bloom_range'), ctx.fn(BL + 'SstBloomFilterProvider::<E>::cache_key')
    BK = ctx.adt('bloom::BloomCacheKey'); names = [x[0] for x in ctx.F.adts[BK]['v'][0]['f']]
    for g in (0, 1):
        for c in (0, 1):
            st, r, q, it = provider(ctx, ())
            it, outs = ctx.run(f, q(), args=[r, ('c', g), ('c', c)], st=st)
            got = [path(dv(it, o.st, o.v)) for o in outs]
            b = 1000 * (g + 1) + 100 * c
            ctx.ob(K, f'range {g},{c}', got == ['Option#0' if (g, c) == (1, 1) else f'Option#1{{Range#0{{{b},{b + 32}}}}}'], f'the filter of row group {g}, column {c} is read from {got}', ctx.loc(f))
            st, r, q, it = provider(ctx, ())
            it, outs = ctx.run(fk, q(), args=[r, ('c', g), ('c', c)], st=st)
            got = [{n: path(x) for n, x in zip(names, dv(it, o.st, o.v)[3])} for o in outs]
            ctx.ob(K, f'key {g},{c}', got == [{'path': 'W1', 'row_group': str(g), 'column': str(c)}], f'the cache key of row group {g}, column {c} is {got}', ctx.loc(fk))
