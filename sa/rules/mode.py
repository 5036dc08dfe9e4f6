"""Opening a table: which columns become the key, the delete schema, and the definition recorded in the catalog."""
import itertools, re
from core import *
from rules.inmem import struct, results

MC = 'crate::mode::dyn_config::<impl mode::DynModeConfig>::'
def cfg_run(ctx, fn, names, marks=None, meta=None, args=(), validate=True):
    """run a constructor on a schema with the named columns; returns results, the projections asked for"""
    seen = []
    def fields(it, st, c): return [(st, it.tmp(st, c.frame, ('f', 0), ('a', tuple(arg(f'F{i}') for i in range(len(names))))))]
    def fi(it, st, v): return int(re.search(r'F(\d+)', path(it.deepval(st, v)))[1])
    def nm(it, st, c): i = fi(it, st, c.args[0]); return [(st, it.tmp(st, c.frame, ('n', i), ('s', names[i])))]
    def md(d): return ('a', tuple(sorted((('t', (('s', k), ('s', v))) for k, v in d.items()))))
    def fm(it, st, c): i = fi(it, st, c.args[0]); return [(st, it.tmp(st, c.frame, ('md', i), md((marks or {}).get(i, {}))))]
    def sm(it, st, c): return [(st, it.tmp(st, c.frame, ('smd', 0), md(meta or {})))]
    def fld(it, st, c):
        i = it.deepval(st, c.args[1])
        return [(st, it.tmp(st, c.frame, ('fl', i), arg(f'F{i[1]}')))] if i[0] == 'c' and i[1] < len(names) else []
    def idx(it, st, c):
        n = it.deepval(st, c.args[1])
        if n[0] != 's': return None
        return [(st, ok(('c', names.index(n[1]))) if n[1] in names else err(arg('E')))]
    def find(it, st, c):
        n = it.deepval(st, c.args[1])
        if n[0] != 's': return None
        if n[1] not in names: return [(st, NONE)]
        i = names.index(n[1]); return [(st, some(('t', (('c', i), it.tmp(st, c.frame, ('fl', i), arg(f'F{i}'))))))]
    def proj(it, st, c):
        s = it.deepval(st, c.args[0]); k = it.deepval(st, c.args[1])
        if k[0] == 'c': k = ('a', (k,))
        s2 = st.copy(); s2.setg('w', 'projection')
        return [(st, ok(('e', 'Proj', 0, (s, k)))), (s2, err(arg('EP')))]
    def new(it, st, c):
        s2 = st.copy(); s2.setg('w', 'config')
        return [(st, ok(('e', 'Cfg', 0, tuple(it.deepval(st, a) for a in c.args)))), (s2, err(arg('EC')))]
    H = [(r'schema::Schema::fields$', fields), (r'schema::Schema::field$', fld), (r'schema::Schema::index_of$', idx), (r'fields::Fields::find$|Schema::column_with_name$', find), (r'field::Field::name$', nm), (r'field::Field::metadata$', fm), (r'schema::Schema::metadata$', sm),
         (r'projection_for_(field|columns)$', proj), (r'mode::DynModeConfig::new$', new), (r'fmt::format$|ToString::to_string$', lambda it, st, c: [(st, v)] if (v := it.deepval(st, c.args[0]))[0] == 's' else [(st, arg('TXT'))])]
    it, outs = ctx.run(ctx.fn(fn), CQ(exact=True, calls=H), args=[arg('SCHEMA')] + list(args))
    got = set()
    for o in outs:
        for s, vi, w in it.split(o.st, o.v, RESULT):
            w = it.deepval(s, w)
            if s.g('w'): got.add('err' if vi else f'swallowed {s.g("w")} failure'); continue
            if vi: got.add('refused'); continue
            x = w[3][0]
            if x[0] == 'e' and x[1] == 'Cfg' and x[3][1][0] == 'e' and x[3][1][1] == 'Proj' and path(x[3][0]) == 'SCHEMA' == path(x[3][1][3][0]): got.add('key ' + path(x[3][1][3][1]))
            else: got.add('config ' + path(w)[:100])
    return got - {'err'}

@rule('K05')
def key_by_name(ctx):
    """choosing the key by column name or index selects exactly that column, and refuses a name or index that is not there"""
    K = 'key_by_name'
    for cols in (['id'], ['a', 'id', 'x'], ['idx', 'id2', 'id', 'ID', 'i']):
        for n in ['id', 'i', 'ID', 'idx', 'd', '', 'a']:
            got = cfg_run(ctx, MC + 'from_key_name', cols, args=[('s', n)])
            want = {f'key [{cols.index(n)}]'} if n in cols else {'refused'}
            ctx.ob(K, f'{n} of {cols}', got == want, f'key {n!r} of columns {cols}: {sorted(got)}, expected {sorted(want)}', ctx.loc(ctx.fn(MC + 'from_key_name')))
        for i in range(len(cols) + 3):
            got = cfg_run(ctx, MC + 'from_key_col', cols, args=[('c', i)])
            want = {f'key [{i}]'} if i < len(cols) else {'refused'}
            ctx.ob(K, f'#{i} of {len(cols)}', got == want, f'key column {i} of {len(cols)}: {sorted(got)}, expected {sorted(want)}', ctx.loc(ctx.fn(MC + 'from_key_col')))

@rule('K05')
def key_by_metadata(ctx):
    """the key declared in the schema: numbered field markers in number order, one field marker alone, else the schema's list in list order; anything ambiguous or unknown is refused"""
    K = 'key_by_metadata'
    COLS = ['a', 'b', 'c', 'd']
    def ck(name, want, marks=None, meta=None, cols=COLS):
        for entry in ('from_metadata', 'from_schema'):
            got = cfg_run(ctx, MC + entry, cols, marks={i: {'tonbo.key': v} if isinstance(v, str) else v for i, v in (marks or {}).items()}, meta=meta)
            ctx.ob(K, f'{entry} {name}', got == {want}, f'{name}: {sorted(got)}, expected {want}', ctx.loc(ctx.fn(MC + 'from_metadata')))
    # every way to number one, two or three of four columns
    for n in (1, 2, 3):
        for cs in itertools.permutations(range(4), n):
            ck(f'ordinals {cs}', f'key [{",".join(map(str, cs))}]', marks={x: str(i) for i, x in enumerate(cs)})
    ck('all four', 'key [3,1,0,2]', marks={3: '0', 1: '1', 0: '2', 2: '3'})
    for o in (('10', '9'), ('2', '100'), ('7', '3'), ('4294967295', '0'), ('256', '1'), ('65537', '2')):
        w = [i for _, i in sorted((int(x), i) for i, x in enumerate(o))]
        ck(f'numbers {o}', f'key [{w[0]},{w[1]}]', marks={0: o[0], 1: o[1]})
    for i in range(4):
        for v in ('true', 'yes', 'TRUE', 'True', '0', '1', '5', ' 3 ', ' true '): ck(f'single {i} {v!r}', f'key [{i}]', marks={i: v})
    for v in ('false', 'no', ''): ck(f'unmarked {v!r}', 'refused', marks={1: v})
    ck('marked and unmarked', 'key [2]', marks={1: 'false', 2: 'true'})
    for m in ({0: 'true', 1: 'true'}, {0: 'true', 1: '1'}, {1: '0', 2: 'yes'}, {0: '0', 1: '1', 3: 'true'}): ck(f'ambiguous {m}', 'refused', marks=m)
    ck('other metadata', 'refused', marks={0: {'tonbo.keys': '1'}, 1: {'key': 'true'}}, meta={'tonbo.key': 'a'})
    ck('nothing', 'refused')
    # the schema's list
    for n in 'abcd': ck(f'list {n}', f'key [{COLS.index(n)}]', meta={'tonbo.keys': n})
    for n in (1, 2, 3):
        for cs in itertools.permutations('abcd', n): ck(f'list {cs}', f'key [{",".join(str(COLS.index(x)) for x in cs)}]', meta={'tonbo.keys': '[' + ','.join(f'"{x}"' for x in cs) + ']'})
    ck('spaces', 'key [2,0]', meta={'tonbo.keys': ' [ "c" , "a" ] '})
    ck('bare', 'key [2,0]', meta={'tonbo.keys': '[c,a]'})
    ck('quoted', 'key [1]', meta={'tonbo.keys': '"b"'})
    for t in ('["a","zz"]', '["zz","a"]', 'zz', '[]', '["zz"]', 'ab'): ck(f'unknown {t}', 'refused', meta={'tonbo.keys': t})
    ck('prefixes', 'key [3,0]', meta={'tonbo.keys': '["i","id2"]'}, cols=['id2', 'id', 'ID', 'i'])
    # field markers win over the list
    ck('both', 'key [3]', marks={3: 'true'}, meta={'tonbo.keys': '["a","b"]'})
    ck('both numbered', 'key [2,1]', marks={1: '2', 2: '1'}, meta={'tonbo.keys': 'a'})

@rule('K05', 'K03', 'I02')
def config_build(ctx):
    """a configuration is only made for a schema its extractor accepts; it carries that schema and extractor, and deletes are recorded under the key columns followed by a non-null u64 commit column"""
    K = 'config_build'
    new, b = ctx.fn('crate::mode::DynModeConfig::new'), ctx.fn('crate::mode::DynModeConfig::build')
    def run(fn, args, nkey=2):
        seen = []
        def val(it, st, c):
            st.setg('v', st.g('v', ()) + (path(it.deepval(st, c.args[0])) + ':' + path(it.deepval(st, c.args[1])),))
            s2 = st.copy(); s2.setg('w', 'validation'); return [(st, ok(UNIT)), (s2, err(arg('E')))]
        def fields(it, st, c):
            v = it.deepval(st, c.args[0])
            if v[0] == 'e' and v[1] == 'Schema': return [(st, it.tmp(st, c.frame, ('f', c.bb), v[3][0]))]
            if path(v) == 'SCHEMA': return [(st, it.tmp(st, c.frame, ('fs', c.bb), ('a', tuple(arg(f'S{i}') for i in range(4)))))]
            if path(v) != 'KS': return None
            return [(st, it.tmp(st, c.frame, ('f', c.bb), ('a', tuple(arg(f'F{i}') for i in range(nkey)))))]
        def proj(it, st, c):
            s2 = st.copy(); s2.setg('w', 'projection')
            return [(st, ok(('e', 'Proj', 0, (it.deepval(st, c.args[0]), it.deepval(st, c.args[1]))))), (s2, err(arg('EP')))]
        def mem(it, st, c): return [(st, ('e', 'Mem', 0, tuple(it.deepval(st, a) for a in c.args)))]
        H = [(r'KeyProjection::validate_schema$|as .*KeyProjection>::validate_schema$', val), (r'KeyProjection::key_schema$', lambda it, st, c: [(st, arg('KS'))]), (r'schema::Schema::fields$', fields),
             (r'field::Field::new$', lambda it, st, c: [(st, ('e', 'Field', 0, tuple(it.deepval(st, a) for a in c.args)))]), (r'schema::Schema::new$', lambda it, st, c: [(st, ('e', 'Schema', 0, (it.deepval(st, c.args[0]),)))]),
             (r'projection_for_columns$', proj), (r'DynMem::new$', mem), (r'CommitAckMode as core::default::Default>::default$', lambda it, st, c: [(st, arg('ACK0'))])]
        it, outs = ctx.run(fn, CQ(exact=True, calls=H), args=args)
        okv, bad = [], []
        for o in outs:
            for s, vi, w in it.split(o.st, o.v, RESULT):
                if s.g('w') and not vi: bad.append(s.g('w'))
                if not vi: okv.append((s.g('v', ()), it.deepval(s, w)[3][0]))
                elif not s.g('w'): bad.append('refused for no reason')
        return okv, bad
    okv, bad = run(new, [arg('SCHEMA'), arg('EX')])
    ad = ctx.adt('mode::DynModeConfig'); fs = [f[0] for f in ctx.F.adts[ad]['v'][0]['f']]
    ctx.ob(K, 'new:failure', not bad and okv, f'a failing {bad[:1]} still gives a configuration', ctx.loc(new))
    for v, x in okv:
        d = {f: path(y) for f, y in zip(fs, x[3])} if x[0] == 'e' else {}
        ctx.ob(K, 'new:content', d.get('schema') == 'SCHEMA' and d.get('extractor') == 'EX' and d.get('commit_ack_mode') == 'ACK0', f'new configuration {d}', ctx.loc(new))
        ctx.ob(K, 'new:validated', 'EX:SCHEMA' in v, 'a configuration is made without asking the extractor about the schema', ctx.loc(new))
    for n in (1, 2, 3):
        okv, bad = run(b, [struct(ctx, ad, schema=arg('SCHEMA'), extractor=arg('EX'), commit_ack_mode=arg('ACK'))], n)
        ctx.ob(K, f'build:{n}:failure', not bad and okv, f'a failing {bad[:1]} still gives a table', ctx.loc(b))
        for v, x in okv:
            ctx.ob(K, f'build:{n}:validated', 'EX:SCHEMA' in v, 'a table is built without asking the extractor about the schema', ctx.loc(b))
            e = x[1] if x[0] == 't' else ()
            ds = e[1] if len(e) > 1 else arg('none')
            fl = ds[3][0][1] if ds[0] == 'e' and ds[1] == 'Schema' and ds[3][0][0] == 'a' else ()
            keys = [path(f) for f in fl[:n]] == [f'F{i}' for i in range(n)]
            cc = fl[n][3] if len(fl) == n + 1 and fl[n][0] == 'e' and fl[n][1] == 'Field' else ()
            ctx.ob(K, f'build:{n}:delete-schema', len(fl) == n + 1 and keys and len(cc) == 3 and cc[0] == ('s', '_commit_ts') and cc[2] == FALSE and 'UInt64' in vname(ctx, cc[1]), f'delete schema of {n} key columns: {[path(f)[:60] for f in fl]}', ctx.loc(b))
            m = e[3] if len(e) > 3 else arg('none')
            mv = m[3] if m[0] == 'e' and m[1] == 'Mem' else ()
            dp = mv[2] if len(mv) > 2 else arg('none')
            ctx.ob(K, f'build:{n}:memtable', path(e[0]) == 'SCHEMA' and path(e[2]) == 'ACK' and len(mv) == 3 and path(mv[0]) == 'SCHEMA' and path(mv[1]) == 'EX' and dp[0] == 'e' and dp[1] == 'Proj' and dp[3][0] == ds and path(dp[3][1]) == f'[{",".join(map(str, range(n)))}]', f'table parts {[path(x)[:80] for x in e]}', ctx.loc(b))
    w = ctx.fn('crate::mode::DynModeConfig::with_commit_ack_mode')
    it, outs = ctx.run(w, CQ(exact=True), args=[struct(ctx, ad, schema=arg('SCHEMA'), extractor=arg('EX'), commit_ack_mode=arg('ACK')), arg('NEW')])
    ctx.ob(K, 'ack-mode', outs and all([path(y) for y in it.deepval(o.st, o.v)[3]] == [{'schema': 'SCHEMA', 'extractor': 'EX', 'commit_ack_mode': 'NEW'}[f] for f in fs] for o in outs), 'choosing an acknowledgement mode changes something else', ctx.loc(w))

def vname(ctx, v):
    if v[0] != 'e': return path(v)
    return ctx.F.adts[v[1]]['v'][v[2]]['n'] if v[1] in ctx.F.adts else v[1]

def jv(ctx, x):
    """a JSON value as the program holds it; objects are written in the order given"""
    V = 'serde_json::value::Value'
    names = [v['n'] for v in ctx.F.adts[V]['v']]
    if x is None: return ('e', V, names.index('Null'), ())
    if isinstance(x, bool): return ('e', V, names.index('Bool'), (TRUE if x else FALSE,))
    if isinstance(x, int): return ('e', V, names.index('Number'), (arg(f'N{x}'),))
    if isinstance(x, str): return ('e', V, names.index('String'), (('s', x),))
    if isinstance(x, list): return ('e', V, names.index('Array'), (('a', tuple(jv(ctx, y) for y in x)),))
    return ('e', V, names.index('Object'), (('a', tuple(('t', (('s', k), jv(ctx, y))) for k, y in x.items())),))

def jsort(v):
    """the maps of serde_json are ordered by key, whatever order their members were put in"""
    if v[0] == 'e' and v[1].endswith('::Value') and len(v[3]) == 1 and v[3][0][0] == 'a':
        el = [jsort(x) if x[0] == 'e' else ('t', (x[1][0], jsort(x[1][1]))) if x[0] == 't' and len(x[1]) == 2 else x for x in v[3][0][1]]
        if el and all(x[0] == 't' for x in el): el.sort(key=lambda x: x[1][0])
        return ('e', v[1], v[2], (('a', tuple(el)),))
    return v

@rule('K05', 'M03')
def schema_fingerprint(ctx):
    """the fingerprint is the digest of the whole schema with object members sorted by name and every list in its own order: equal schemas agree, and nothing of the schema is left out"""
    K = 'schema_fingerprint'
    f, cj = ctx.fn('crate::mode::fingerprint_schema'), ctx.fn('crate::mode::canonicalize_json')
    def srt(x): return {k: srt(x[k]) for k in sorted(x)} if isinstance(x, dict) else [srt(y) for y in x] if isinstance(x, list) else x
    H = [(r'serde_json::map::Map.*::(into_iter|iter)$', lambda it, st, c: [(st, ('it', 'own', it.deepval(st, c.args[0])))])]
    def mins(it, st, c):
        r, k = c.args[0], it.deepval(st, c.args[1])
        v = it.load(st, r[1], r[2]) if r[0] == 'r' else None
        if v is None or v[0] != 'a' or k[0] != 's': return None
        old = [x for x in v[1] if it.deepval(st, x[1][0]) == k]
        it.store(st, r[1], r[2], ('a', tuple(sorted((x for x in v[1] if x not in old), key=lambda x: x[1][0])) + (('t', (k, c.args[2])),)))
        return [(st, some(old[0][1][1]) if old else NONE)]
    H += [(r'serde_json::map::Map.*::(new|with_capacity)$', lambda it, st, c: [(st, ('a', ()))]), (r'serde_json::map::Map.*::insert$', mins),
          (r'ToString::to_string$|ToString>::to_string$', lambda it, st, c: [(st, v if v[0] == 's' else ('s', path(jsort(v))))] if (v := it.deepval(st, c.args[0]))[0] in 'se' else None)]
    S = [{'b': 1, 'a': 2}, {'fields': [{'name': 'z', 'type': 'Int64'}, {'type': 'Utf8', 'name': 'a'}], 'metadata': {}}, ['z', 'a', 'm'], [[3, 1], [2]], 'text', None, True, 7, {}, [],
         {'m': {'d': {'y': 1, 'x': [{'q': 1, 'p': 2}]}, 'c': None}, 'k': [False, True]}, {'a': 'b', 'B': 'a', 'aa': 'c'}]
    for s in S:
        q = CQ(exact=True, calls=H); q.rec = 8
        it, outs = ctx.run(cj, q, args=[jv(ctx, s)])
        got = {path(jsort(it.deepval(o.st, o.v))) for o in outs}
        ctx.ob(K, f'canonical {str(s)[:50]}', got == {path(jv(ctx, srt(s)))}, f'{s} becomes {sorted(got)[:1]}', ctx.loc(cj))
    upd = []
    def up(it, st, c): st.setg('u', st.g('u', ()) + (path(it.deepval(st, c.args[1])),)); return [(st, UNIT)]
    it, outs = ctx.run(f, CQ(exact=True, calls=[(r'to_value$', lambda it, st, c: [(st, ok(mk(('call', 'val', (it.deepval(st, c.args[0]),)))))]), (r'canonicalize_json$', lambda it, st, c: [(st, mk(('call', 'canon', (it.deepval(st, c.args[0]),))))]),
        (r'ser::to_(vec|string)$', lambda it, st, c: [(st, ok(mk(('call', 'bytes', (it.deepval(st, c.args[0]),)))))]), (r'Digest::update$|Digest>::update$|Update::update$', up), (r'Digest::new$|Digest>::new$', lambda it, st, c: [(st, arg('H'))]),
        (r'Digest::finalize$|Digest>::finalize$', lambda it, st, c: [(st, mk(('call', 'digest', tuple(arg(x) for x in st.g('u', ())))))]), (r'fmt::format$', lambda it, st, c: [(st, it.deepval(st, c.args[0]))])]), args=[arg('SCHEMA')])
    got = {(o.st.g('u', ())) for o in outs}
    ctx.ob(K, 'digest-input', got == {('bytes(canon(val(SCHEMA)))',)}, f'the digest is taken over {sorted(got)[:2]}', ctx.loc(f))
    txt = {path(it.deepval(o.st, o.v)) for o in outs}
    ctx.ob(K, 'digest-shown', txt and all('digest(' in t for t in txt), f'the fingerprint is {sorted(txt)[:1]}', ctx.loc(f))

@rule('K05', 'M03')
def table_definition(ctx):
    """the recorded definition holds the given table name, the schema's fingerprint and the key column names in key order"""
    K = 'table_definition'
    f = ctx.fn('crate::mode::table_definition'); ad = ctx.adt('mode::DynModeConfig')
    for key in ((0,), (2,), (2, 0), (1, 3), (3, 1, 0)):
        def fld(it, st, c): i = it.deepval(st, c.args[1]); return [(st, it.tmp(st, c.frame, ('fl', i), arg(f'F{i[1]}')))] if i[0] == 'c' else None
        def nm(it, st, c): return [(st, it.tmp(st, c.frame, ('n', path(it.deepval(st, c.args[0]))), ('s', 'n' + path(it.deepval(st, c.args[0]))[1:])))]
        def flds(it, st, c): return [(st, it.tmp(st, c.frame, ('fs', 0), ('a', tuple(arg(f'F{i}') for i in range(4)))))]
        def ks(it, st, c): return [(st, it.tmp(st, c.frame, ('ksf', 0), ('a', tuple(arg(f'F{i}') for i in key)))) if path(it.deepval(st, c.args[0])) == 'KS' else flds(it, st, c)[0]]
        H = [(r'KeyProjection::key_indices$', lambda it, st, c: [(st, it.tmp(st, c.frame, ('ki', 0), ('a', tuple(('c', i) for i in key))))]), (r'schema::Schema::field$', fld), (r'schema::Schema::fields$', ks), (r'field::Field::name$', nm),
             (r'KeyProjection::key_schema$', lambda it, st, c: [(st, arg('KS'))]), (r'fingerprint_schema$', lambda it, st, c: [(st, mk(('call', 'fp', (it.deepval(st, c.args[0]),))))]), (r'ToString::to_string$', lambda it, st, c: [(st, it.deepval(st, c.args[0]))])]
        it, outs = ctx.run(f, CQ(exact=True, calls=H), args=[it0(ctx, ad), ('s', 'tbl')])
        TD = ctx.adt('manifest::domain::TableDefinition'); fs = [x[0] for x in ctx.F.adts[TD]['v'][0]['f']]
        got = [{n: path(y).replace("'", '"') for n, y in zip(fs, it.deepval(o.st, o.v)[3])} for o in outs]
        want = {'name': '"tbl"', 'schema_fingerprint': 'fp(SCHEMA)', 'primary_key_columns': '[' + ','.join(f'"n{i}"' for i in key) + ']'}
        ctx.ob(K, f'key {key}', got and all(all(g.get(k) == w for k, w in want.items()) for g in got), f'definition for key columns {key}: {got[:1]}', ctx.loc(f))

def it0(ctx, ad): return struct(ctx, ad, schema=arg('SCHEMA'), extractor=arg('EX'), commit_ack_mode=arg('ACK'))
