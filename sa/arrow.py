"""A small model of arrow: record batches with known columns, so that code handling batches is interpreted case by case.

A batch is (schema, columns), a schema (fields, metadata), a field (name, type, nullable), an array (type, values)."""
from core import *

B_, S_, F_, A_, J_ = 'ARROW_BATCH', 'ARROW_SCHEMA', 'ARROW_FIELD', 'ARROW_ARRAY', 'ARROW_PROJ'
def A(ty, vals): return ('e', A_, 0, (('s', ty), ('a', tuple(vals))))
def FLD(name, ty='Utf8', nullable=False): return ('e', F_, 0, (('s', name), ('s', ty), TRUE if nullable else FALSE))
def S(fields, meta=None): return ('e', S_, 0, (('a', tuple(fields)), meta or arg('META')))
def B(schema, cols): return ('e', B_, 0, (schema, ('a', tuple(cols))))
def PROJ(idx, tag='EX'): return ('e', J_, 0, (arg(tag), ('a', tuple(('c', i) for i in idx))))
def cols(b): return b[3][1][1]
def fields(b): return b[3][0][3][0][1]
def vals(a): return a[3][1][1]
def fname(f): return f[3][0][1]
def nrows(b): return len(vals(cols(b)[0])) if cols(b) else 0
def isb(v, t=B_): return v is not None and v[0] == 'e' and v[1] == t
def col(b, name):
    for f, c in zip(fields(b), cols(b)):
        if fname(f) == name: return c
    return None

# --- the table used by the storage rules: user columns b, v, a with key (a, b); K<n> has cells K<n>a and K<n>b
DATA_FIELDS = [FLD('b'), FLD('v', 'Int64', True), FLD('a')]
KEY_IDX = [2, 0]
TSF = FLD('_commit_ts', 'UInt64')
SEQF = FLD('_sequence', 'UInt64')
USER = S(DATA_FIELDS)
DATA = S(DATA_FIELDS + [TSF])
KEYS = S([DATA_FIELDS[i] for i in KEY_IDX])
DEL = S([DATA_FIELDS[i] for i in KEY_IDX] + [TSF])
def cellk(k, part): return arg(f'K{k}{part}')
def data_batch(rows, ts=True, seq=None):
    """rows: (key, ts, payload)"""
    c = [A('Utf8', [cellk(k, 'b') for k, t, p in rows]), A('Int64', [arg(f'V{p}') for k, t, p in rows]), A('Utf8', [cellk(k, 'a') for k, t, p in rows])]
    f = list(DATA_FIELDS)
    if ts: c.append(A('UInt64', [arg(f'T{t}') for k, t, p in rows])); f.append(TSF)
    if seq is not None: c.append(A('UInt64', [('c', s) for s in seq])); f.append(SEQF)
    return B(S(f), c)
def del_batch(rows, seq=None, ts=True):
    c = [A('Utf8', [cellk(r[0], 'a') for r in rows]), A('Utf8', [cellk(r[0], 'b') for r in rows])]
    f = [DATA_FIELDS[i] for i in KEY_IDX]
    if ts: c.append(A('UInt64', [arg(f'T{r[1]}') for r in rows])); f.append(TSF)
    if seq is not None: c.append(A('UInt64', [('c', s) for s in seq])); f.append(SEQF)
    return B(S(f), c)
def key_of(cells):
    m = [re.fullmatch(r'K(\d+)([ab])', path(c)) for c in cells]
    if len(m) == 2 and all(m) and m[0].group(1) == m[1].group(1) and [x.group(2) for x in m] == ['a', 'b']: return arg('K' + m[0].group(1))
    return arg('BADKEY')
def tnum(v):
    m = re.fullmatch(r'(?:Timestamp#0\{)?T(\d+)(?:\.\w+)*\}?', path(v))
    return int(m.group(1)) if m else path(v)
def read_data(b):
    """rows of a data batch: [(key, ts, payload)], or a text saying what is wrong"""
    if not isb(b): return 'not a batch: ' + path(b)[:80]
    names = [fname(f) for f in fields(b)]
    if names[:3] != ['b', 'v', 'a'] or '_commit_ts' not in names: return f'columns {names}'
    if len({len(vals(c)) for c in cols(b)}) > 1: return 'ragged'
    out = []
    for i in range(nrows(b)):
        k = key_of([vals(cols(b)[j])[i] for j in KEY_IDX]); p = path(vals(cols(b)[1])[i])
        out.append((int(path(k)[1:]) if path(k) != 'BADKEY' else 'mixed key', tnum(vals(col(b, '_commit_ts'))[i]), int(p[1:]) if re.fullmatch(r'V\d+', p) else p))
    return out
def read_del(b):
    if not isb(b): return 'not a batch: ' + path(b)[:80]
    names = [fname(f) for f in fields(b)]
    if names[:2] != ['a', 'b'] or '_commit_ts' not in names: return f'columns {names}'
    out = []
    for i in range(nrows(b)):
        k = key_of([vals(cols(b)[j])[i] for j in (0, 1)])
        out.append((int(path(k)[1:]) if path(k) != 'BADKEY' else 'mixed key', tnum(vals(col(b, '_commit_ts'))[i])))
    return out

def hooks(fail=()):
    """call handlers for arrow; fail: operations that report an error (take, concat, try_new, project)"""
    def dv(it, st, v): return it.deepval(st, it.rd(st, v))
    def on_batch(f):
        def h(it, st, c):
            b = dv(it, st, c.args[0])
            return f(it, st, c, b) if isb(b) else None
        return h
    def refto(it, st, c, v): return it.tmp(st, c.frame, ('arrow', c.bb, v), v)
    def bycname(it, st, c, b):
        n = dv(it, st, c.args[1])
        if n[0] != 's': return None
        x = col(b, n[1])
        return [(st, NONE if x is None else some(refto(it, st, c, x)))]
    def column(it, st, c, b):
        i = dv(it, st, c.args[1])
        return [(st, refto(it, st, c, cols(b)[i[1]]))] if i[0] == 'c' and i[1] < len(cols(b)) else None
    def bslice(it, st, c, b):
        o, n = dv(it, st, c.args[1]), dv(it, st, c.args[2])
        if o[0] != 'c' or n[0] != 'c': return None
        return [(st, B(b[3][0], [A(a[3][0][1], vals(a)[o[1]:o[1] + n[1]]) for a in cols(b)]))]
    def try_new(it, st, c):
        s, cs = dv(it, st, c.args[0]), dv(it, st, c.args[1])
        if not isb(s, S_) or cs[0] != 'a' or not all(isb(x, A_) for x in cs[1]): return None
        good = bool(cs[1]) and len(cs[1]) == len(s[3][0][1]) and len({len(vals(x)) for x in cs[1]}) <= 1 and 'try_new' not in fail
        good = good and all(f[3][1] == a[3][0] and (f[3][2] != FALSE or NONE not in vals(a)) for f, a in zip(s[3][0][1], cs[1]))
        return [(st, ok(B(s, cs[1])) if good else err(arg('ARROWERR')))]
    def new_empty(it, st, c):
        s = dv(it, st, c.args[0])
        return [(st, B(s, [A(f[3][1][1], ()) for f in s[3][0][1]]))] if isb(s, S_) else None
    def concat(it, st, c):
        s, bs = dv(it, st, c.args[0]), dv(it, st, c.args[1])
        if not isb(s, S_) or bs[0] != 'a' or not all(isb(x) for x in bs[1]): return None
        if 'concat' in fail: return [(st, err(arg('ARROWERR')))]
        n = len(s[3][0][1])
        if any(len(cols(b)) != n for b in bs[1]): return [(st, err(arg('ARROWERR')))]
        return [(st, ok(B(s, [A(s[3][0][1][i][3][1][1], [v for b in bs[1] for v in vals(cols(b)[i])]) for i in range(n)])))]
    def take(it, st, c):
        a, ix = dv(it, st, c.args[0]), dv(it, st, c.args[1])
        if not isb(a, A_) or not isb(ix, A_) or not all(v[0] == 'c' for v in vals(ix)): return None
        if 'take' in fail or any(v[1] >= len(vals(a)) for v in vals(ix)): return [(st, err(arg('ARROWERR')))]
        return [(st, ok(A(a[3][0][1], [vals(a)[v[1]] for v in vals(ix)])))]
    def arr(f):
        def h(it, st, c):
            a = dv(it, st, c.args[0])
            return f(it, st, c, a) if isb(a, A_) else None
        return h
    def value(it, st, c, a):
        i = dv(it, st, c.args[1])
        return ([(st, vals(a)[i[1]])] if 0 <= i[1] < len(vals(a)) else []) if i[0] == "c" else None
    def downcast(it, st, c):
        a = dv(it, st, c.args[0])
        if not isb(a, A_): return None
        g = str(it.F.types[c.ga[-1]]) if c.ga and isinstance(c.ga[-1], int) else str(c.ga)
        same = bool(re.search(r'(?<![A-Za-z])' + a[3][0][1] + r'(Type|Array)?(?![A-Za-z0-9])', g)) or a[3][0][1] == 'Utf8' and 'GenericStringType<i32>' in g
        return [(st, some(refto(it, st, c, a)) if same else NONE)]
    def mkarr(it, st, c):
        import exact as X
        v = c.args[0]
        w = it.deepval(st, it.rd(st, v))
        if w[0] == 'a': return [(st, A('UInt64', w[1]))]
        if w[0] == 'coll' and w[1] is None: return [(st, A('UInt64', ()))]
        src = X.into_iter(it, st, v, c)
        if src[0] == 'it' and X.isx(it, st, src):
            return [(s, A('UInt64', [it.deepval(s, e) for e in els])) for s, els in X.xall(it, st, src, c)]
        return None
    def frm(it, st, c):
        if 'Array' not in c.fn + str([it.F.types[g] if isinstance(g, int) else g for g in (c.ga or ())]): return None
        return mkarr(it, st, c)
    def fields_(it, st, c):
        s = dv(it, st, c.args[0])
        return [(st, refto(it, st, c, s[3][0]))] if isb(s, S_) else None
    def meta(it, st, c):
        s = dv(it, st, c.args[0])
        return [(st, refto(it, st, c, s[3][1]))] if isb(s, S_) else None
    def snew(it, st, c):
        f = dv(it, st, c.args[0])
        if f[0] == 'coll' and f[1] is None: f = ('a', ())
        if f[0] != 'a' or not all(isb(x, F_) for x in f[1]): return None
        return [(st, S(f[1], dv(it, st, c.args[1]) if len(c.args) > 1 else arg('NOMETA')))]
    def fnew(it, st, c):
        n, t, nu = (dv(it, st, a) for a in c.args)
        t = ('s', t[3] and path(t) or it.F.adts[t[1]]['v'][t[2]]['n']) if t[0] == 'e' and t[1] in it.F.adts else t
        return [(st, ('e', F_, 0, (n, t if t[0] == 's' else ('s', 'UInt64'), nu)))]
    def fattr(i):
        def h(it, st, c):
            f = dv(it, st, c.args[0])
            return [(st, refto(it, st, c, f[3][i]))] if isb(f, F_) else None
        return h
    def fwn(it, st, c):
        s, n = dv(it, st, c.args[0]), dv(it, st, c.args[1])
        if not isb(s, S_) or n[0] != 's': return None
        m = [f for f in s[3][0][1] if fname(f) == n[1]]
        return [(st, ok(refto(it, st, c, m[0])) if m else err(arg('NOFIELD')))]
    def sfield(it, st, c):
        s, i = dv(it, st, c.args[0]), dv(it, st, c.args[1])
        return [(st, refto(it, st, c, s[3][0][1][i[1]]))] if isb(s, S_) and i[0] == 'c' and i[1] < len(s[3][0][1]) else None
    def project(it, st, c):
        st.setg('ptick', st.g('ptick', 0) + 1)     # keeps the iterations of a loop over rows apart
        p, b, rows = dv(it, st, c.args[0]), dv(it, st, c.args[1]), dv(it, st, c.args[2])
        if not isb(b) or rows[0] != 'a' and not (rows[0] == 'coll' and rows[1] is None): return None
        idx = [x[1] for x in p[3][1][1]] if isb(p, J_) else KEY_IDX
        if rows[0] == 'a' and not all(r[0] == 'c' for r in rows[1]): return None
        rs = [r[1] for r in rows[1]] if rows[0] == 'a' else []
        if 'project' in fail or any(i >= len(cols(b)) for i in idx) or any(r >= nrows(b) for r in rs): return [(st, err(arg('PROJERR')))]
        return [(st, ok(('a', tuple(key_of([vals(cols(b)[i])[r] for i in idx]) for r in rs))))]
    def pfor(it, st, c):
        ix = dv(it, st, c.args[1])
        if ix[0] == 'coll' and ix[1] is None: ix = ('a', ())
        if ix[0] != 'a': return None
        return [(st, ok(PROJ([x[1] for x in ix[1]], 'PROJ')))]
    def kix(it, st, c):
        p = dv(it, st, c.args[0])
        return [(st, refto(it, st, c, p[3][1] if isb(p, J_) else ('a', tuple(('c', i) for i in KEY_IDX))))]
    def aiter(it, st, c, a): return [(st, ('it', 'xlist', tuple(NONE if v == NONE else some(v) for v in vals(a))))]
    def anull(want):
        def h(it, st, c, a):
            i = dv(it, st, c.args[1])
            return [(st, TRUE if (vals(a)[i[1]] == NONE) == want else FALSE)] if i[0] == 'c' and 0 <= i[1] < len(vals(a)) else None
        return h
    def nameix(it, st, s, n):
        if not isb(s, S_) or n[0] != 's': return None
        return [i for i, f in enumerate(s[3][0][1]) if fname(f) == n[1]]
    def index_of(it, st, c):
        m = nameix(it, st, dv(it, st, c.args[0]), dv(it, st, c.args[1]))
        return None if m is None else [(st, ok(('c', m[0])) if m else err(arg('NOFIELD')))]
    def colwn(it, st, c):
        s = dv(it, st, c.args[0])
        m = nameix(it, st, s, dv(it, st, c.args[1]))
        return None if m is None else [(st, some(('t', (('c', m[0]), refto(it, st, c, s[3][0][1][m[0]])))) if m else NONE)]
    def ffind(it, st, c):
        fs, n = dv(it, st, c.args[0]), dv(it, st, c.args[1])
        if fs[0] != 'a' or n[0] != 's' or not all(isb(f, F_) for f in fs[1]): return None
        m = [i for i, f in enumerate(fs[1]) if fname(f) == n[1]]
        return [(st, some(('t', (('c', m[0]), refto(it, st, c, fs[1][m[0]])))) if m else NONE)]
    def bproject(it, st, c, b):
        ix = dv(it, st, c.args[1])
        if ix[0] != 'a' or not all(i[0] == 'c' for i in ix[1]): return None
        if any(i[1] >= len(cols(b)) for i in ix[1]): return [(st, err(arg('ARROWERR')))]
        return [(st, ok(B(S([fields(b)[i[1]] for i in ix[1]], b[3][0][3][1]), [cols(b)[i[1]] for i in ix[1]])))]
    def remcol(it, st, c):
        b, i = dv(it, st, c.args[0]), dv(it, st, c.args[1])
        if not isb(b) or i[0] != 'c' or i[1] >= len(cols(b)): return None
        k = i[1]; s = b[3][0]
        nb = B(S(s[3][0][1][:k] + s[3][0][1][k + 1:], s[3][1]), cols(b)[:k] + cols(b)[k + 1:])
        r = c.args[0]
        if r[0] != 'r': return None
        it.store(st, r[1], r[2], nb)
        return [(st, cols(b)[k])]
    return [
        (r'Array(::<\w+>|::.*)?::iter$|IntoIterator::into_iter$', arr(aiter)), (r'Array(::<\w+>|::.*)?::is_null$', arr(anull(True))), (r'Array(::<\w+>|::.*)?::is_valid$', arr(anull(False))),
        (r'schema::Schema::index_of$', index_of), (r'schema::Schema::column_with_name$', colwn), (r'fields::Fields::find$', ffind), (r'RecordBatch::project$', on_batch(bproject)), (r'RecordBatch::remove_column$', remcol),
        (r'RecordBatch::num_rows$', on_batch(lambda it, st, c, b: [(st, ('c', nrows(b)))])),
        (r'RecordBatch::num_columns$', on_batch(lambda it, st, c, b: [(st, ('c', len(cols(b))))])),
        (r'RecordBatch::schema$', on_batch(lambda it, st, c, b: [(st, b[3][0])])),
        (r'RecordBatch::schema_ref$', on_batch(lambda it, st, c, b: [(st, refto(it, st, c, b[3][0]))])),
        (r'RecordBatch::columns$', on_batch(lambda it, st, c, b: [(st, refto(it, st, c, b[3][1]))])),
        (r'RecordBatch::column$', on_batch(column)), (r'RecordBatch::column_by_name$', on_batch(bycname)), (r'RecordBatch::slice$', on_batch(bslice)),
        (r'RecordBatch::get_array_memory_size$', on_batch(lambda it, st, c, b: [(st, ('c', 10 * nrows(b)))])),
        (r'RecordBatch::try_new$', try_new), (r'RecordBatch::new_empty$', new_empty), (r'^arrow_select::concat::concat_batches$', concat), (r'^arrow_select::take::take$', take),
        (r'Array::as_any$', arr(lambda it, st, c, a: [(st, c.args[0])])), (r'downcast_ref$', downcast), (r'Array(::<\w+>|::.*)?::len$', arr(lambda it, st, c, a: [(st, ('c', len(vals(a))))])), (r'Array(::<\w+>|::.*)?::is_empty$', arr(lambda it, st, c, a: [(st, TRUE if not vals(a) else FALSE)])),
        (r'Array(::<\w+>|::.*)?::value$', arr(value)), (r'Array(::<\w+>|::.*)?::values$', arr(lambda it, st, c, a: [(st, refto(it, st, c, a[3][1]))])),
        (r'Array(::<\w+>|::.*)?::null_count$', arr(lambda it, st, c, a: [(st, ('c', sum(v == NONE for v in vals(a))))])),
        (r'from_iter_values$', mkarr), (r'PrimitiveArray.*::from$|^core::convert::From::from$', frm),
        (r'schema::Schema::fields$', fields_), (r'schema::Schema::metadata$', meta), (r'schema::Schema::(new|new_with_metadata)$', snew), (r'field::Field::new$', fnew),
        (r'field::Field::name$', fattr(0)), (r'field::Field::data_type$', fattr(1)), (r'schema::Schema::field_with_name$', fwn), (r'schema::Schema::field$', sfield),
        (r'KeyProjection::project_view$', project), (r'projection_for_columns$', pfor), (r'KeyProjection::key_indices$', kix), (r'KeyProjection::key_schema$', lambda it, st, c: [(st, KEYS)]),
        (r'KeyOwned::from_key_row$', lambda it, st, c: [(st, ok(dv(it, st, c.args[0])))]),
    ]
