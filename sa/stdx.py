"""Further exact models of the standard library: operators on references to numbers, lazily stepped adaptors, searches, in-place
slice operations, set operations, literal texts and their formatting.  Each one applies only when what it needs is known; otherwise
the older model (or an unknown result) stands.  tool/conform compares them with running the same programs."""
from absint import *
import models as M
import exact as X
from exact import xs, cw, get1, wrap_it, xall, isx, xcmp, xeq, find_key, ref, XK
from models import MODELS, places, opt, IT, into_iter, src_iter, RANGE, RANGEI, INTS

def old(n): return MODELS.get(n)
def over(names, f):
    """f replaces the model; None falls back to the one before"""
    for n in names:
        o = MODELS.get(n)
        MODELS[n] = (lambda f, o: lambda it, st, c: (lambda r: r if r is not None else (o(it, st, c) if o else None))(f(it, st, c)))(f, o)
def reg(*names):
    def d(f): over(names, f); return f
    return d
def exact_on(it): return getattr(it.q, 'exact', False)
def num(it, st, v):
    v = it.deepval(st, v)
    return v[1] if v[0] == 'c' and isinstance(v[1], int) else None
def C(n): return ('c', n)
def tyname(it, ti):
    s = it.F.ty_s(ti)
    while s.startswith('&'): s = s[1:].lstrip("'_ ").removeprefix('mut ')
    return s
def call(it, st, c, f, *a): return it.call_value(st, f, list(a), c.frame, c.bb)
def truths(it, st, c, f, *a): return [(s3, t) for s2, b in call(it, st, c, f, *a) for s3, t in it.truth(s2, b)]
def ords(it, st, c, f, *a): return [(s3, '<=>'[vi]) for s2, o in call(it, st, c, f, *a) for s3, vi, _ in it.split(s2, o, ORDERING)]
def tmp(it, st, c, tag, v): return it.tmp(st, c.frame, (tag, c.bb), v)

# ---- operators through references
_OPN = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem', 'bitand': 'BitAnd', 'bitor': 'BitOr', 'bitxor': 'BitXor', 'shl': 'Shl', 'shr': 'Shr'}
def arith(it, st, op, a, b, ty):
    if ty not in BITS: return None
    if a[0] == 'c' and b[0] == 'c' and op in ('Div', 'Rem') and b[1] == 0: return []
    it.dty = ty
    try: rs = it.binop(st, op, a, b)
    finally: it.dty = None
    if a[0] == 'c' and b[0] == 'c' and op in ('Add', 'Sub', 'Mul') and len(rs) == 1 and rs[0][1][0] == 'c':
        n = {'Add': a[1] + b[1], 'Sub': a[1] - b[1], 'Mul': a[1] * b[1]}[op]
        if n != rs[0][1][1]: return []          # overflow panics
    return rs
def bitop(it, st, c, a, b, ty):
    op = _OPN[c.short.replace('_assign', '')]
    if ty == 'bool' and op.startswith('Bit'): return it.binop(st, op, a, b)
    return arith(it, st, op, a, b, ty)
def o_bin(it, st, c):
    if c.body is not None or not c.ga: return None
    return bitop(it, st, c, it.rd(st, c.args[0]), it.rd(st, c.args[1]), tyname(it, c.ga[0]))
def o_assign(it, st, c):
    if c.body is not None or not c.ga: return None
    ty = tyname(it, c.ga[0])
    ps = places(it, st, c.args[0])
    if len(ps) != 1: return None
    if ty.endswith('String') and c.short == 'add_assign': return s_push(it, st, c)
    rs = bitop(it, st, c, it.load(st, *ps[0]), it.rd(st, c.args[1]), ty)
    if rs is None: return None
    for s, v in rs: it.store(s, ps[0][0], ps[0][1], v)
    return [(s, UNIT) for s, _ in rs]
for _n, _o in _OPN.items():
    m = 'arith' if _o in ('Add', 'Sub', 'Mul', 'Div', 'Rem') else 'bit'
    over([f'core::ops::{m}::{_n.capitalize() if _o in ("Add", "Sub", "Mul", "Div", "Rem", "Shl", "Shr") else _o}::{_n}'], o_bin)
    over([f'core::ops::{m}::{_o}Assign::{_n}_assign'], o_assign)
@reg('core::ops::arith::Neg::neg', 'core::ops::bit::Not::not')
def o_un(it, st, c):
    if c.body is not None or not c.ga: return None
    n, ty = num(it, st, c.args[0]), tyname(it, c.ga[0])
    if n is None: return None
    if ty == 'bool': return [(st, C(1 - n))]
    return [(st, C(fit(ty, -n if c.short == 'neg' else ~n)))] if ty in BITS else None

# ---- numbers
def _ipow(lo, hi, a, b):
    v = a ** b
    return v if lo <= v <= hi else None
def _clz(w, a): return w - (a & (1 << w) - 1).bit_length()
def _ctz(w, a):
    a &= (1 << w) - 1
    return w if a == 0 else (a & -a).bit_length() - 1
def _emod(a, b): return a % abs(b)
def _ediv(a, b): return (a - a % abs(b)) // b
def i_num(it, st, c):
    ty = c.fn.split('<impl ')[1].split('>')[0]
    if ty == 'isize' or ty not in INTS: pass
    lo, hi = INTS[ty]; w = BITS[ty]
    xs_ = [num(it, st, a) for a in c.args]
    if None in xs_: return None
    n = c.short; a = xs_[0]; b = xs_[1] if len(xs_) > 1 else None
    inr = lambda v: lo <= v <= hi
    wrap = lambda v: (v - lo) % (hi - lo + 1) + lo
    sat = lambda v: max(lo, min(v, hi))
    chk = lambda v: some(C(v)) if v is not None and inr(v) else NONE
    pan = lambda v: [(st, C(v))] if v is not None and inr(v) else []
    base = n.split('_', 1)[-1] if n.split('_')[0] in ('checked', 'wrapping', 'saturating', 'overflowing', 'strict') else n
    mode = n.split('_')[0] if base != n else None
    if base in ('add_signed', 'add_unsigned'): base = 'add'
    if base in ('sub_unsigned', 'sub_signed'): base = 'sub'
    if base in ('div', 'rem', 'div_euclid', 'rem_euclid', 'div_ceil', 'next_multiple_of') and b == 0: return [(st, NONE)] if mode == 'checked' else []
    f = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'div': lambda: tdiv(a, b), 'rem': lambda: a - b * tdiv(a, b), 'pow': lambda: a ** b if b < 512 else None,
         'neg': lambda: -a, 'abs': lambda: abs(a), 'rem_euclid': lambda: _emod(a, b), 'div_euclid': lambda: _ediv(a, b), 'div_ceil': lambda: -(-a // b),
         'next_multiple_of': lambda: -(-a // b) * b, 'next_power_of_two': lambda: 1 if a <= 1 else 1 << (a - 1).bit_length()}
    if base in f:
        v = f[base]()
        if v is None: return None
        if mode == 'checked': return [(st, chk(v))]
        if mode == 'wrapping': return [(st, C(wrap(v)))]
        if mode == 'saturating': return [(st, C(sat(v)))]
        if mode == 'overflowing': return [(st, ('t', (C(wrap(v)), boolv(not inr(v)))))]
        return pan(v)
    if base in ('shl', 'shr') and mode:
        good = 0 <= b < w
        v = fit(ty, a << (b % w)) if base == 'shl' else a >> (b % w)
        return [(st, (some(C(v)) if good else NONE) if mode == 'checked' else C(v) if mode == 'wrapping' else ('t', (C(v), boolv(not good))))]
    g = {'unsigned_abs': lambda: abs(a), 'abs_diff': lambda: abs(a - b), 'signum': lambda: (a > 0) - (a < 0), 'leading_zeros': lambda: _clz(w, a), 'trailing_zeros': lambda: _ctz(w, a),
         'count_ones': lambda: bin(a & (1 << w) - 1).count('1'), 'count_zeros': lambda: w - bin(a & (1 << w) - 1).count('1'), 'leading_ones': lambda: _clz(w, ~a), 'trailing_ones': lambda: _ctz(w, ~a),
         'is_power_of_two': lambda: int(a > 0 and a & (a - 1) == 0), 'is_positive': lambda: int(a > 0), 'is_negative': lambda: int(a < 0), 'isqrt': lambda: __import__('math').isqrt(a) if a >= 0 else None,
         'ilog2': lambda: a.bit_length() - 1 if a > 0 else None, 'ilog10': lambda: len(str(a)) - 1 if a > 0 else None, 'midpoint': lambda: (a + b) // 2,
         'is_multiple_of': lambda: int(a == 0 if b == 0 else a % b == 0), 'rotate_left': lambda: fit(ty, (a & (1 << w) - 1) << (b % w) | (a & (1 << w) - 1) >> (w - b % w)),
         'rotate_right': lambda: fit(ty, (a & (1 << w) - 1) >> (b % w) | (a & (1 << w) - 1) << (w - b % w)), 'cast_signed': lambda: fit('i' + ty[1:], a), 'cast_unsigned': lambda: fit('u' + ty[1:], a),
         'swap_bytes': lambda: fit(ty, int.from_bytes((a & (1 << w) - 1).to_bytes(w // 8, 'little'), 'big'))}
    g['to_be'] = g['from_be'] = g['swap_bytes']; g['to_le'] = g['from_le'] = lambda: a
    if n in g:
        v = g[n]()
        return [(st, C(v))] if v is not None else []
    if n in ('to_be_bytes', 'to_ne_bytes'):
        return [(st, ('a', tuple(C(x) for x in (a & (1 << w) - 1).to_bytes(w // 8, 'big' if n == 'to_be_bytes' else 'little'))))]
    return None
_IN = ['pow', 'neg', 'abs', 'rem_euclid', 'div_euclid', 'div_ceil', 'next_multiple_of', 'next_power_of_two', 'unsigned_abs', 'abs_diff', 'signum', 'leading_zeros', 'trailing_zeros', 'count_ones', 'count_zeros',
       'leading_ones', 'trailing_ones', 'is_power_of_two', 'is_positive', 'is_negative', 'isqrt', 'ilog2', 'ilog10', 'midpoint', 'is_multiple_of', 'rotate_left', 'rotate_right', 'cast_signed', 'cast_unsigned',
       'swap_bytes', 'to_be', 'from_be', 'to_le', 'from_le', 'to_be_bytes', 'to_ne_bytes']
_IN += [f'{m}_{x}' for m in ('checked', 'wrapping', 'saturating', 'overflowing', 'strict') for x in ('add', 'sub', 'mul', 'div', 'rem', 'pow', 'neg', 'abs', 'rem_euclid', 'div_euclid', 'add_signed', 'add_unsigned', 'sub_unsigned', 'sub_signed',
        'next_multiple_of', 'next_power_of_two', 'shl', 'shr')]
over([f'core::num::<impl {t}>::{n}' for t in INTS for n in _IN], i_num)
@reg(*[f'core::num::<impl {t}>::from_{e}_bytes' for t in INTS for e in ('le', 'be', 'ne')])
def i_from_bytes(it, st, c):
    v = it.deepval(st, c.args[0])
    ty = c.fn.split('<impl ')[1].split('>')[0]
    if v[0] == 'a' and all(x[0] == 'c' for x in v[1]): bs = bytes(x[1] & 255 for x in v[1])
    elif v[0] == 'b': bs = v[1]
    else: return None
    return [(st, C(fit(ty, int.from_bytes(bs, 'big' if 'from_be' in c.short else 'little'))))]
@reg('core::cmp::Ord::clamp')
def o_clamp(it, st, c):
    if c.body is not None: return None
    v, lo, hi = c.args
    out = []
    for s, r in xcmp(it, st, v, lo, c):
        if r == '<': out.append((s, lo)); continue
        for s2, r2 in xcmp(it, s, v, hi, c): out.append((s2, hi if r2 == '>' else v))
    return out
@reg('core::option::Option::<T>::xor')
def o_xor(it, st, c):
    out = []
    for s, vi, v in opt(it, st, c.args[0]):
        for s2, vj, w in opt(it, s, c.args[1]): out.append((s2, v if vi and not vj else w if vj and not vi else NONE))
    return out

# ---- lexicographic order of known sequences
_rel = Interp.rel if 'Interp' in globals() else None
def seq_cmp(it, st, a, b, c):
    """[(state, '<=>')] for two tuples of elements"""
    out = []
    def go(s, i):
        if i == len(a) or i == len(b): out.append((s, '=' if len(a) == len(b) else '<' if i == len(a) else '>')); return
        for s2, r in xcmp(it, s, a[i], b[i], c):
            if r == '=': go(s2, i + 1)
            else: out.append((s2, r))
    go(st, 0)
    return out
def o_lex(it, st, c):
    if c.body is not None or not exact_on(it): return None
    a, b = it.deepval(st, c.args[0]), it.deepval(st, c.args[1])
    if a[0] != 'a' or b[0] != 'a': return None
    rs = seq_cmp(it, st, a[1], b[1], c)
    if c.short == 'cmp': return [(s, ordv(r)) for s, r in rs]
    if c.short == 'partial_cmp': return [(s, some(ordv(r))) for s, r in rs]
    return [(s, boolv(r in M.CMPOP[c.short])) for s, r in rs]
over(['core::cmp::PartialOrd::' + n for n in ('lt', 'le', 'gt', 'ge', 'partial_cmp')] + ['core::cmp::Ord::cmp'], o_lex)
def i_lex(it, st, c):
    a, b = src_iter(it, st, c), into_iter(it, st, c.args[1], c)
    if not (b[0] == 'it' and isx(it, st, a) and isx(it, st, b)): return None
    out = []
    for s, x in xall(it, st, a, c):
        for s2, y in xall(it, s, b, c):
            for s3, r in seq_cmp(it, s2, x, y, c):
                out.append((s3, ordv(r) if c.short == 'cmp' else some(ordv(r)) if c.short == 'partial_cmp' else boolv(r in M.CMPOP[c.short])))
    return out
over([IT + n for n in ('eq', 'ne', 'lt', 'le', 'gt', 'ge', 'cmp', 'partial_cmp')], i_lex)

# ---- lazily stepped adaptors and sources
def src2(it, st, v): return v[0] == 'it' and isx(it, st, v)
def inner_x(it, st, v): return isx(it, st, v[2])
def k_step(it, st, v, c):
    _, k, src, n, first = v
    out = []
    def go(s, iv, m):
        for s1, e, nv in X.xnext(it, s, iv, c):
            if e is None: out.append((s1, None, ('it', k, nv, n, False)))
            elif m == 0: out.append((s1, e, ('it', k, nv, n, False)))
            else: go(s1, nv, m - 1)
    go(st, src, 0 if first else n - 1)
    return out
XK['stepx'] = (inner_x, k_step)
def k_mapwhile(it, st, v, c):
    out = []
    for s, e, nv in X.xnext(it, st, v[2], c):
        if e is None: out.append((s, None, v)); continue
        for s2, o in call(it, s, c, v[3], e):
            for s3, vi, w in opt(it, s2, o): out.append((s3, w[3][0] if vi == 1 else None, ('it', 'map_while', nv, v[3]) if vi == 1 else ('it', 'own', ('a', ()))))
    return out
XK['map_while'] = (inner_x, k_mapwhile)
def k_scan(it, st, v, c):
    out = []
    for s, e, nv in X.xnext(it, st, v[2], c):
        if e is None: out.append((s, None, v)); continue
        r = tmp(it, s, c, 'scan', v[4])
        for s2, o in call(it, s, c, v[3], r, e):
            acc = it.rd(s2, r)
            for s3, vi, w in opt(it, s2, o): out.append((s3, w[3][0] if vi == 1 else None, ('it', 'scan', nv, v[3], acc)))
    return out
XK['scan'] = (inner_x, k_scan)
def k_cycle(it, st, v, c):
    rs = X.xnext(it, st, v[2], c)
    out = []
    for s, e, nv in rs:
        if e is not None: out.append((s, e, ('it', 'cyc', nv, v[3])))
        else:
            for s2, e2, nw in X.xnext(it, s, v[3], c): out.append((s2, e2, ('it', 'cyc', nw, v[3])))
    return out
XK['cyc'] = (inner_x, k_cycle)
yes = lambda it, st, v: True
XK['repeat'] = (yes, lambda it, st, v, c: [(st, v[3], v)])
XK['repeat_n'] = (yes, lambda it, st, v, c: [(st, None, v)] if v[4] == 0 else [(st, v[3], v[:4] + (v[4] - 1,))])
XK['rwith'] = (yes, lambda it, st, v, c: [(s, e, v) for s, e in call(it, st, c, v[3])])
XK['count_up'] = (yes, lambda it, st, v, c: [(st, C(v[3]), v[:3] + (v[3] + 1,))])
def k_succ(it, st, v, c):
    out = []
    for s, vi, w in opt(it, st, v[3]):
        if vi == 0: out.append((s, None, v)); continue
        r = it.tmp(s, c.frame, ('succ', c.bb), w[3][0])
        for s2, n in call(it, s, c, v[4], r): out.append((s2, w[3][0], v[:3] + (n, v[4])))
    return out
XK['successors'] = (yes, k_succ)
def k_from_fn(it, st, v, c):
    out = []
    r = tmp(it, st, c, 'fromfn', v[3])
    for s, o in call(it, st, c, r):
        f = it.rd(s, r)
        for s2, vi, w in opt(it, s, o): out.append((s2, w[3][0] if vi else None, v[:3] + (f,)))
    return out
XK['from_fn'] = (yes, k_from_fn)
INF = ('it', 'own', ('a', ()))
def ad(n, f):
    def g(it, st, c):
        if not exact_on(it): return None
        s = src_iter(it, st, c)
        return f(it, st, c, s) if src2(it, st, s) else None
    over([IT + n], g)
def a_step(it, st, c, s):
    n = num(it, st, c.args[1])
    return None if not n else [(st, ('it', 'stepx', s, n, True))]
ad('step_by', a_step)
over([IT + 'map_while'], lambda it, st, c: [(st, ('it', 'map_while', src_iter(it, st, c), c.args[1]))])
ad('scan', lambda it, st, c, s: [(st, ('it', 'scan', s, c.args[2], c.args[1]))])
ad('cycle', lambda it, st, c, s: [(st, ('it', 'cyc', s, s))])
def srcs(n, f):
    over([n], lambda it, st, c: f(it, st, c) if exact_on(it) and c.body is None else None)
srcs('core::iter::sources::repeat::repeat', lambda it, st, c: [(st, ('it', 'repeat', INF, c.args[0]))])
srcs('core::iter::sources::repeat_n::repeat_n', lambda it, st, c: [(st, ('it', 'repeat_n', INF, c.args[0], num(it, st, c.args[1])))] if num(it, st, c.args[1]) is not None else None)
srcs('core::iter::sources::repeat_with::repeat_with', lambda it, st, c: [(st, ('it', 'rwith', INF, c.args[0]))])
srcs('core::iter::sources::once_with::once_with', lambda it, st, c: [(s, ('it', 'own', ('a', (v,)))) for s, v in call(it, st, c, c.args[0])])
srcs('core::iter::sources::successors::successors', lambda it, st, c: [(st, ('it', 'successors', INF, c.args[0], c.args[1]))])
srcs('core::iter::sources::from_fn::from_fn', lambda it, st, c: [(st, ('it', 'from_fn', INF, c.args[0]))])
def s_zip(it, st, c):
    class D: pass
    return MODELS[IT + 'zip'](it, st, c)
over(['core::iter::adapters::zip::zip'], lambda it, st, c: [(st, ('it', 'zip', into_iter(it, st, c.args[0], c), into_iter(it, st, c.args[1], c)))])
def s_from_fn(it, st, c):
    n = None
    import re
    ga = [it.F.ty_s(g) if isinstance(g, int) else str(g) for g in c.ga]
    for s in ga:
        if re.fullmatch(r'\d+(_usize)?', s): n = int(s.split('_')[0])
    d = getattr(c, 'dest_ty', None)
    if n is None or n > X.LIM: return None
    out = []
    def go(s, i, acc):
        if i == n: out.append((s, ('a', acc))); return
        for s2, e in call(it, s, c, c.args[0], C(i)): go(s2, i + 1, acc + (e,))
    go(st, 0, ())
    return out
srcs('core::array::from_fn', s_from_fn)

# ---- consumers
def c_product(it, st, c, src):
    out = []
    for s, els in xall(it, st, src, c):
        vs = [it.deepval(s, e) for e in els]
        if all(v[0] == 'c' for v in vs):
            n = 1
            for v in vs: n *= v[1]
            out.append((s, C(n)))
        else:
            acc = vs[0] if vs else C(1)
            for v in vs[1:]: acc = it.binop(s, 'Mul', acc, v)[0][1]
            out.append((s, acc))
    return out
wrap_it(['product'], c_product)
_sum = MODELS[IT + 'sum']
def c_sum(it, st, c):
    """a sum of options or results stops at the first failure"""
    t = it.F.types[c.ga[1]] if len(c.ga) > 1 and isinstance(c.ga[1], int) else {}
    adt = t.get('n')
    src = src_iter(it, st, c)
    if adt not in (OPTION, RESULT) or not src2(it, st, src) or c.short != 'sum': return _sum(it, st, c)
    out = []
    def go(s, iv, acc):
        for s2, e, nv in X.xnext(it, s, iv, c):
            if e is None: out.append((s2, ok(acc) if adt == RESULT else some(acc))); continue
            for s3, vi, w in it.split(s2, it.rd(s2, e), adt):
                if (adt == RESULT) == (vi == 1): out.append((s3, w))
                else: go(s3, nv, it.binop(s3, 'Add', acc, it.rd(s3, w[3][0]))[0][1])
    go(st, src, C(0))
    return out
MODELS[IT + 'sum'] = c_sum
def c_reduce(it, st, c, src):
    out = []
    for s, e, nv in X.xnext(it, st, src, c):
        if e is None: out.append((s, NONE)); continue
        def go(s, iv, acc, n):
            for s2, x, nw in X.xnext(it, s, iv, c):
                if x is None or n > X.LIM: out.append((s2, some(acc))); continue
                for s3, r in call(it, s2, c, c.args[1], acc, x): go(s3, nw, r, n + 1)
        go(s, nv, e, 0)
    return out
wrap_it(['reduce'], c_reduce)
def c_part(it, st, c, src):
    t = it.F.types[c.ga[1]] if len(c.ga) > 1 and isinstance(c.ga[1], int) else {}
    if t.get('n', '') != 'alloc::vec::Vec' : return None
    out = []
    owned = 'Vec<&' not in it.F.ty_s(c.ga[1])
    def go(s, iv, a, b):
        for s2, e, nv in X.xnext(it, s, iv, c):
            if e is None:
                if owned: a, b = (tuple(X.rd1(it, s2, x) for x in z) for z in (a, b))
                out.append((s2, ('t', (('a', a), ('a', b))))); continue
            r = it.tmp(s2, c.frame, ('part', c.bb), e)
            for s3, t in truths(it, s2, c, c.args[1], r): go(s3, nv, a + (e,) if t else a, b if t else b + (e,))
    go(st, src, (), ())
    return out
def c_unzip(it, st, c, src):
    out = []
    for s, els in xall(it, st, src, c):
        els = [e if e[0] == 't' else it.rd(s, e) for e in els]
        if any(e[0] != 't' for e in els): return None
        out.append((s, ('t', (('a', tuple(e[1][0] for e in els)), ('a', tuple(e[1][1] for e in els))))))
    return out
def wrap2(n, f):
    o = MODELS.get(IT + n)
    def g(it, st, c):
        if exact_on(it):
            src = src_iter(it, st, c)
            if src2(it, st, src):
                r = f(it, st.copy(), c, src)
                if r is not None: return r
        return o(it, st, c) if o else None
    MODELS[IT + n] = g
wrap2('partition', c_part); wrap2('unzip', c_unzip)
def c_nth(it, st, c):
    if not exact_on(it) or c.body is not None: return None
    n = num(it, st, c.args[1])
    if n is None: return None
    v = c.args[0]
    ps = places(it, st, v)
    if len(ps) != 1: return None
    w = it.load(st, *ps[0])
    if w is not None and w[0] == 'e' and X.rangex(w): w = ('it', 'own', w)
    if w is None or not src2(it, st, w): return None
    out = []
    def go(s, iv, m):
        for s2, e, nv in X.xnext(it, s, iv, c):
            if e is None or m == 0:
                it.store(s2, ps[0][0], ps[0][1], nv); out.append((s2, NONE if e is None else some(e)))
            else: go(s2, nv, m - 1)
    go(st, w, n)
    return out
over([IT + 'nth'], c_nth)
def c_nthb(it, st, c):
    if not exact_on(it) or c.body is not None: return None
    n = num(it, st, c.args[1]); ps = places(it, st, c.args[0])
    w = it.load(st, *ps[0]) if len(ps) == 1 else None
    if n is None or w is None or not src2(it, st, w): return None
    out = []
    for s, els in xall(it, st, w, c):
        it.store(s, ps[0][0], ps[0][1], ('it', 'xlist', els[:max(0, len(els) - n - 1)])); out.append((s, some(els[-1 - n]) if n < len(els) else NONE))
    return out
DE = 'core::iter::traits::double_ended::DoubleEndedIterator::'
over([DE + 'nth_back'], c_nthb)
def c_rfind(it, st, c):
    if not exact_on(it) or c.body is not None: return None
    src = src_iter(it, st, c)
    if not src2(it, st, src): return None
    out = []
    for s, els in xall(it, st, src, c):
        def go(s, i):
            if i < 0: out.append((s, NONE)); return
            for s2, t in truths(it, s, c, c.args[1], it.tmp(s, c.frame, ('rf', c.bb), els[i])):
                if t: out.append((s2, some(els[i])))
                else: go(s2, i - 1)
        go(s, len(els) - 1)
    return out
over([DE + 'rfind'], c_rfind)
def c_rfold(it, st, c):
    if not exact_on(it) or c.body is not None: return None
    src = src_iter(it, st, c)
    if not src2(it, st, src): return None
    out = []
    for s, els in xall(it, st, src, c):
        def go(s, i, acc):
            if i < 0: out.append((s, acc)); return
            for s2, r in call(it, s, c, c.args[2], acc, els[i]): go(s2, i - 1, r)
        go(s, len(els) - 1, c.args[1])
    return out
over([DE + 'rfold'], c_rfold)
def c_len(it, st, c):
    """remaining length of a known iterator"""
    if not exact_on(it) or c.body is not None: return None
    w = it.rd(st, c.args[0])
    if w[0] == 'e' and X.rangex(w): w = ('it', 'own', w)
    if not src2(it, st, w): return None
    rs = xall(it, st.copy(), w, c)
    if len(rs) != 1: return None
    n = C(len(rs[0][1]))
    return [(st, ('t', (n, some(n))) if c.short == 'size_hint' else n)]
over(['core::iter::traits::exact_size::ExactSizeIterator::len'], c_len)
def c_hint(it, st, c):
    w = it.rd(st, c.args[0])
    while w[0] == 'it' and w[1] in ('deref', 'map', 'rev', 'enumerate', 'fuse', 'peekable', 'inspect'): w = w[2]
    return c_len(it, st, c) if w[0] == 'it' and w[1] in ('rs', 'xlist', 'own') else None
over([IT + 'size_hint'], c_hint)
def adjacent(it, st, c, els, test):
    """[(state, bool)]: test holds for every adjacent pair"""
    out = []
    def go(s, i):
        if i + 1 >= len(els): out.append((s, True)); return
        for s2, t in test(s, els[i], els[i + 1]):
            if t: go(s2, i + 1)
            else: out.append((s2, False))
    go(st, 0)
    return out
def sorted_test(it, c, f=None):
    n = c.short
    def test(s, a, b):
        if n.endswith('_by'): return truths(it, s, c, f, it.tmp(s, c.frame, ('sa', c.bb), a), it.tmp(s, c.frame, ('sb', c.bb), b))
        if n.endswith('_key'): return [(s4, r in '<=') for s2, x in call(it, s, c, f, a) for s3, y in call(it, s2, c, f, b) for s4, r in xcmp(it, s3, x, y, c)]
        return [(s2, r in '<=') for s2, r in xcmp(it, s, a, b, c)]
    return test
def c_sorted(it, st, c, src):
    return [(s2, boolv(t)) for s, els in xall(it, st, src, c) for s2, t in adjacent(it, s, c, els, sorted_test(it, c, c.args[1] if len(c.args) > 1 else None))]
for _n in ('is_sorted', 'is_sorted_by', 'is_sorted_by_key'): wrap2(_n, c_sorted)
@cw('is_sorted', 'is_sorted_by', 'is_sorted_by_key')
def s_sorted(it, st, c, cell, proj, v):
    els = [ref(cell, proj, i) for i in range(len(v[1]))]
    return [(s, boolv(t)) for s, t in adjacent(it, st, c, els, sorted_test(it, c, c.args[1] if len(c.args) > 1 else None))]

# try_fold / try_for_each over a known sequence, for Option, Result and ControlFlow
def c_try(it, st, c):
    if not exact_on(it) or c.body is not None: return None
    tf = c.short in ('try_fold', 'try_rfold')
    f = c.args[2] if tf else c.args[1]
    src = src_iter(it, st, c)
    if not src2(it, st, src): return None
    dt = None
    for g in reversed(c.ga):
        if isinstance(g, int) and it.F.types[g].get('n') in (OPTION, RESULT, CF): dt = it.F.types[g]['n']; break
    out = []
    good = lambda adt, x: ('e', adt, {OPTION: 1, RESULT: 0, CF: 0}[adt], (x,))
    if dt is None: return None
    def go(s, iv, acc, n):
        for s2, e, nv in X.xnext(it, s, iv, c):
            if e is None or n > X.LIM:
                if c.args[0][0] == 'r':
                    for p in places(it, s2, c.args[0])[:1]: it.store(s2, p[0], p[1], nv)
                out.append((s2, good(dt, acc))); continue
            for s3, r in (call(it, s2, c, f, acc, e) if tf else call(it, s2, c, f, e)):
                for s4, vi, w in it.split(s3, r, dt):
                    if vi == {OPTION: 1, RESULT: 0, CF: 0}[dt]: go(s4, nv, w[3][0] if w[3] else UNIT, n + 1)
                    else:
                        if c.args[0][0] == 'r':
                            for p in places(it, s4, c.args[0])[:1]: it.store(s4, p[0], p[1], nv)
                        out.append((s4, w))
    w = it.rd(st, c.args[0]) if c.args[0][0] == 'r' else None
    go(st, w if w is not None and src2(it, st, w) else src, c.args[1] if tf else UNIT, 0)
    return out
over([IT + 'try_fold', IT + 'try_for_each'], c_try)
# Peekable::next_if
PK = 'core::iter::adapters::peekable::Peekable::<I>::'
def c_next_if(it, st, c):
    ps = places(it, st, c.args[0])
    w = it.load(st, *ps[0]) if len(ps) == 1 else None
    if w is None or w[0] != 'it' or w[1] != 'peekable' or not isx(it, st, w): return None
    out = []
    for s, e, nv in X.xnext(it, st, w, c):
        src = nv[2] if nv[1] == 'peekable' else nv
        if e is None: it.store(s, ps[0][0], ps[0][1], ('it', 'peekable', src, ('none',))); out.append((s, NONE)); continue
        rs = truths(it, s, c, c.args[1], it.tmp(s, c.frame, ('nif', c.bb), e)) if c.short == 'next_if' else xeq(it, s, e, it.rd(s, c.args[1]), c)
        for s2, t in rs:
            it.store(s2, ps[0][0], ps[0][1], ('it', 'peekable', src) if t else ('it', 'peekable', src, ('some', e)))
            out.append((s2, some(e) if t else NONE))
    return out
over([PK + 'next_if', PK + 'next_if_eq'], c_next_if)

# ---- slices and vectors in place
def put(it, st, cell, proj, els, v=UNIT):
    it.store(st, cell, proj, ('a', tuple(els))); return [(st, v)]
@cw('swap')
def v_swap(it, st, c, cell, proj, v):
    i, j = num(it, st, c.args[1]), num(it, st, c.args[2])
    if i is None or j is None: return None
    if max(i, j) >= len(v[1]): return []
    e = list(v[1]); e[i], e[j] = e[j], e[i]
    return put(it, st, cell, proj, e)
@cw('rotate_left', 'rotate_right')
def v_rot(it, st, c, cell, proj, v):
    n = num(it, st, c.args[1])
    if n is None: return None
    if n > len(v[1]): return []
    if c.short == 'rotate_right': n = len(v[1]) - n
    return put(it, st, cell, proj, v[1][n:] + v[1][:n])
@cw('fill')
def v_fill(it, st, c, cell, proj, v): return put(it, st, cell, proj, [c.args[1]] * len(v[1]))
@cw('fill_with')
def v_fillw(it, st, c, cell, proj, v):
    out = []
    def go(s, acc):
        if len(acc) == len(v[1]): out.extend(put(it, s, cell, proj, acc)); return
        for s2, e in call(it, s, c, c.args[1]): go(s2, acc + (e,))
    go(st, ())
    return out
def bounds(it, st, r, n):
    """(lo, hi) of a range value over a sequence of length n, or None"""
    r = it.deepval(st, r)
    if r[0] == 't' and len(r[1]) == 2 and all(b[0] == 'e' and b[1] == BOUND for b in r[1]):
        def b(x, hi):
            if it.vname(BOUND, x[2]) == 'Unbounded': return n if hi else 0
            k = x[3][0][1] if x[3][0][0] == 'c' else None
            return None if k is None else k + (it.vname(BOUND, x[2]) == ('Included' if hi else 'Excluded'))
        lo, hi = b(r[1][0], False), b(r[1][1], True)
        return None if lo is None or hi is None else (lo, hi)
    if r[0] != 'e': return None
    k = r[1].rsplit('::', 1)[-1]
    z = [x[1] if x[0] == 'c' else None for x in r[3]]
    if None in z: return None
    f = {'Range': lambda: (z[0], z[1]), 'RangeFrom': lambda: (z[0], n), 'RangeTo': lambda: (0, z[0]), 'RangeFull': lambda: (0, n), 'RangeToInclusive': lambda: (0, z[0] + 1), 'RangeInclusive': lambda: (z[0], z[1] + 1)}.get(k)
    return f() if f else None
def inb(b, n): return 0 <= b[0] <= b[1] <= n
@cw('copy_within')
def v_cw(it, st, c, cell, proj, v):
    b, d = bounds(it, st, c.args[1], len(v[1])), num(it, st, c.args[2])
    if b is None or d is None: return None
    if not inb(b, len(v[1])) or d + b[1] - b[0] > len(v[1]): return []
    e = list(v[1]); e[d:d + b[1] - b[0]] = v[1][b[0]:b[1]]
    return put(it, st, cell, proj, e)
@cw('extend_from_within')
def v_efw(it, st, c, cell, proj, v):
    b = bounds(it, st, c.args[1], len(v[1]))
    if b is None or not inb(b, len(v[1])): return None
    return put(it, st, cell, proj, v[1] + v[1][b[0]:b[1]])
@cw('swap_remove')
def v_swr(it, st, c, cell, proj, v):
    i = num(it, st, c.args[1])
    if i is None: return None
    if i >= len(v[1]): return []
    e = list(v[1]); x = e[i]; e[i] = e[-1]; e.pop()
    return put(it, st, cell, proj, e, x)
@cw('swap_remove_back', 'swap_remove_front')
def v_swrb(it, st, c, cell, proj, v):
    i = num(it, st, c.args[1])
    if i is None: return None
    if i >= len(v[1]): return [(st, NONE)]
    e = list(v[1]); x = e[i]
    if c.short.endswith('back'): e[i] = e[-1]; e.pop()
    else: e[i] = e[0]; e.pop(0)
    return put(it, st, cell, proj, e, some(x))
@cw('split_off')
def v_soff(it, st, c, cell, proj, v):
    if X.mapish(c) or X.setish(c):
        mp = X.mapish(c)
        out = []
        for s, i, pos in find_key(it, st, c, v[1], c.args[1], (lambda e: e[1][0]) if mp else (lambda e: e)):
            k = i if i is not None else pos
            out += put(it, s, cell, proj, v[1][:k], ('a', v[1][k:]))
        return out
    n = num(it, st, c.args[1])
    if n is None: return None
    if n > len(v[1]): return []
    return put(it, st, cell, proj, v[1][:n], ('a', v[1][n:]))
@cw('drain')
def v_drain(it, st, c, cell, proj, v):
    if len(c.args) < 2 or X.mapish(c): return None
    b = bounds(it, st, c.args[1], len(v[1]))
    if b is None: return None
    if not inb(b, len(v[1])): return []
    return put(it, st, cell, proj, v[1][:b[0]] + v[1][b[1]:], ('it', 'own', ('a', v[1][b[0]:b[1]])))
@cw('splice')
def v_splice(it, st, c, cell, proj, v):
    b = bounds(it, st, c.args[1], len(v[1])); src = into_iter(it, st, c.args[2], c)
    if b is None or not src2(it, st, src): return None
    if not inb(b, len(v[1])): return []
    out = []
    for s, els in xall(it, st, src, c): out += put(it, s, cell, proj, v[1][:b[0]] + els + v[1][b[1]:], ('it', 'own', ('a', v[1][b[0]:b[1]])))
    return out
@cw('pop_if', 'pop_front_if', 'pop_back_if')
def v_popif(it, st, c, cell, proj, v):
    if not v[1]: return [(st, NONE)]
    i = 0 if 'front' in c.short else len(v[1]) - 1
    out = []
    for s, t in truths(it, st, c, c.args[1], ref(cell, proj, i)):
        w = it.load(s, cell, proj)[1]
        out += put(it, s, cell, proj, w[:i] + w[i + 1:], some(w[i])) if t else [(s, NONE)]
    return out
_ret = {}
for _p in M.CT:
    if _p + 'retain' in MODELS: MODELS[_p + 'retain_mut'] = MODELS[_p + 'retain']
@cw('get', 'get_mut')
def v_get_range(it, st, c, cell, proj, v):
    if X.mapish(c) or X.setish(c): return None
    r = it.rd(st, c.args[1])
    if r[0] != 'e' and r[0] != 't': return None
    b = bounds(it, st, r, len(v[1]))
    if b is None: return None
    return [(st, some(('r', cell, proj + (('ss', b[0], b[1], False),))) if inb(b, len(v[1])) else NONE)]
@cw('starts_with', 'ends_with', 'strip_prefix', 'strip_suffix')
def v_sw(it, st, c, cell, proj, v):
    w = it.rd(st, c.args[1])
    if not xs(w): return None
    pre = c.short in ('starts_with', 'strip_prefix')
    n, L = len(w[1]), len(v[1])
    if n > L: rs = [(st, False)]
    else:
        part = v[1][:n] if pre else v[1][L - n:]
        rs = []
        def go(s, i):
            if i == n: rs.append((s, True)); return
            for s2, e in xeq(it, s, part[i], w[1][i], c):
                if e: go(s2, i + 1)
                else: rs.append((s2, False))
        go(st, 0)
    if 'strip' not in c.short: return [(s, boolv(t)) for s, t in rs]
    return [(s, some(('r', cell, proj + (('ss', n, L, False) if pre else ('ss', 0, L - n, False),))) if t else NONE) for s, t in rs]
def bsearch(it, st, c, n, probe):
    """std's binary search; probe(state, i) -> [(state, '<=>')] ; [(state, found, position)]"""
    out = []
    if n == 0: return [(st, False, 0)]
    def go(s, base, size):
        if size <= 1:
            for s2, r in probe(s, base): out.append((s2, r == '=', base + (r == '<')))
            return
        half = size // 2
        for s2, r in probe(s, base + half): go(s2, base if r == '>' else base + half, size - half)
    go(st, 0, n)
    return out
@cw('binary_search', 'binary_search_by', 'binary_search_by_key', 'partition_point')
def v_bs(it, st, c, cell, proj, v):
    n = c.short
    def probe(s, i):
        e = ref(cell, proj, i)
        if n == 'binary_search': return xcmp(it, s, e, c.args[1], c)
        if n == 'binary_search_by': return ords(it, s, c, c.args[1], e)
        if n == 'partition_point': return [(s2, '<' if t else '>') for s2, t in truths(it, s, c, c.args[1], e)]
        return [(s3, r) for s2, k in call(it, s, c, c.args[2], e) for s3, r in xcmp(it, s2, k, c.args[1], c)]
    rs = bsearch(it, st, c, len(v[1]), probe)
    return [(s, C(p) if n == 'partition_point' else ok(C(p)) if f else err(C(p))) for s, f, p in rs]
@cw('split', 'splitn', 'split_inclusive', 'rsplit')
def v_split(it, st, c, cell, proj, v):
    lim = None
    if c.short == 'splitn':
        lim = num(it, st, c.args[1])
        if lim is None: return None
    f = c.args[-1]
    inc = c.short == 'split_inclusive'
    out = []
    L = len(v[1])
    def go(s, i, lo, acc):
        if i == L or lim is not None and len(acc) == lim - 1:
            if not inc or lo < L: acc = acc + ((lo, L),)
            if c.short == 'rsplit': acc = acc[::-1]
            out.append((s, ('it', 'xlist', tuple(('r', cell, proj + (('ss', a, b, False),)) for a, b in acc)))); return
        for s2, t in truths(it, s, c, f, ref(cell, proj, i)):
            if t: go(s2, i + 1, i + 1, acc + ((lo, i + inc),))
            else: go(s2, i + 1, lo, acc)
    go(st, 0, 0, ())
    return out
@cw('chunk_by', 'chunk_by_mut')
def v_chunk(it, st, c, cell, proj, v):
    out = []
    L = len(v[1])
    def go(s, i, lo, acc):
        if i >= L:
            if lo < L: acc = acc + ((lo, L),)
            out.append((s, ('it', 'xlist', tuple(('r', cell, proj + (('ss', a, b, False),)) for a, b in acc)))); return
        for s2, t in truths(it, s, c, c.args[1], ref(cell, proj, i - 1), ref(cell, proj, i)):
            go(s2, i + 1, lo if t else i, acc if t else acc + ((lo, i),))
    go(st, 1, 0, ())
    return out
def sub(cell, proj, a, b): return ('r', cell, proj + (('ss', a, b, False),))
@cw('chunks_mut', 'chunks_exact_mut', 'rchunks_mut', 'chunks', 'chunks_exact', 'rchunks', 'windows')
def v_chunks(it, st, c, cell, proj, v):
    n = num(it, st, c.args[1]); L = len(v[1])
    if not n: return None
    k = c.short.replace('_mut', '')
    if k == 'windows': ps = [(i, i + n) for i in range(L - n + 1)]
    elif k == 'rchunks': ps = [(max(0, e - n), e) for e in range(L, 0, -n)]
    else: ps = [(i, min(i + n, L)) for i in range(0, L, n) if k == 'chunks' or i + n <= L]
    return [(st, ('it', 'xlist', tuple(sub(cell, proj, a, b) for a, b in ps)))]
@cw('split_at', 'split_at_mut', 'split_at_checked', 'split_at_mut_checked')
def v_split_at(it, st, c, cell, proj, v):
    n = num(it, st, c.args[1]); L = len(v[1])
    if n is None or not exact_on(it): return None
    ck = c.short.endswith('checked')
    if n > L: return [(st, NONE)] if ck else []
    r = ('t', (sub(cell, proj, 0, n), sub(cell, proj, n, L)))
    return [(st, some(r) if ck else r)]
@cw('split_first', 'split_last', 'split_first_mut', 'split_last_mut')
def v_split_ends(it, st, c, cell, proj, v):
    L = len(v[1])
    if not L: return [(st, NONE)]
    if 'first' in c.short: return [(st, some(('t', (ref(cell, proj, 0), sub(cell, proj, 1, L)))))]
    return [(st, some(('t', (ref(cell, proj, L - 1), sub(cell, proj, 0, L - 1)))))]
@cw('concat', 'join')
def v_concat(it, st, c, cell, proj, v):
    parts = [it.deepval(st, e) for e in v[1]]
    sep = it.deepval(st, c.args[1]) if c.short == 'join' else None
    if all(p[0] == 's' for p in parts) and (parts or sep is not None) and (sep is None or sep[0] == 's'): return [(st, ('s', (sep[1] if sep else '').join(p[1] for p in parts)))]
    if not all(p[0] == 'a' for p in parts): return None
    raw = [it.rd(st, e) if e[0] == 'r' else e for e in v[1]]
    out = ()
    for i, p in enumerate(raw):
        if i and sep is not None: out += sep[1] if sep[0] == 'a' else (sep,)
        out += p[1]
    return [(st, ('a', out))]
over(['alloc::slice::Join::join', 'alloc::slice::Concat::concat'], lambda it, st, c: None)
@cw('repeat')
def v_repeat(it, st, c, cell, proj, v):
    n = num(it, st, c.args[1])
    return None if n is None or n * len(v[1]) > 40 else [(st, ('a', v[1] * n))]
@cw('make_contiguous')
def v_mc(it, st, c, cell, proj, v): return [(st, ('r', cell, proj))]
@cw('as_slices', 'as_mut_slices')
def v_ass(it, st, c, cell, proj, v): return [(st, ('t', (('r', cell, proj), it.tmp(st, c.frame, ('ass', c.bb), ('a', ())))))]
@cw('into_sorted_vec')
def v_isv(it, st, c, cell, proj, v):
    cell2 = ('tmp', c.frame, ('isv', c.bb)); st.mem[cell2] = v
    class D: pass
    d = D(); d.fn = 'alloc::slice::<impl [T]>::sort'; d.short = 'sort'; d.args = [('r', cell2, ())]; d.frame = c.frame; d.bb = c.bb; d.ga = c.ga; d.body = None; d.name = d.fn
    return [(s, it.load(s, cell2, ())) for s, _ in MODELS[d.fn](it, st, d)]
@cw('into_vec')
def v_iv(it, st, c, cell, proj, v): return [(st, v)] if X.heapish(c) else None
@cw('first_entry', 'last_entry')
def v_fe(it, st, c, cell, proj, v):
    if not v[1]: return [(st, NONE)]
    i = 0 if c.short == 'first_entry' else len(v[1]) - 1
    return [(st, some(('it', 'xocc', cell, proj, v[1][i][1][0], i)))]
@cw('range', 'range_mut')
def v_range(it, st, c, cell, proj, v):
    if 'VecDeque' in c.fn:
        b = bounds(it, st, c.args[1], len(v[1]))
        return None if b is None or not inb(b, len(v[1])) else [(st, ('it', 'rs', cell, proj, b[0], b[1]))]
    mp = X.mapish(c)
    r = it.rd(st, c.args[1])
    ends = None
    if r[0] == 't': ends = [it.rd(st, x) for x in r[1]]
    elif r[0] == 'e':
        k = r[1].rsplit('::', 1)[-1]
        B = lambda n, x=None: (n, x)
        ends = {'Range': lambda: [B('i', r[3][0]), B('e', r[3][1])], 'RangeFrom': lambda: [B('i', r[3][0]), B('u')], 'RangeTo': lambda: [B('u'), B('e', r[3][0])], 'RangeFull': lambda: [B('u'), B('u')],
                'RangeInclusive': lambda: [B('i', r[3][0]), B('i', r[3][1])], 'RangeToInclusive': lambda: [B('u'), B('i', r[3][0])]}.get(k, lambda: None)()
    if ends is None: return None
    es = []
    for e in ends:
        if e[0] in ('i', 'e', 'u') and len(e) == 2 and e[0] != 'e' or len(e) == 2: es.append(e); continue
        if e[0] == 'e' and e[1] == BOUND: es.append(({'Included': 'i', 'Excluded': 'e', 'Unbounded': 'u'}[it.vname(BOUND, e[2])], e[3][0] if e[3] else None))
        else: return None
    out = []
    els = v[1]
    def lo(s, i):
        if i == len(els) or es[0][0] == 'u': hi(s, i, i); return
        for s2, r in xcmp(it, s, els[i][1][0] if mp else els[i], es[0][1], c):
            if r == '>' or r == '=' and es[0][0] == 'i': hi(s2, i, i)
            else: lo(s2, i + 1)
    def hi(s, a, i):
        if es[1][0] == 'u': i = len(els)
        if i == len(els): fin(s, a, i); return
        for s2, r in xcmp(it, s, els[i][1][0] if mp else els[i], es[1][1], c):
            if r == '<' or r == '=' and es[1][0] == 'i': hi(s2, a, i + 1)
            else: fin(s2, a, i)
    def fin(s, a, b): out.append((s, ('it', 'rs', cell, proj, a, b) + (('map',) if mp and 'SkipMap' not in c.fn else ())))
    lo(st, 0)
    return out
@cw('union', 'intersection', 'difference', 'symmetric_difference', 'is_subset', 'is_superset', 'is_disjoint')
def v_setop(it, st, c, cell, proj, v):
    ps = places(it, st, c.args[1])
    w = it.load(st, *ps[0]) if len(ps) == 1 else None
    if w is None or not xs(w): return None
    A = [(ref(cell, proj, i), e) for i, e in enumerate(v[1])]; B = [(ref(ps[0][0], ps[0][1], i), e) for i, e in enumerate(w[1])]
    def has(s, e, others):
        out = []
        def go(s, i):
            if i == len(others): out.append((s, False)); return
            for s2, t in xeq(it, s, e, others[i][1], c):
                if t: out.append((s2, True))
                else: go(s2, i + 1)
        go(s, 0)
        return out
    def sel(s, src, others, want, acc, k):
        if not src: k(s, acc); return
        for s2, t in has(s, src[0][1], others): sel(s2, src[1:], others, want, acc + ([src[0]] if t == want else []), k)
    res = []
    n = c.short
    def merge(s, a, b):
        """in order for BTreeSet"""
        if not X.ordered(c): res.append((s, ('it', 'xlist', tuple(r for r, _ in a + b)))); return
        def go(s, x, y, acc):
            if not x or not y: res.append((s, ('it', 'xlist', tuple(r for r, _ in acc + x + y)))); return
            for s2, r in xcmp(it, s, x[0][1], y[0][1], c):
                if r == '>': go(s2, x, y[1:], acc + [y[0]])
                else: go(s2, x[1:], y, acc + [x[0]])
        go(s, a, b, [])
    if n == 'union': sel(st, B, A, False, [], lambda s, b: merge(s, A, b))
    elif n == 'symmetric_difference': sel(st, A, B, False, [], lambda s, a: sel(s, B, A, False, [], lambda s2, b: merge(s2, a, b)))
    elif n in ('intersection', 'difference'): sel(st, A, B, n == 'intersection', [], lambda s, a: res.append((s, ('it', 'xlist', tuple(r for r, _ in a)))))
    elif n == 'is_disjoint': sel(st, A, B, True, [], lambda s, a: res.append((s, boolv(not a))))
    elif n == 'is_subset': sel(st, A, B, False, [], lambda s, a: res.append((s, boolv(not a))))
    else: sel(st, B, A, False, [], lambda s, b: res.append((s, boolv(not b))))
    return res

# ---- Option / Result
def rmodel(n, f): over([n], f)
def res(it, st, v): return it.split(st, v, RESULT)
R = 'core::result::Result::<T, E>::'
def r_map_or_else(it, st, c):
    out = []
    for s, vi, v in res(it, st, c.args[0]): out += call(it, s, c, c.args[2] if vi == 0 else c.args[1], v[3][0])
    return out
rmodel(R + 'map_or_else', r_map_or_else)
rmodel(R + 'is_err_and', lambda it, st, c: [x for s, vi, v in res(it, st, c.args[0]) for x in ([(s, FALSE)] if vi == 0 else [(s2, boolv(t)) for s2, t in truths(it, s, c, c.args[1], v[3][0])])])
rmodel(R + 'and', lambda it, st, c: [(s, c.args[1] if vi == 0 else v) for s, vi, v in res(it, st, c.args[0])])
rmodel(R + 'or', lambda it, st, c: [(s, v if vi == 0 else c.args[1]) for s, vi, v in res(it, st, c.args[0])])
rmodel('core::option::Option::<T>::and', lambda it, st, c: [(s, c.args[1] if vi == 1 else v) for s, vi, v in opt(it, st, c.args[0])])
def r_inspect(it, st, c):
    out = []
    adt = OPTION if 'option' in c.fn else RESULT
    hit = 1 if adt == OPTION or c.short == 'inspect_err' else 0
    for s, vi, v in it.split(st, c.args[0], adt):
        if vi != hit: out.append((s, v)); continue
        out += [(s2, v) for s2, _ in call(it, s, c, c.args[1], it.tmp(s, c.frame, ('insp', c.bb), v[3][0]))]
    return out
rmodel(R + 'inspect', r_inspect); rmodel(R + 'inspect_err', r_inspect); rmodel('core::option::Option::<T>::inspect', r_inspect)
for _n in ('copied', 'cloned'):
    for _t in ("core::result::Result::<&T, E>::", "core::result::Result::<&mut T, E>::"):
        rmodel(_t + _n, lambda it, st, c: [(s, ok(it.rd(s, v[3][0])) if vi == 0 else v) for s, vi, v in res(it, st, c.args[0])])
def r_iter(it, st, c):
    ps = places(it, st, c.args[0])
    v = it.load(st, *ps[0]) if len(ps) == 1 else None
    if v is None or v[0] != 'e': return None
    hit = (v[2] == 0) if v[1] == RESULT else (v[2] == 1)
    return [(st, ('it', 'xlist', (('r', ps[0][0], ps[0][1] + (('v', v[2], it.vname(v[1], v[2])), ('f', 0, '0'))),) if hit else ()))]
for _n in ('iter', 'iter_mut'): rmodel(R + _n, r_iter); rmodel('core::option::Option::<T>::' + _n, lambda it, st, c: r_iter(it, st, c) if exact_on(it) else None)
def o_take_if(it, st, c):
    ps = places(it, st, c.args[0])
    v = it.load(st, *ps[0]) if len(ps) == 1 else None
    if v is None: return None
    out = []
    for s, vi, w in opt(it, st, v):
        if vi == 0: out.append((s, NONE)); continue
        it.store(s, ps[0][0], ps[0][1], w)
        for s2, t in truths(it, s, c, c.args[1], ('r', ps[0][0], ps[0][1] + (('v', 1, 'Some'), ('f', 0, '0')))):
            if t:
                w2 = it.load(s2, *ps[0]); it.store(s2, ps[0][0], ps[0][1], NONE); out.append((s2, w2))
            else: out.append((s2, NONE))
    return out
rmodel('core::option::Option::<T>::take_if', o_take_if)
rmodel('core::option::Option::<(T, U)>::unzip', lambda it, st, c: [(s, ('t', (some(it.get(v[3][0], ('f', 0, '0'))), some(it.get(v[3][0], ('f', 1, '1'))))) if vi else ('t', (NONE, NONE))) for s, vi, v in opt(it, st, c.args[0])])
rmodel('core::result::Result::<core::result::Result<T, E>, E>::flatten', lambda it, st, c: [(s, v[3][0] if vi == 0 else v) for s, vi, v in res(it, st, c.args[0])])

# ---- ranges
def rg(it, st, c):
    r = it.deepval(st, c.args[0])
    if r[0] != 'e': return None
    k = r[1].rsplit('::', 1)[-1]
    if c.short == 'is_empty':
        out = []
        for s, x in xcmp(it, st, r[3][0], r[3][1], c): out.append((s, boolv(x == '>' if k == 'RangeInclusive' else x in '>=')))
        return out
    v = c.args[1]
    lo = {'Range': 0, 'RangeFrom': 0, 'RangeInclusive': 0}.get(k); hi = {'Range': 1, 'RangeTo': 0, 'RangeInclusive': 1, 'RangeToInclusive': 0}.get(k)
    out = []
    if lo is None and hi is None: return None
    for s, x in (xcmp(it, st, v, r[3][lo], c) if lo is not None else [(st, '>')]):
        if x == '<': out.append((s, FALSE)); continue
        for s2, y in (xcmp(it, s, v, r[3][hi], c) if hi is not None else [(s, '<')]): out.append((s2, boolv(y == '<' or y == '=' and 'Inclusive' in k)))
    return out
for _k in ('Range', 'RangeFrom', 'RangeTo', 'RangeInclusive', 'RangeToInclusive'):
    for _n in ('contains', 'is_empty'): over([f'core::ops::range::{_k}::<Idx>::{_n}'], rg)
over(['core::ops::range::RangeBounds::contains'], lambda it, st, c: rg(it, st, c) if c.body is None else None)
over(['core::ops::range::RangeInclusive::<Idx>::start', 'core::ops::range::RangeInclusive::<Idx>::end'], lambda it, st, c: (lambda r: [(st, it.tmp(st, c.frame, (c.short, c.bb), r[3][0 if c.short == 'start' else 1]))] if r[0] == 'e' else None)(it.rd(st, c.args[0])))

# ---- cells
CE = 'core::cell::Cell::<T>::'
over([CE + 'new'], lambda it, st, c: [(st, c.args[0])])
def cell_(it, st, c):
    ps = places(it, st, c.args[0])
    if len(ps) != 1 or ps[0][0][0] == 'o': return None
    v = it.load(st, *ps[0])
    if c.short == 'get': return [(st, v)]
    nv = c.args[1] if len(c.args) > 1 else M.default_of(it, c.ga[0])
    if c.short == 'update':
        out = []
        for s, r in call(it, st, c, c.args[1], v): it.store(s, ps[0][0], ps[0][1], r); out.append((s, UNIT))
        return out
    if nv is None: return None
    it.store(st, ps[0][0], ps[0][1], nv)
    return [(st, UNIT if c.short == 'set' else v)]
over([CE + n for n in ('get', 'set', 'replace', 'take', 'update')], cell_)

# ---- literal texts
def text(it, st, v):
    v = it.deepval(st, v)
    return v[1] if v[0] == 's' else None
def S(x): return ('s', x)
def matcher(it, st, c, a):
    """a pattern argument: (kind, data) with kind 'lit' (text), 'set' (characters), 'fn' (predicate on a character)"""
    v = it.deepval(st, a)
    if v[0] == 's': return ('lit', v[1])
    if v[0] == 'c': return ('lit', chr(v[1]))
    if v[0] == 'a' and all(x[0] == 'c' for x in v[1]): return ('set', {chr(x[1]) for x in v[1]})
    if v[0] in ('cl', 'fn'):
        return ('fn', a)
    return None
def occurrences(it, st, c, m, t):
    """[(start, end)] of the non-overlapping matches of the pattern in t, in order; None when not decided"""
    if m[0] == 'lit':
        if not m[1]: return None
        out, i = [], 0
        while (j := t.find(m[1], i)) >= 0: out.append((j, j + len(m[1]))); i = j + len(m[1])
        return out
    if m[0] == 'set': return [(i, i + 1) for i, ch in enumerate(t) if ch in m[1]]
    out = []
    for i, ch in enumerate(t):
        rs = truths(it, st.copy(), c, m[1], C(ord(ch)))
        if len({x for _, x in rs}) != 1: return None
        if rs[0][1]: out.append((i, i + 1))
    return out
def cut(t, occ):
    out, p = [], 0
    for a, b in occ: out.append(t[p:a]); p = b
    return out + [t[p:]]
def xlst(els): return ('it', 'own', ('a', tuple(els)))
def s_pat(it, st, c):
    t = text(it, st, c.args[0])
    if t is None or not t.isascii(): return None
    n = c.short
    lim = None
    pa = c.args[1]
    if n in ('splitn', 'rsplitn'):
        lim, pa = num(it, st, c.args[1]), c.args[2]
        if lim is None: return None
    m = matcher(it, st, c, pa)
    if m is None: return None
    occ = occurrences(it, st, c, m, t)
    if occ is None: return None
    R1 = lambda v: [(st, v)]
    if n in ('contains',): return R1(boolv(bool(occ)))
    if n == 'starts_with': return R1(boolv(bool(occ) and occ[0][0] == 0))
    if n == 'ends_with': return R1(boolv(bool(occ) and occ[-1][1] == len(t)) if m[0] != 'lit' else boolv(t.endswith(m[1])))
    if n == 'find': return R1(some(C(occ[0][0])) if occ else NONE)
    if n == 'rfind':
        if m[0] == 'lit': j = t.rfind(m[1]); return R1(some(C(j)) if j >= 0 else NONE)
        return R1(some(C(occ[-1][0])) if occ else NONE)
    rocc = occ if m[0] != 'lit' or len(m[1]) == 1 else None
    if n == 'split': return R1(xlst(S(x) for x in cut(t, occ)))
    if n == 'rsplit': return R1(xlst(S(x) for x in cut(t, rocc)[::-1])) if rocc is not None else None
    if n == 'splitn': return R1(xlst(S(x) for x in (cut(t, occ[:lim - 1]) if lim else [])))
    if n == 'rsplitn': return R1(xlst(S(x) for x in (cut(t, rocc[max(0, len(rocc) - lim + 1):])[::-1] if lim else []))) if rocc is not None else None
    if n == 'split_terminator':
        p = cut(t, occ)
        return R1(xlst(S(x) for x in (p[:-1] if p[-1] == '' else p)))
    if n == 'split_inclusive':
        p = cut(t, [(b, b) for _, b in occ])
        return R1(xlst(S(x) for x in (p[:-1] if p[-1] == '' else p)))
    if n == 'split_once': return R1(some(('t', (S(t[:occ[0][0]]), S(t[occ[0][1]:])))) if occ else NONE)
    if n == 'rsplit_once': return R1(some(('t', (S(t[:rocc[-1][0]]), S(t[rocc[-1][1]:])))) if rocc else NONE) if rocc is not None else None
    if n == 'matches': return R1(xlst(S(t[a:b]) for a, b in occ))
    if n == 'match_indices': return R1(xlst(('t', (C(a), S(t[a:b]))) for a, b in occ))
    if n in ('trim_matches', 'trim_start_matches', 'trim_end_matches'):
        if m[0] == 'lit': return None
        hits = {a for a, _ in occ}
        lo, hi = 0, len(t)
        if n != 'trim_end_matches':
            while lo < hi and lo in hits: lo += 1
        if n != 'trim_start_matches':
            while hi > lo and hi - 1 in hits: hi -= 1
        return R1(S(t[lo:hi]))
    if n in ('replace', 'replacen'):
        to = text(it, st, c.args[2])
        if to is None: return None
        if n == 'replacen':
            k = num(it, st, c.args[3])
            if k is None: return None
            occ = occ[:k]
        return R1(S(to.join(cut(t, occ))))
    if n == 'strip_prefix': return R1(some(S(t[occ[0][1]:])) if occ and occ[0][0] == 0 else NONE)
    if n == 'strip_suffix':
        hit = bool(occ) and occ[-1][1] == len(t)
        return R1(some(S(t[:occ[-1][0]])) if hit else NONE)
    return None
_SP = ['contains', 'starts_with', 'ends_with', 'find', 'rfind', 'split', 'rsplit', 'splitn', 'rsplitn', 'split_terminator', 'split_inclusive', 'split_once', 'rsplit_once', 'matches', 'match_indices',
       'trim_matches', 'trim_start_matches', 'trim_end_matches', 'replace', 'replacen', 'strip_prefix', 'strip_suffix']
for _n in _SP:
    for _b in ('core::str::<impl str>::', 'alloc::str::<impl str>::'):
        o = MODELS.get(_b + _n)
        MODELS[_b + _n] = (lambda o: lambda it, st, c: (o(it, st, c) if o else None) or s_pat(it, st, c))(o)
def s_seq(it, st, c):
    t = text(it, st, c.args[0])
    if t is None or not t.isascii(): return None
    n = c.short
    if n == 'bytes': return [(st, xlst(C(ord(x)) for x in t))]
    if n == 'char_indices': return [(st, xlst(('t', (C(i), C(ord(x)))) for i, x in enumerate(t)))]
    if n == 'lines':
        p = t.split('\n')
        if p[-1] == '': p.pop()
        return [(st, xlst(S(x.removesuffix('\r')) for x in p))]
    if n in ('split_whitespace', 'split_ascii_whitespace'): return [(st, xlst(S(x) for x in t.split()))]
    if n == 'is_char_boundary':
        k = num(it, st, c.args[1])
        return None if k is None else [(st, boolv(0 <= k <= len(t)))]
    if n == 'repeat':
        k = num(it, st, c.args[1])
        return None if k is None or k * len(t) > 4000 else [(st, S(t * k))]
    if n == 'split_at':
        k = num(it, st, c.args[1])
        return None if k is None else [] if k > len(t) else [(st, ('t', (S(t[:k]), S(t[k:]))))]
    if n == 'into_string' or n == 'into_boxed_str': return [(st, S(t))]
for _n in ('bytes', 'char_indices', 'lines', 'split_whitespace', 'split_ascii_whitespace', 'is_char_boundary', 'repeat', 'split_at', 'into_string'):
    over(['core::str::<impl str>::' + _n, 'alloc::str::<impl str>::' + _n], s_seq)
ST = 'alloc::string::String::'
over([ST + 'new'], lambda it, st, c: [(st, S(''))] if exact_on(it) else None)
over([ST + 'with_capacity'], lambda it, st, c: [(st, S(''))] if exact_on(it) else None)
def s_push(it, st, c):
    ps = places(it, st, c.args[0])
    if len(ps) != 1: return None
    v = it.load(st, *ps[0])
    if v is None or v[0] != 's': return None
    t = v[1]; n = c.short
    def done(x, r=UNIT): it.store(st, ps[0][0], ps[0][1], S(x)); return [(st, r)]
    a = [it.deepval(st, x) for x in c.args[1:]]
    if n == 'push': return done(t + chr(a[0][1])) if a[0][0] == 'c' else None
    if n in ('push_str', 'add_assign', 'write_str'): return done(t + a[0][1], ok(UNIT) if n == 'write_str' else UNIT) if a[0][0] == 's' else None
    if n == 'write_char': return done(t + chr(a[0][1]), ok(UNIT)) if a[0][0] == 'c' else None
    if n == 'clear': return done('')
    if n == 'pop': return done(t[:-1], some(C(ord(t[-1])))) if t else [(st, NONE)]
    if not t.isascii(): return None
    if n == 'truncate': return done(t[:a[0][1]]) if a[0][0] == 'c' else None
    if n == 'insert': return done(t[:a[0][1]] + chr(a[1][1]) + t[a[0][1]:]) if a[0][0] == 'c' and a[1][0] == 'c' else None
    if n == 'insert_str': return done(t[:a[0][1]] + a[1][1] + t[a[0][1]:]) if a[0][0] == 'c' and a[1][0] == 's' else None
    if n == 'remove': return done(t[:a[0][1]] + t[a[0][1] + 1:], C(ord(t[a[0][1]]))) if a[0][0] == 'c' and a[0][1] < len(t) else None
    if n == 'split_off': return done(t[:a[0][1]], S(t[a[0][1]:])) if a[0][0] == 'c' and a[0][1] <= len(t) else None
    return None
over([ST + n for n in ('push', 'push_str', 'clear', 'pop', 'truncate', 'insert', 'insert_str', 'remove', 'split_off')], s_push)
over(['core::fmt::Write::write_str', 'core::fmt::Write::write_char'], lambda it, st, c: s_push(it, st, c) if c.body is None else None)
def s_add(it, st, c):
    if c.body is not None or not c.ga or not tyname(it, c.ga[0]).endswith('String'): return None
    a, b = text(it, st, c.args[0]), text(it, st, c.args[1])
    return None if a is None or b is None else [(st, S(a + b))]
over(['core::ops::arith::Add::add'], s_add)
def lit(it, st, v, ty):
    """what Display shows of a known value of this type, with whether it is a number; None when unknown"""
    v = it.deepval(st, v)
    if v[0] == 's': return v[1], False
    if v[0] == 'c' and isinstance(v[1], int):
        if ty in BITS: return str(v[1]), True
        if ty == 'char': return chr(v[1]), False
        if ty == 'bool': return 'true' if v[1] else 'false', False
    return None
def s_tostring(it, st, c):
    if not exact_on(it) or not c.ga: return None
    r = lit(it, st, c.args[0], tyname(it, c.ga[0]))
    return [(st, S(r[0]))] if r is not None and c.body is None else None
over(['alloc::string::ToString::to_string'], s_tostring)
AN = "core::fmt::rt::Argument::<'_>::new_"
def f_arg(it, st, c):
    if not exact_on(it) or not c.ga: return None
    tys = [tyname(it, g) for g in c.ga if isinstance(g, int)]
    ty = tys[-1] if tys else ''
    n = c.short[4:]
    v = it.deepval(st, c.args[0])
    if n == 'display' and ty in ('char', 'bool') and v[0] == 'c': return [(st, mk(('call', c.fn, (S(lit(it, st, v, ty)[0]),))))]
    if n in ('lower_hex', 'upper_hex', 'binary', 'octal') and ty in BITS and v[0] == 'c':
        x = v[1] & ((1 << BITS[ty]) - 1)
        return [(st, mk(('call', c.fn, (C(x),))))]
    if n == 'debug' and ty in BITS and v[0] == 'c': return [(st, mk(('call', AN + 'display', (v,))))]
    return None
over([AN + n for n in ('display', 'lower_hex', 'upper_hex', 'binary', 'octal', 'debug')], f_arg)
def f_render(b, args):
    """the text a format template produces from known arguments, or None"""
    out, i, nxt = '', 0, 0
    try:
        while i < len(b):
            n = b[i]; i += 1
            if n == 0: return out
            if n < 0x80: out += b[i:i + n].decode('utf8'); i += n; continue
            if n == 0x80:
                ln = b[i] | b[i + 1] << 8; i += 2
                out += b[i:i + ln].decode('utf8'); i += ln; continue
            fl = w = pr = ix = None
            if n != 0xC0:
                if n & 1: fl = int.from_bytes(b[i:i + 4], 'little'); i += 4
                if n & 2: w = int.from_bytes(b[i:i + 2], 'little'); i += 2
                if n & 4: pr = int.from_bytes(b[i:i + 2], 'little'); i += 2
                if n & 8: ix = int.from_bytes(b[i:i + 2], 'little'); i += 2
                if n & 0x30 or pr is not None: return None
            if ix is not None: nxt = ix
            kind, v = args[nxt]; nxt += 1
            if v[0] == 's': t, isn = v[1], False
            elif kind == 'display': t, isn = str(v[1]), True
            else: t, isn = {'lower_hex': '%x', 'upper_hex': '%X', 'octal': '%o'}.get(kind, '') % v[1] if kind != 'binary' else bin(v[1])[2:], True
            if fl is not None:
                zero, alt, plus = fl >> 24 & 1, fl >> 23 & 1, fl >> 21 & 1
                al = fl >> 29 & 3
                fill = chr(fl & 0x1FFFFF)
            else: zero = alt = plus = 0; al = 3; fill = ' '
            if alt or plus: return None
            if w is not None and len(t) < w:
                pad = w - len(t)
                if zero and isn: t = ('-' + '0' * pad + t[1:]) if t.startswith('-') else '0' * pad + t
                else:
                    if al == 3: al = 1 if isn else 0
                    l = {0: 0, 1: pad, 2: pad // 2}[al]
                    t = fill * l + t + fill * (pad - l)
            out += t
    except (IndexError, UnicodeDecodeError, TypeError, KeyError): return None
    return out
def f_format(it, st, c):
    if not exact_on(it): return None
    a = it.deepval(st, c.args[0])
    if a[0] == 's': return [(st, a)]
    t = a[1] if a[0] == 'y' else None
    if t is None or t[0] != 'call': return None
    if 'from_str' in t[1] and t[2][0][0] == 's': return [(st, t[2][0])]
    if not t[1].endswith('::new') or len(t[2]) != 2 or t[2][0][0] != 'b' or t[2][1][0] != 'a': return None
    args = []
    for x in t[2][1][1]:
        if x[0] != 'y' or x[1][0] != 'call' or '::new_' not in x[1][1]: return None
        v = x[1][2][0]
        if v[0] not in 'cs': return None
        args.append((x[1][1].rsplit('new_', 1)[1], v))
    r = f_render(t[2][0][1], args)
    return [(st, S(r))] if r is not None else None
over(['alloc::fmt::format'], f_format)
CH = 'core::char::methods::<impl char>::'
def ch(it, st, c):
    n = num(it, st, c.args[0])
    if n is None: return None
    x = chr(n); k = c.short
    f = {'is_ascii_digit': lambda: '0' <= x <= '9', 'is_ascii_alphabetic': lambda: x.isascii() and x.isalpha(), 'is_ascii_alphanumeric': lambda: x.isascii() and x.isalnum(), 'is_ascii_uppercase': lambda: 'A' <= x <= 'Z',
         'is_ascii_lowercase': lambda: 'a' <= x <= 'z', 'is_ascii_hexdigit': lambda: x in '0123456789abcdefABCDEF', 'is_ascii': lambda: n < 128, 'is_ascii_punctuation': lambda: 33 <= n < 127 and not x.isalnum(),
         'is_ascii_whitespace': lambda: x in ' \t\n\r\x0c', 'is_ascii_control': lambda: n < 32 or n == 127, 'is_ascii_graphic': lambda: 33 <= n < 127}
    if n < 128: f |= {'is_numeric': lambda: x.isdigit(), 'is_alphabetic': lambda: x.isalpha(), 'is_alphanumeric': lambda: x.isalnum(), 'is_whitespace': lambda: x in ' \t\n\r\x0b\x0c', 'is_uppercase': lambda: x.isupper(), 'is_lowercase': lambda: x.islower(), 'is_control': lambda: n < 32 or n == 127}
    if k in f: return [(st, boolv(bool(f[k]())))]
    if k in ('is_digit', 'to_digit'):
        r = num(it, st, c.args[1])
        if r is None: return None
        d = int(x, 36) if x.isascii() and x.isalnum() else 99
        return [(st, boolv(d < r) if k == 'is_digit' else some(C(d)) if d < r else NONE)]
    if k in ('to_ascii_lowercase', 'to_ascii_uppercase'): return [(st, C(ord((x.lower() if 'lower' in k else x.upper()) if n < 128 else x)))]
    if k == 'len_utf8': return [(st, C(len(x.encode())))]
for _b in (CH, 'core::num::<impl u8>::'):
    over([_b + n for n in ('is_ascii_digit', 'is_ascii_alphabetic', 'is_ascii_alphanumeric', 'is_ascii_uppercase', 'is_ascii_lowercase', 'is_ascii_hexdigit', 'is_ascii', 'is_ascii_punctuation', 'is_ascii_whitespace',
         'is_ascii_control', 'is_ascii_graphic', 'to_ascii_lowercase', 'to_ascii_uppercase')], ch)
over([CH + n for n in ('is_numeric', 'is_alphabetic', 'is_alphanumeric', 'is_whitespace', 'is_uppercase', 'is_lowercase', 'is_control', 'is_digit', 'to_digit', 'len_utf8')], ch)

# ---- locks and cells taken apart, bounds, atomics on known values
over(['core::cell::RefCell::<T>::into_inner', 'core::cell::RefCell::<T>::get_mut', 'core::cell::Cell::<T>::into_inner'], lambda it, st, c: [(st, c.args[0])])
over(['core::cell::RefCell::<T>::replace', 'core::cell::RefCell::<T>::take'], cell_)
def b_map(it, st, c):
    out = []
    for s, vi, v in it.split(st, c.args[0], BOUND):
        if not v[3]: out.append((s, v)); continue
        out += [(s2, ('e', BOUND, vi, (r,))) for s2, r in call(it, s, c, c.args[1], v[3][0])]
    return out
over(['core::ops::range::Bound::<T>::map'], b_map)
def s_write_fmt(it, st, c):
    if c.body is not None: return None
    ps = places(it, st, c.args[0])
    if len(ps) != 1: return None
    v = it.load(st, *ps[0])
    if v is not None and v[0] == 'r': ps = [(v[1], v[2])]; v = it.load(st, *ps[0])
    if v is None or v[0] != 's': return None
    class D: pass
    d = D(); d.args = [c.args[1]]
    r = f_format(it, st, d)
    if r is None: return None
    it.store(st, ps[0][0], ps[0][1], S(v[1] + r[0][1][1])); return [(st, ok(UNIT))]
over(['core::fmt::Write::write_fmt', 'std::io::Write::write_fmt'], s_write_fmt)
def a_cas(it, st, c):
    if not exact_on(it): return None
    ps = places(it, st, c.args[0])
    v = it.load(st, *ps[0]) if len(ps) == 1 else None
    if v is None: return None
    out = []
    for s, t in xeq(it, st, v, c.args[1], c):
        if t: it.store(s, ps[0][0], ps[0][1], c.args[2]); it.q.on_write(it, s, ps[0][0], ps[0][1], c.args[2], (c.frame, c.bb))
        out.append((s, ok(v) if t else err(v)))
    return out
def a_upd(it, st, c):
    """fetch_update / try_update / update without interference"""
    if not exact_on(it): return None
    ps = places(it, st, c.args[0])
    v = it.load(st, *ps[0]) if len(ps) == 1 else None
    if v is None: return None
    out = []
    for s, r in call(it, st, c, c.args[3], v):
        if c.short == 'update':
            it.store(s, ps[0][0], ps[0][1], r); it.q.on_write(it, s, ps[0][0], ps[0][1], r, (c.frame, c.bb)); out.append((s, v)); continue
        for s2, vi, w in opt(it, s, r):
            if vi: it.store(s2, ps[0][0], ps[0][1], w[3][0]); it.q.on_write(it, s2, ps[0][0], ps[0][1], w[3][0], (c.frame, c.bb))
            out.append((s2, ok(v) if vi else err(v)))
    return out
for _t in ('u8', 'u16', 'u32', 'u64', 'usize', 'i64', 'i32', 'bool'):
    A = f'core::sync::atomic::Atomic::<{_t}>::'
    over([A + 'compare_exchange', A + 'compare_exchange_weak'], a_cas)
    over([A + 'fetch_update', A + 'try_update', A + 'update'], a_upd)
    if A + 'new' not in MODELS: over([A + 'new'], lambda it, st, c: [(st, c.args[0])])
    if _t not in ('bool', 'u64', 'usize', 'u32'):
        for _n in ('load', 'store', 'swap', 'fetch_add', 'fetch_sub', 'fetch_max', 'fetch_min'): over([A + _n], MODELS['core::sync::atomic::Atomic::<u64>::' + _n])
def a_bits(it, st, c):
    ps = places(it, st, c.args[0])
    v = it.load(st, *ps[0]) if len(ps) == 1 else None
    if v is None: return None
    rs = it.binop(st, {'and': 'BitAnd', 'or': 'BitOr', 'xor': 'BitXor'}[c.short[6:]], v, c.args[1])
    for s, r in rs: it.store(s, ps[0][0], ps[0][1], r); it.q.on_write(it, s, ps[0][0], ps[0][1], r, (c.frame, c.bb))
    return [(s, v) for s, _ in rs]
for _t in ('bool', 'u32', 'u64', 'usize'): over([f'core::sync::atomic::Atomic::<{_t}>::fetch_{n}' for n in ('and', 'or', 'xor')], a_bits)
# ---- set once
OC = ('std::sync::once_lock::OnceLock::<T>::', 'core::cell::once::OnceCell::<T>::')
def once(it, st, c):
    if not exact_on(it): return None
    n = c.short
    if n == 'new': return [(st, NONE)]
    if n == 'into_inner': return [(st, c.args[0])]
    ps = places(it, st, c.args[0])
    v = it.load(st, *ps[0]) if len(ps) == 1 else None
    if v is None or v[0] not in ('e', 'u'): return None
    here = ('r', ps[0][0], ps[0][1] + (('v', 1, 'Some'), ('f', 0, '0')))
    out = []
    for s, vi, w in opt(it, st, v):
        it.store(s, ps[0][0], ps[0][1], w)
        if n in ('get', 'get_mut'): out.append((s, some(here) if vi else NONE))
        elif n == 'set':
            if not vi: it.store(s, ps[0][0], ps[0][1], some(c.args[1]))
            out.append((s, err(c.args[1]) if vi else ok(UNIT)))
        elif n == 'take':
            it.store(s, ps[0][0], ps[0][1], NONE); out.append((s, w))
        elif n == 'get_or_init':
            if vi: out.append((s, here)); continue
            for s2, r in call(it, s, c, c.args[1]): it.store(s2, ps[0][0], ps[0][1], some(r)); out.append((s2, here))
        else: return None
    return out
for _b in OC: over([_b + n for n in ('new', 'get', 'get_mut', 'set', 'take', 'get_or_init', 'into_inner')], once)
