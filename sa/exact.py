"""Exact short sequences: when a collection is known element by element (value ('a', elems)), operations on it keep the
elements and their order apart instead of summarising them.  Enabled for new collections by Query.exact."""
from absint import *
import models as M
from models import MODELS, places, one_place, opt, IT, is_map, into_iter, src_iter, RANGE

LIM = 12
LONG = 70   # elements followed of a sequence that is known anyway
XK = {}     # further iterator kinds: name -> (is exact, next)
def xs(v): return v is not None and v[0] == 'a'

def get1(it, st, c, i=0):
    """forks over alternatives of the collection at argument i: [(state, cell, proj, value)]"""
    ps = places(it, st, c.args[i])
    if not ps:
        r = it.tmp(st, c.frame, ('arg', c.bb, i), c.args[i]); ps = [(r[1], r[2])]
    cell, proj = ps[0]
    v = it.load(st, cell, proj)
    if v is None: return []
    if v[0] == 'u' and any(x[0] == 'a' for x in v[1]):
        out = []
        for x in v[1]:
            s = st.copy(); it.store(s, cell, proj, x); out.append((s, cell, proj, x))
        return out
    return [(st, cell, proj, v)]

def wrapx(names, f):
    for n in names:
        old = MODELS.get(n)
        def g(it, st, c, old=old):
            out = []
            for s, cell, proj, v in get1(it, st, c):
                r = f(it, s, c, cell, proj, v) if xs(v) else None
                if r is None:
                    r = old(it, s, c) if old is not None else None
                    if r is None: return None
                elif c.short in SHRINK:
                    for s2, _ in r:
                        w = it.load(s2, cell, proj)
                        if xs(w): s2.setg(('xl', cell, proj), len(w[1]))
                out += r
            return out
        MODELS[n] = g
SHRINK = ('push', 'push_back', 'push_front', 'pop', 'pop_back', 'pop_front', 'pop_first', 'pop_last', 'truncate', 'remove', 'swap_remove')
def cw(*shorts):
    def d(f):
        wrapx([p + s for p in M.CT for s in shorts], f)
        return f
    return d

def mapish(c): return is_map(c)
def setish(c): return 'Set::' in c.fn or 'Set<' in c.fn
def ordered(c): return 'BTree' in c.fn
def heapish(c): return 'BinaryHeap' in c.fn

for p in M.CT:
    for s in ('new', 'with_capacity'):
        old = MODELS.get(p + s)
        if old is None or 'slice' in p: continue
        def g(it, st, c, old=old):
            if getattr(it.q, 'exact', False): return [(st, ('a', ()))]
            return old(it, st, c)
        MODELS[p + s] = g
_olddef = M.default_of
def default_of(it, ti):
    v = _olddef(it, ti)
    if getattr(it.q, 'exact', False) and v is not None and v[0] == 'coll' and v[1] is None: return ('a', ())
    return v
M.default_of = default_of

# ---- ordering of values
def xcmp(it, st, a, b, c):
    """three-way comparison of two values: [(state, '<' | '=' | '>')]"""
    av, bv = it.rd(st, a), it.rd(st, b)
    if av[0] == 'e' and bv[0] == 'e' and av[1] == bv[1]:
        if av[1].endswith('cmp::Reverse'):
            return [(s, FLIP[r]) for s, r in xcmp(it, st, av[3][0], bv[3][0], c)]
        for ti, fn in it.F.trait_impls.get(('core::cmp::Ord', 'cmp'), []):
            if it.F.types[ti].get('n') == av[1]:
                body = it.F.bodies.get(fn)
                if body is None: break
                ra = a if a[0] == 'r' else it.tmp(st, c.frame, ('xa', c.bb), av)
                rb = b if b[0] == 'r' else it.tmp(st, c.frame, ('xb', c.bb), bv)
                out = []
                for s, o in it.inline(st, body, [ra, rb], c.frame, c.bb):
                    for s2, vi, _ in it.split(s, o, ORDERING): out.append((s2, '<=>'[vi]))
                return out
    x, y = it.norm(it.deepval(st, av)), it.norm(it.deepval(st, bv))
    rs = it.rel(st, x, y)
    out = []
    for r in sorted(rs):
        s = st.copy() if len(rs) > 1 else st
        if len(rs) > 1: it.learn_rel(s, x, y, frozenset(r))
        out.append((s, r))
    return out

def xeq(it, st, a, b, c):
    """[(state, bool)]"""
    av, bv = it.rd(st, a), it.rd(st, b)
    if av == bv: return [(st, True)]
    if av[0] == 'e' and av[1].startswith('crate::') and bv[0] == 'e' and av[1] == bv[1]:
        x, y = it.deepval(st, av), it.deepval(st, bv)
        if x == y: return [(st, True)]
    return [(s, r == '=') for s, r in xcmp(it, st, a, b, c)]

# ---- vec-like
@cw('push', 'push_back')
def x_push(it, st, c, cell, proj, v):
    if len(v[1]) >= LIM: return None
    it.store(st, cell, proj, ('a', v[1] + (c.args[1],))); return [(st, UNIT)]
@cw('push_front')
def x_pushf(it, st, c, cell, proj, v):
    it.store(st, cell, proj, ('a', (c.args[1],) + v[1])); return [(st, UNIT)]
def find_key(it, st, c, els, key, getk):
    """[(state, index | None, insert position)]"""
    out = []
    def go(s, i):
        if i == len(els): out.append((s, None, len(els))); return
        if ordered(c):
            for s2, r in xcmp(it, s, key, getk(els[i]), c):
                if r == '=': out.append((s2, i, i))
                elif r == '<': out.append((s2, None, i))
                else: go(s2, i + 1)
        else:
            for s2, r in xeq(it, s, key, getk(els[i]), c):
                if r: out.append((s2, i, i))
                else: go(s2, i + 1)
    go(st, 0)
    return out
@cw('insert')
def x_insert(it, st, c, cell, proj, v):
    els = v[1]
    if mapish(c):
        out = []
        for s, i, pos in find_key(it, st, c, els, c.args[1], lambda e: e[1][0]):
            if i is None:
                it.store(s, cell, proj, ('a', els[:pos] + (('t', (c.args[1], c.args[2])),) + els[pos:])); out.append((s, NONE))
            else:
                it.store(s, cell, proj, ('a', els[:i] + (('t', (els[i][1][0], c.args[2])),) + els[i + 1:])); out.append((s, some(els[i][1][1])))
        return out
    if setish(c):
        out = []
        for s, i, pos in find_key(it, st, c, els, c.args[1], lambda e: e):
            if i is None:
                it.store(s, cell, proj, ('a', els[:pos] + (c.args[1],) + els[pos:])); out.append((s, TRUE))
            else: out.append((s, FALSE))
        return out
    i = c.args[1]
    if i[0] == 'c' and i[1] <= len(els):
        it.store(st, cell, proj, ('a', els[:i[1]] + (c.args[2],) + els[i[1]:])); return [(st, UNIT)]
    return None
@cw('pop', 'pop_back', 'pop_last')
def x_pop(it, st, c, cell, proj, v):
    if not v[1]: return [(st, NONE)]
    if heapish(c):
        out = []
        for s, i in xmax(it, st, c, cell, proj, v[1]):
            it.store(s, cell, proj, ('a', v[1][:i] + v[1][i + 1:])); out.append((s, some(v[1][i])))
        return out
    it.store(st, cell, proj, ('a', v[1][:-1]))
    e = v[1][-1]
    return [(st, some(e))]
def xmax(it, st, c, cell, proj, els):
    """index of a maximal element (binary heap): [(state, index)]"""
    res = []
    def go(s, i, best):
        if i == len(els): res.append((s, best)); return
        for s2, r in xcmp(it, s, ('r', cell, proj + (('ci', i, False),)), ('r', cell, proj + (('ci', best, False),)), c):
            go(s2, i + 1, i if r == '>' else best)
    go(st, 1, 0)
    return res
@cw('peek', 'peek_mut')
def x_peek(it, st, c, cell, proj, v):
    if not v[1]: return [(st, NONE)]
    if heapish(c):
        return [(s, some(('r', cell, proj + (('ci', i, False),)))) for s, i in xmax(it, st, c, cell, proj, v[1])]
    return None
@cw('pop_front', 'pop_first')
def x_popf(it, st, c, cell, proj, v):
    if not v[1]: return [(st, NONE)]
    it.store(st, cell, proj, ('a', v[1][1:])); return [(st, some(v[1][0]))]
def ref(cell, proj, i, mp=False):
    r = ('r', cell, proj + (('ci', i, False),))
    if mp: return ('t', (('r', r[1], r[2] + (('f', 0, '0'),)), ('r', r[1], r[2] + (('f', 1, '1'),))))
    return r
@cw('first', 'front', 'first_mut', 'front_mut', 'first_key_value')
def x_first(it, st, c, cell, proj, v):
    return [(st, NONE if not v[1] else some(ref(cell, proj, 0, 'key_value' in c.short)))]
@cw('last', 'back', 'last_mut', 'back_mut', 'last_key_value')
def x_last(it, st, c, cell, proj, v):
    return [(st, NONE if not v[1] else some(ref(cell, proj, len(v[1]) - 1, 'key_value' in c.short)))]
@cw('get', 'get_mut')
def x_get(it, st, c, cell, proj, v):
    if mapish(c) or setish(c):
        mp = mapish(c)
        out = []
        for s, i, pos in find_key(it, st, c, v[1], c.args[1], (lambda e: e[1][0]) if mp else (lambda e: e)):
            r = ('r', cell, proj + (('ci', i, False),) + ((('f', 1, '1'),) if mp else ())) if i is not None else None
            out.append((s, NONE if i is None else some(r)))
        return out
    i = it.rd(st, c.args[1])
    if i[0] == 'c': return [(st, some(ref(cell, proj, i[1])) if i[1] < len(v[1]) else NONE)]
    return None
@cw('contains', 'contains_key')
def x_contains(it, st, c, cell, proj, v):
    mp = mapish(c)
    return [(s, boolv(i is not None)) for s, i, _ in find_key(it, st, c, v[1], c.args[1], (lambda e: e[1][0]) if mp else (lambda e: e))]
@cw('remove', 'swap_remove')
def x_remove(it, st, c, cell, proj, v):
    els = v[1]
    if mapish(c) or setish(c):
        mp = mapish(c)
        out = []
        for s, i, _ in find_key(it, st, c, els, c.args[1], (lambda e: e[1][0]) if mp else (lambda e: e)):
            if i is not None: it.store(s, cell, proj, ('a', els[:i] + els[i + 1:]))
            out.append((s, (NONE if i is None else some(els[i][1][1])) if mp else boolv(i is not None)))
        return out
    i = it.rd(st, c.args[1])
    if i[0] == 'c' and i[1] < len(els):
        it.store(st, cell, proj, ('a', els[:i[1]] + els[i[1] + 1:]))
        return [(st, some(els[i[1]]) if 'VecDeque' in c.fn else els[i[1]])]
    return None
@cw('truncate')
def x_trunc(it, st, c, cell, proj, v):
    n = c.args[1]
    if n[0] != 'c': return None
    it.store(st, cell, proj, ('a', v[1][:n[1]])); return [(st, UNIT)]
@cw('clear')
def x_clear(it, st, c, cell, proj, v):
    it.store(st, cell, proj, ('a', ())); return [(st, UNIT)]
@cw('reverse')
def x_reverse(it, st, c, cell, proj, v):
    it.store(st, cell, proj, ('a', v[1][::-1])); return [(st, UNIT)]
@cw('sort', 'sort_unstable', 'sort_by', 'sort_unstable_by', 'sort_by_key', 'sort_unstable_by_key', 'sort_by_cached_key')
def x_sort(it, st, c, cell, proj, v):
    els = v[1]
    key = 'key' in c.short; by = '_by' in c.short and not key
    def less(s, a, b):
        """[(state, a > b)]"""
        if by:
            ra, rb = it.tmp(s, c.frame, ('sa', c.bb), a), it.tmp(s, c.frame, ('sb', c.bb), b)
            out = []
            for s2, o in it.call_value(s, c.args[1], [ra, rb], c.frame, c.bb):
                for s3, vi, _ in it.split(s2, o, ORDERING): out.append((s3, vi == 2))
            return out
        if key:
            out = []
            ra = it.tmp(s, c.frame, ('sa', c.bb), a)
            for s2, ka in it.call_value(s, c.args[1], [ra], c.frame, c.bb):
                ka = it.deepval(s2, ka)
                rb = it.tmp(s2, c.frame, ('sb', c.bb), b)
                for s3, kb in it.call_value(s2, c.args[1], [rb], c.frame, c.bb):
                    out += [(s4, r == '>') for s4, r in xcmp(it, s3, ka, it.deepval(s3, kb), c)]
            return out
        return [(s2, r == '>') for s2, r in xcmp(it, s, a, b, c)]
    res = []
    def ins(s, done, x, j, rest):
        # insert x into done[:j]
        if j == 0: nxt(s, (x,) + done, rest); return
        for s2, gt in less(s, done[j - 1], x):
            if gt: ins(s2, done, x, j - 1, rest)
            else: nxt(s2, done[:j] + (x,) + done[j:], rest)
    def ins0(s, done, x, rest):
        def go(s, j):
            if j == 0: nxt(s, (x,) + done, rest); return
            for s2, gt in less(s, done[j - 1], x):
                if gt: go(s2, j - 1)
                else: nxt(s2, done[:j] + (x,) + done[j:], rest)
        go(s, len(done))
    def nxt(s, done, rest):
        if not rest:
            it.store(s, cell, proj, ('a', done)); res.append((s, UNIT)); return
        ins0(s, done, rest[0], rest[1:])
    nxt(st, (), els)
    return res
@cw('dedup')
def x_dedup(it, st, c, cell, proj, v):
    els = v[1]
    res = []
    def go(s, out, i):
        if i == len(els): it.store(s, cell, proj, ('a', out)); res.append((s, UNIT)); return
        if not out: go(s, (els[i],), i + 1); return
        for s2, e in xeq(it, s, out[-1], els[i], c): go(s2, out if e else out + (els[i],), i + 1)
    go(st, (), 0)
    return res
@cw('dedup_by_key', 'dedup_by')
def x_dedupk(it, st, c, cell, proj, v):
    n = len(v[1])
    res = []
    def go(s, keep, i):
        if i == n:
            w = it.load(s, cell, proj)

            it.store(s, cell, proj, ('a', tuple(w[1][j] for j in keep))); res.append((s, UNIT)); return
        if not keep: go(s, [i], i + 1); return
        a, b = ref(cell, proj, i), ref(cell, proj, keep[-1])
        if c.short == 'dedup_by':
            rs = [(s3, t) for s2, x in it.call_value(s, c.args[1], [a, b], c.frame, c.bb) for s3, t in it.truth(s2, x)]
        else:
            rs = [(s4, e) for s2, x in it.call_value(s, c.args[1], [a], c.frame, c.bb) for s3, y in it.call_value(s2, c.args[1], [b], c.frame, c.bb) for s4, e in xeq(it, s3, x, y, c)]
        for s2, e in rs: go(s2, keep if e else keep + [i], i + 1)
    go(st, [], 0)
    return res
def x_resize(it, st, c):
    if not it.q.exact: return None
    n = c.args[1]
    res = []
    for s, cell, proj, v in get1(it, st, c):
        if v[0] == 'coll' and v[2] == 'empty': v = ('a', ())
        if not xs(v) or n[0] != 'c' or n[1] > LIM: return None
        def go(s, els):
            if len(els) >= n[1]: it.store(s, cell, proj, ('a', els[:n[1]])); res.append((s, UNIT)); return
            if c.short == 'resize': go(s, els + (c.args[2],)); return
            for s2, e in it.call_value(s, c.args[2], [], c.frame, c.bb): go(s2, els + (e,))
        go(s, v[1])
    return res
for _p in M.CT:
    for _n in ('resize_with', 'resize'):
        _o = MODELS.get(_p + _n)
        MODELS[_p + _n] = (lambda o: lambda it, st, c: x_resize(it, st, c) or (o(it, st, c) if o else None))(_o)
@cw('retain')
def x_retain(it, st, c, cell, proj, v):
    mp = mapish(c)
    res = []
    n = len(v[1])
    def go(s, keep, i):
        if i == n:
            w = it.load(s, cell, proj)
            if not xs(w) or len(w[1]) != n: w = v
            it.store(s, cell, proj, ('a', tuple(w[1][j] for j in keep))); res.append((s, UNIT)); return
        a = ref(cell, proj, i, mp)
        for s2, b in it.call_value(s, c.args[1], list(a[1]) if mp else [a], c.frame, c.bb):
            tr = it.truth(s2, b)
            for s3, t in tr: go(s3, keep + [i] if t else keep, i + 1)
    go(st, [], 0)
    return res
@cw('extend_from_slice', 'append')
def x_extend(it, st, c, cell, proj, v):
    src = it.rd(st, c.args[1])
    if src[0] == 'y' and src[1][0] == 'le': return None
    if not xs(src) or len(src[1]) + len(v[1]) > LIM: return None
    it.store(st, cell, proj, ('a', v[1] + src[1]))
    if c.short == 'append':
        cc, pp = one_place(it, st, c, 1); it.store(st, cc, pp, ('a', ()))
    return [(st, UNIT)]
HENTRY, BENTRY = 'std::collections::hash::map::Entry', 'alloc::collections::btree::map::entry::Entry'
@cw('entry')
def x_entry(it, st, c, cell, proj, v):
    if not mapish(c): return None
    b = ordered(c)
    out = []
    for s, i, pos in find_key(it, st, c, v[1], c.args[1], lambda e: e[1][0]):
        occ = i is not None
        out.append((s, ('e', BENTRY if b else HENTRY, int(occ) if b else int(not occ), (('it', 'xocc' if occ else 'xvac', cell, proj, c.args[1], i if occ else pos),))))
    return out
def _ent(it, st, v):
    for _ in range(3):
        if v[0] == 'r': v = it.rd(st, v)
        if v[0] == 'e' and v[1] in (HENTRY, BENTRY): v = v[3][0]
    return v if v[0] == 'it' and v[1] in ('xocc', 'xvac') else None
def _put(it, s, e, x):
    _, _, cell, proj, key, pos = e
    w = it.load(s, cell, proj)[1]
    it.store(s, cell, proj, ('a', w[:pos] + (('t', (key, x)),) + w[pos:]))
    return ('r', cell, proj + (('ci', pos, False), ('f', 1, '1')))
def x_ent(it, st, c):
    if not getattr(it.q, 'exact', False) or not c.args: return None
    e = _ent(it, st, c.args[0])
    if e is None: return None
    _, k, cell, proj, key, pos = e
    n = c.short
    if n == 'key': return [(st, it.tmp(st, c.frame, ('ek', c.bb), key))]
    if k == 'xocc':
        r = ('r', cell, proj + (('ci', pos, False), ('f', 1, '1')))
        if n in ('or_default', 'or_insert', 'or_insert_with', 'or_insert_with_key', 'get', 'get_mut', 'into_mut'): return [(st, r)]
        if n == 'insert':
            old = it.load(st, cell, r[2]); it.store(st, cell, r[2], c.args[1]); return [(st, old)]
        if n in ('remove', 'remove_entry'):
            w = it.load(st, cell, proj)[1]; it.store(st, cell, proj, ('a', w[:pos] + w[pos + 1:])); return [(st, w[pos][1][1] if n == 'remove' else w[pos])]
        if n == 'and_modify': return [(s, c.args[0]) for s, _ in it.call_value(st, c.args[1], [r], c.frame, c.bb)]
        if n == 'insert_entry': it.store(st, cell, r[2], c.args[1]); return [(st, e)]
        return None
    if n == 'and_modify': return [(st, c.args[0])]
    if n == 'into_key': return [(st, key)]
    if n == 'or_default': vals = [(st, M.default_of(it, c.ga[1] if len(c.ga) > 1 else c.ga[0]))]
    elif n in ('or_insert', 'insert'): vals = [(st, c.args[1])]
    elif n == 'or_insert_with': vals = M.call(it, st, c, c.args[1])
    elif n == 'or_insert_with_key': vals = it.call_value(st, c.args[1], [it.tmp(st, c.frame, ('ek', c.bb), key)], c.frame, c.bb)
    elif n == 'insert_entry': _put(it, st, e, c.args[1]); return [(st, ('it', 'xocc', cell, proj, key, pos))]
    else: return None
    return [(s, _put(it, s, e, x)) for s, x in vals]
def _wrap_entry():
    for base, ga in ((HENTRY, "K, V"), (BENTRY, "K, V, A"), (HENTRY, "K, V, A"), (BENTRY, "K, V")):
        for t in ('Entry', 'OccupiedEntry', 'VacantEntry'):
            for m in ('or_default', 'or_insert', 'or_insert_with', 'or_insert_with_key', 'and_modify', 'key', 'get', 'get_mut', 'into_mut', 'insert', 'remove', 'remove_entry', 'into_key', 'insert_entry'):
                n = f"{base[:-5]}{t}::<'a, {ga}>::{m}"
                old = MODELS.get(n)
                MODELS[n] = lambda it, st, c, old=old: x_ent(it, st, c) or (old(it, st, c) if old else None)
_wrap_entry()
@cw('drain')
def x_drain(it, st, c, cell, proj, v):
    r = c.args[1] if len(c.args) > 1 else None
    if r is None or 'RangeFull' in M.path_s(it, c) or r[0] == 'e' and r[1].endswith('RangeFull'): lo, hi = 0, len(v[1])
    elif r[0] == 'e' and r[1].endswith('RangeTo') and r[3][0][0] == 'c': lo, hi = 0, r[3][0][1]
    elif r[0] == 'e' and r[1].endswith('RangeFrom') and r[3][0][0] == 'c': lo, hi = r[3][0][1], len(v[1])
    elif r[0] == 'e' and r[1] == RANGE and r[3][0][0] == 'c' and r[3][1][0] == 'c': lo, hi = r[3][0][1], r[3][1][1]
    else: return None
    it.store(st, cell, proj, ('a', v[1][:lo] + v[1][hi:]))
    return [(st, ('it', 'own', ('a', v[1][lo:hi])))]
@cw('iter', 'iter_mut', 'keys', 'values', 'values_mut')
def x_iter(it, st, c, cell, proj, v):
    base = ('it', 'rs', cell, proj, 0, len(v[1])) + (('map',) if mapish(c) and 'SkipMap' not in c.fn else ())
    if c.short == 'keys': base = ('it', 'proj', base, 0)
    if c.short in ('values', 'values_mut'): base = ('it', 'proj', base, 1)
    return [(st, base)]

@cw('windows', 'chunks', 'chunks_exact', 'rchunks')
def x_windows(it, st, c, cell, proj, v):
    n = it.rd(st, c.args[1])
    if n[0] != 'c' or n[1] < 1: return None
    n, L = n[1], len(v[1])
    if c.short == 'windows': ps = [(i, i + n) for i in range(L - n + 1)]
    elif c.short == 'rchunks': ps = [(max(0, e - n), e) for e in range(L, 0, -n)]
    else: ps = [(i, min(i + n, L)) for i in range(0, L, n) if c.short == 'chunks' or i + n <= L]
    return [(st, ('it', 'xlist', tuple(it.tmp(st, c.frame, ('win', c.bb, a, b), ('a', v[1][a:b])) for a, b in ps)))]
@cw('split_first', 'split_last')
def x_split_ends(it, st, c, cell, proj, v):
    if not v[1]: return [(st, NONE)]
    k = 0 if c.short == 'split_first' else len(v[1]) - 1
    rest = v[1][1:] if k == 0 else v[1][:-1]
    return [(st, some(('t', (ref(cell, proj, k), it.tmp(st, c.frame, ('rest', c.bb), ('a', rest))))))]

_oldindex = MODELS['core::ops::index::Index::index']
def x_index(it, st, c):
    if c.body is not None: return None
    i = it.rd(st, c.args[1]) if len(c.args) > 1 else None
    ps = places(it, st, c.args[0])
    if len(ps) == 1 and i is not None:
        v = it.load(st, *ps[0])
        if xs(v):
            if i[0] == 'c' and i[1] < len(v[1]): return [(st, ref(ps[0][0], ps[0][1], i[1]))]
            t = it.F.ty_s(c.ga[0]) if c.ga else ''
            if any(m in t[:80] for m in M.MAPS):
                class D: pass
                d = D(); d.fn = t; d.frame = c.frame; d.bb = c.bb
                d.fn = 'BTree' if 'BTree' in t else 'Hash'
                return [(s, ('r', ps[0][0], ps[0][1] + (('ci', j, False), ('f', 1, '1')))) for s, j, _ in find_key(it, st, d, v[1], c.args[1], lambda e: e[1][0]) if j is not None]
            if i[0] == 'e' and 'Range' in i[1]:
                n = len(v[1])
                cv = lambda x: x[1] if x[0] == 'c' else None
                nm = i[1].rsplit('::', 1)[-1]
                lo = hi = None
                if nm == 'RangeFrom': lo, hi = cv(i[3][0]), n
                elif nm == 'RangeTo': lo, hi = 0, cv(i[3][0])
                elif nm == 'Range': lo, hi = cv(i[3][0]), cv(i[3][1])
                elif nm == 'RangeFull': lo, hi = 0, n
                elif nm == 'RangeToInclusive' and cv(i[3][0]) is not None: lo, hi = 0, cv(i[3][0]) + 1
                elif nm == 'RangeInclusive' and cv(i[3][1]) is not None: lo, hi = cv(i[3][0]), cv(i[3][1]) + 1
                if lo is not None and hi is not None and lo <= hi <= n:
                    if lo == 0 and hi == n: return [(st, c.args[0])]
                    return [(st, ('r', ps[0][0], ps[0][1] + (('ss', lo, hi, False),)))]
    return _oldindex(it, st, c)
MODELS['core::ops::index::Index::index'] = x_index
MODELS['core::ops::index::IndexMut::index_mut'] = x_index

# ---- iterators
def isx(it, st, v):
    if v is None: return False
    if v[0] == 'r':
        w = it.load(st, v[1], v[2])
        return w is not None and w[0] == 'it' and isx(it, st, w)
    if v[0] != 'it': return False
    k = v[1]
    if k in XK: return XK[k][0](it, st, v)
    if k == 'own': return v[2][0] == 'a' or v[2][0] == 'e' and v[2][1] in (OPTION,) or v[2][0] == 'coll' and v[2][2] == 'empty' or rangex(v[2])
    if k in ('rs', 'xlist'): return True
    if k == 'ref':
        w = it.load(st, v[2], v[3])
        return w is not None and (w[0] in 'ab' and len(w[1]) <= 64 or w[0] == 'coll' and w[2] == 'empty' or w[0] == 'e' and w[1] == OPTION)
    if k == 'by':
        w = it.load(st, v[2], v[3])
        return w is not None and w[0] == 'it' and isx(it, st, w)
    if k == 'zip': return isx(it, st, v[2]) or isx(it, st, v[3])
    if k == 'chain': return isx(it, st, v[2]) and isx(it, st, v[3])
    if k in ('map', 'filter', 'filter_map', 'enumerate', 'rev', 'skip', 'take', 'deref', 'fuse', 'inspect', 'proj', 'take_while', 'skip_while', 'peekable', 'xen'): return isx(it, st, v[2])
    if k in ('flat_map', 'flatten'): return isx(it, st, v[2])
    return False
def rangex(w): return w[0] == 'e' and w[1] == RANGE and w[3][0][0] == 'c' and w[3][1][0] == 'c' and w[3][1][1] - w[3][0][1] <= LIM
def size(it, st, v, d=0):
    if v is None or d > 8 or v[0] != 'it': return 0
    k = v[1]
    if k == 'own':
        if v[2][0] == 'a': return len(v[2][1])
        if v[2][0] == 'e' and v[2][1] == RANGE and rangex(v[2]): return v[2][3][1][1] - v[2][3][0][1]
        return 1
    if k == 'rs': return v[5] - v[4]
    if k == 'xlist': return len(v[2])
    if k == 'by':
        return size(it, st, it.load(st, v[2], v[3]), d + 1)
    if k == 'zip' or k == 'chain': return size(it, st, v[2], d + 1) + size(it, st, v[3], d + 1)
    return size(it, st, v[2], d + 1) if len(v) > 2 and isinstance(v[2], tuple) else 0

def rd1(it, st, e):
    """exactly one reference level: what copied() / cloned() do to an element"""
    if e[0] != 'r': return e
    return it.load(st, e[1], e[2]) if len(e) > 2 else it.rd(st, e)


def xnext(it, st, v, c):
    """[(state, element | None, advanced iterator)]"""
    if v[0] == 'r': v = ('it', 'by', v[1], v[2])
    k = v[1]
    if k in XK: return XK[k][1](it, st, v, c)
    if k == 'by':
        w = it.load(st, v[2], v[3])
        out = []
        for s, e, nv in xnext(it, st, w, c):
            it.store(s, v[2], v[3], nv); out.append((s, e, v))
        return out
    if k == 'own':
        w = v[2]
        if w[0] == 'a':
            if not w[1]: return [(st, None, v)]
            return [(st, w[1][0], ('it', 'own', ('a', w[1][1:])))]
        if w[0] == 'coll': return [(st, None, v)]
        if w[1] == RANGE:
            lo, hi = w[3][0][1], w[3][1][1]
            if lo >= hi: return [(st, None, v)]
            return [(st, ('c', lo), ('it', 'own', ('e', RANGE, 0, (('c', lo + 1), ('c', hi)))))]
        return [(st, None, v)] if w[2] == 0 else [(st, w[3][0], ('it', 'own', ('a', ())))]
    if k == 'xlist':
        if not v[2]: return [(st, None, v)]
        return [(st, v[2][0], ('it', 'xlist', v[2][1:]))]
    if k == 'ref':
        w = it.load(st, v[2], v[3])
        if w[0] == 'e': return xnext(it, st, ('it', 'xlist', (('r', v[2], v[3] + (('v', 1, 'Some'), ('f', 0, '0'))),) if w[2] == 1 else ()), c)
        if w[0] not in 'ab': return [(st, None, v)]
        return xnext(it, st, ('it', 'rs', v[2], v[3], 0, len(w[1])) + v[4:], c)
    if k == 'rs':
        if v[4] >= v[5]: return [(st, None, v)]
        return [(st, ref(v[2], v[3], v[4], len(v) > 6 and v[6] == 'map'), v[:4] + (v[4] + 1,) + v[5:])]
    if k in ('fuse', 'peekable'):
        if k == 'peekable' and len(v) > 3 and v[3] is not None:
            return [(st, v[3][1] if v[3][0] == 'some' else None, ('it', 'peekable', v[2]))]
        return [(s, e, ('it', k, nv)) for s, e, nv in xnext(it, st, v[2], c)]
    if k == 'deref': return [(s, e if e is None else rd1(it, s, e), ('it', k, nv)) for s, e, nv in xnext(it, st, v[2], c)]
    if k == 'proj': return [(s, e if e is None else M.pick(it, s, e, v[3]) if e[0] != 't' else e[1][v[3]], ('it', k, nv, v[3])) for s, e, nv in xnext(it, st, v[2], c)]
    if k == 'map':
        out = []
        for s, e, nv in xnext(it, st, v[2], c):
            if e is None: out.append((s, None, v)); continue
            for s2, r in it.call_value(s, v[3], [e], c.frame, c.bb): out.append((s2, r, ('it', k, nv, v[3])))
        return out
    if k == 'inspect':
        out = []
        for s, e, nv in xnext(it, st, v[2], c):
            if e is None: out.append((s, None, v)); continue
            r = it.tmp(s, c.frame, ('insp', c.bb), e)
            for s2, _ in it.call_value(s, v[3], [r], c.frame, c.bb): out.append((s2, e, ('it', k, nv, v[3])))
        return out
    if k in ('filter', 'take_while', 'skip_while'):
        out = []
        def go(s, iv, n):
            for s1, e, nv in xnext(it, s, iv, c):
                if e is None: out.append((s1, None, ('it', k, nv, v[3]))); continue
                r = it.tmp(s1, c.frame, ('filt', c.bb, M.depth(v)), e)
                for s2, b in it.call_value(s1, v[3], [r], c.frame, c.bb):
                    for s3, t in it.truth(s2, b):
                        if k == 'filter':
                            if t: out.append((s3, e, ('it', k, nv, v[3])))
                            elif n < LONG: go(s3, nv, n + 1)
                        elif k == 'take_while':
                            out.append((s3, e, ('it', k, nv, v[3])) if t else (s3, None, ('it', 'own', ('a', ()))))
                        else:
                            if t: go(s3, nv, n + 1)
                            else: out.append((s3, e, nv))
        go(st, v[2], 0)
        return out
    if k == 'filter_map':
        out = []
        def go(s, iv, n):
            for s1, e, nv in xnext(it, s, iv, c):
                if e is None: out.append((s1, None, ('it', k, nv, v[3]))); continue
                for s2, o in it.call_value(s1, v[3], [e], c.frame, c.bb):
                    for s3, vi, w in opt(it, s2, o):
                        if vi == 1: out.append((s3, w[3][0], ('it', k, nv, v[3])))
                        elif n < LONG: go(s3, nv, n + 1)
        go(st, v[2], 0)
        return out
    if k == 'enumerate': return xnext(it, st, ('it', 'xen', v[2], 0), c)
    if k == 'xen':
        return [(s, None if e is None else ('t', (('c', v[3]), e)), ('it', 'xen', nv, v[3] + (e is not None))) for s, e, nv in xnext(it, st, v[2], c)]
    if k == 'zip':
        out = []
        for s, e, nv in anynext(it, st, v[2], c):
            if e is None: out.append((s, None, v)); continue
            for s2, f, nw in anynext(it, s, v[3], c): out.append((s2, None if f is None else ('t', (e, f)), ('it', k, nv, nw)))
        return out
    if k == 'chain':
        out = []
        for s, e, nv in xnext(it, st, v[2], c):
            if e is not None: out.append((s, e, ('it', k, nv, v[3])))
            else:
                for s2, f, nw in xnext(it, s, v[3], c): out.append((s2, f, ('it', k, nv, nw)))
        return out
    if k == 'rev':
        out = []
        for s, els in xall(it, st, v[2], c): out += xnext(it, s, ('it', 'xlist', els[::-1]), c)
        return out
    if k in ('skip', 'take'):
        n = v[3]
        if n[0] != 'c': return [(s, e, nv) for s, e, nv in xnext(it, st, v[2], c)]
        if k == 'take':
            if n[1] == 0: return [(st, None, v)]
            return [(s, e, ('it', k, nv, ('c', n[1] - 1))) for s, e, nv in xnext(it, st, v[2], c)]
        out = []
        def go(s, iv, m):
            for s1, e, nv in xnext(it, s, iv, c):
                if e is None or m == 0: out.append((s1, e, nv))
                else: go(s1, nv, m - 1)
        go(st, v[2], n[1])
        return out
    if k in ('flat_map', 'flatten'):
        out = []
        for s, e, nv in xnext(it, st, v[2], c):
            if e is None: out.append((s, None, v)); continue
            rs = it.call_value(s, v[3], [e], c.frame, c.bb) if k == 'flat_map' else [(s, e)]
            for s2, inner in rs:
                iv = into_iter(it, s2, inner, c)
                if iv[0] == 'it' and isx(it, s2, iv): out += xnext(it, s2, ('it', 'chain', iv, ('it', k, nv) + v[3:]), c)
                else:
                    for s3, f in M.inext(it, s2, iv, c): out.append((s3, f, ('it', k, nv) + v[3:]))
        return out
    raise AssertionError(k)

def anynext(it, st, v, c):
    if it.q.exact and v[0] == 'it' and v[1] == 'own' and v[2][0] == 'e' and v[2][1].endswith('::RangeFrom') and v[2][3][0][0] == 'c': v = ('it', 'count_up', ('it', 'own', ('a', ())), v[2][3][0][1])
    if isx(it, st, v): return xnext(it, st, v, c)
    return [(s, e, v) for s, e in M.inext(it, st, v, c)]

def xall(it, st, v, c):
    """exhaust: [(state, tuple of elements)]"""
    out = []
    def go(s, iv, acc):
        if len(acc) > LONG: out.append((s, acc)); return
        for s2, e, nv in xnext(it, s, iv, c):
            if e is None: out.append((s2, acc))
            else: go(s2, nv, acc + (e,))
    go(st, v, ())
    return out

# adaptors over references to known lists keep their exactness: `iter()` gives 'rs', `into_iter` on a reference gives 'ref'
_oldnext = MODELS[IT + 'next']
def x_next(it, st, c):
    v = c.args[0]
    w = it.rd(st, v) if v[0] in ('r', 'u') else v
    if c.body is not None and w[0] != 'it': return None
    if w[0] == 'u' and any(isx(it, st, x) for x in w[1]):
        ps = places(it, st, v)
        if len(ps) == 1:
            out = []
            for x in w[1]:
                s = st.copy(); it.store(s, ps[0][0], ps[0][1], x)
                out += x_next(it, s, c)
            return out
    if it.q.exact and w[0] == 'e' and rangex(w):
        ps = places(it, st, v)
        if len(ps) == 1:
            lo, hi = w[3][0][1], w[3][1][1]
            if lo >= hi: return [(st, NONE)]
            nv = ('e', RANGE, 0, (w[3][0], ('c', hi - 1)) if c.short == 'next_back' else (('c', lo + 1), w[3][1]))
            it.store(st, ps[0][0], ps[0][1], nv)
            return [(st, some(('c', hi - 1 if c.short == 'next_back' else lo)))]
    if w[0] == 'it' and isx(it, st, w):
        ps = places(it, st, v)
        if len(ps) == 1:
            g = ('sq', c.frame, c.bb)
            back = c.short == 'next_back'
            out = []
            if back:
                for s, els in xall(it, st, w, c):
                    if not els: s.ghost.pop(g, None); out.append((s, NONE)); continue
                    it.store(s, ps[0][0], ps[0][1], ('it', 'xlist', els[:-1])); s.setg(g, len(els)); out.append((s, some(els[-1])))
                return out
            for s, e, nv in xnext(it, st, w, c):
                it.store(s, ps[0][0], ps[0][1], nv)
                if e is None: s.ghost.pop(g, None)
                else: s.setg(g, size(it, s, nv) + 1)
                out.append((s, NONE if e is None else some(e)))
            return out
    return _oldnext(it, st, c)
for n in (IT + 'next', 'core::iter::traits::double_ended::DoubleEndedIterator::next_back'): MODELS[n] = x_next

_oldpeek = MODELS['core::iter::adapters::peekable::Peekable::<I>::peek']
def x_ppeek(it, st, c):
    v = c.args[0]
    w = it.rd(st, v)
    if w[0] == 'it' and w[1] == 'peekable' and isx(it, st, w):
        ps = places(it, st, v)
        out = []
        for s, e, nv in xnext(it, st, w, c):
            it.store(s, ps[0][0], ps[0][1], ('it', 'peekable', nv[2] if nv[1] == 'peekable' else nv, ('some', e) if e is not None else ('none',)))
            out.append((s, NONE if e is None else some(it.tmp(s, c.frame, ('peek', c.bb), e))))
        return out
    return _oldpeek(it, st, c)
MODELS['core::iter::adapters::peekable::Peekable::<I>::peek'] = x_ppeek

_oldloop = M.loop
def loop(it, st, c, v, step, rounds=3):
    if v[0] == 'it' and isx(it, st, v):
        done, exits = [], []
        def go(s, iv, n):
            for s2, e, nv in xnext(it, s, iv, c):
                if e is None or n > LONG: done.append(s2); continue
                for s3, tag in step(s2, e):
                    if tag is not None: exits.append((s3, tag))
                    else: go(s3, nv, n + 1)
        go(st, v, 0)
        return done, exits
    w = v[2] if v[0] == 'it' and v[1] == 'own' else None
    if it.q.exact and w is not None and w[0] == 'e' and w[1] in (RANGE, M.RANGEI) and all(x[0] == 'c' and isinstance(x[1], int) for x in w[3][:2]) and getattr(c, 'short', '') in ('find_map', 'find', 'any', 'all', 'position'):
        # a search over a long range of known numbers, followed as long as each step is decided
        s, end = st, w[3][1][1] + (w[1] == M.RANGEI)
        for i in range(w[3][0][1], min(end, w[3][0][1] + 4000)):
            r = step(s.copy(), ('c', i))
            if len(r) != 1: break
            if r[0][1] is not None: return [], [r[0]]
            s = r[0][0]
        else:
            if end <= w[3][0][1] + 4000: return [s], []
    return _oldloop(it, st, c, v, step, rounds)
M.loop = loop

_oldcollect = MODELS[IT + 'collect']
def x_collect(it, st, c):
    src = src_iter(it, st, c)
    if not (src[0] == 'it' and isx(it, st, src)) or c.short != 'collect': return _oldcollect(it, st, c)
    t = it.F.types[c.ga[1]] if len(c.ga) > 1 else {'k': 'x'}
    adt = t.get('n')
    ts = it.F.ty_s(c.ga[1]) if len(c.ga) > 1 else ''
    out = []
    class D: pass
    d = D(); d.frame = c.frame; d.bb = c.bb
    kind = 'BTree' if 'BTree' in ts[:60] else 'Hash'
    mp, se = any(m in ts[:60] for m in ('BTreeMap', 'HashMap')), any(m in ts[:60] for m in ('BTreeSet', 'HashSet'))
    d.fn = kind
    def add(s, acc, e, k):
        if mp or se:
            for s2, i, pos in find_key(it, s, d, acc, e[1][0] if mp else e, (lambda x: x[1][0]) if mp else (lambda x: x)):
                if i is None: k(s2, acc[:pos] + (e,) + acc[pos:])
                else: k(s2, acc[:i] + (e,) + acc[i + 1:] if mp else acc)
        else: k(s, acc + (e,))
    def go(s, iv, acc):
        for s2, e, nv in xnext(it, s, iv, c):
            if e is None or len(acc) > LONG:
                r = ('a', acc)
                if ts.endswith('String') and '<' not in ts:
                    acc2 = [it.deepval(s2, x) for x in acc]
                    if all(x[0] in 'cs' for x in acc2): r = ('s', ''.join(chr(x[1]) if x[0] == 'c' else x[1] for x in acc2))
                out.append((s2, ok(r) if adt == RESULT else some(r) if adt == OPTION else r)); continue
            if adt in (RESULT, OPTION):
                for s3, vi, w in it.split(s2, e, adt):
                    if (adt == RESULT) == (vi == 1): out.append((s3, w))
                    else: add(s3, acc, w[3][0], lambda s4, a: go(s4, nv, a))
            else: add(s2, acc, e, lambda s4, a: go(s4, nv, a))
    go(st, src, ())
    return out
MODELS[IT + 'collect'] = x_collect

def wrap_it(names, f):
    for n in names:
        old = MODELS.get(IT + n)
        def g(it, st, c, old=old):
            src = src_iter(it, st, c)
            if src[0] == 'it' and isx(it, st, src): return f(it, st, c, src)
            return old(it, st, c) if old else None
        MODELS[IT + n] = g
def x_count(it, st, c, src): return [(s, ('c', len(e))) for s, e in xall(it, st, src, c)]
wrap_it(['count'], x_count)
def x_sum(it, st, c, src):
    out = []
    for s, els in xall(it, st, src, c):
        acc = ('c', 0)
        for e in els:
            acc = it.binop(s, 'Add', acc, it.rd(s, e))[0][1] if acc != ('c', 0) else it.rd(s, e)
        out.append((s, acc))
    return out
wrap_it(['sum'], x_sum)
def x_last_(it, st, c, src): return [(s, some(e[-1]) if e else NONE) for s, e in xall(it, st, src, c)]
wrap_it(['last'], x_last_)
def x_best(it, st, c, src):
    out = []
    mx = c.short.startswith('max')
    for s, els in xall(it, st, src, c):
        if not els: out.append((s, NONE)); continue
        def cmp2(s, a, b):
            if c.short.endswith('_by'):
                ra, rb = it.tmp(s, c.frame, ('ba', c.bb), a), it.tmp(s, c.frame, ('bb', c.bb), b)
                return [(s3, '<=>'[vi]) for s2, o in it.call_value(s, c.args[1], [ra, rb], c.frame, c.bb) for s3, vi, _ in it.split(s2, o, ORDERING)]
            if c.short.endswith('_key'):
                o = []
                ra = it.tmp(s, c.frame, ('ba', c.bb), a)
                for s2, ka in it.call_value(s, c.args[1], [ra], c.frame, c.bb):
                    ka = it.deepval(s2, ka)
                    rb = it.tmp(s2, c.frame, ('bb', c.bb), b)
                    for s3, kb in it.call_value(s2, c.args[1], [rb], c.frame, c.bb): o += xcmp(it, s3, ka, it.deepval(s3, kb), c)
                return o
            return xcmp(it, s, a, b, c)
        def go(s, i, best):
            if i == len(els): out.append((s, some(els[best]))); return
            for s2, r in cmp2(s, els[i], els[best]):
                go(s2, i + 1, i if (r in '>=' if mx else r == '<') else best)
        go(s, 1, 0)
    return out
wrap_it(['max', 'min', 'max_by', 'min_by', 'max_by_key', 'min_by_key'], x_best)
_oldext = MODELS['core::iter::traits::collect::Extend::extend']
def x_extend_it(it, st, c):
    ps = places(it, st, c.args[0])
    if len(ps) == 1:
        v = it.load(st, *ps[0])
        if xs(v):
            src = into_iter(it, st, c.args[1], c)
            if src[0] == 'it' and isx(it, st, src):
                t = it.F.ty_s(c.ga[0])[:80]
                mp, se = any(m in t for m in ('BTreeMap', 'HashMap')), any(m in t for m in ('BTreeSet', 'HashSet'))
                class D: pass
                d = D(); d.frame = c.frame; d.bb = c.bb; d.fn = 'BTree' if 'BTree' in t else 'Hash'
                out = []
                def go(s, acc, els):
                    if not els:
                        it.store(s, ps[0][0], ps[0][1], ('a', acc)); out.append((s, UNIT)); return
                    e = els[0]
                    if mp or se:
                        for s2, i, pos in find_key(it, s, d, acc, e[1][0] if mp else e, (lambda x: x[1][0]) if mp else (lambda x: x)):
                            if i is None: go(s2, acc[:pos] + (e,) + acc[pos:], els[1:])
                            else: go(s2, acc[:i] + (e,) + acc[i + 1:] if mp else acc, els[1:])
                    else: go(s, acc + (e,), els[1:])
                for s, els in xall(it, st, src, c):
                    els = tuple(it.rd(s, e) if e[0] == 'r' else e for e in els)
                    go(s, v[1], els)
                return out
    return _oldext(it, st, c)
MODELS['core::iter::traits::collect::Extend::extend'] = x_extend_it

_oldpos = MODELS[IT + 'position']
def x_position(it, st, c):
    src = src_iter(it, st, c)
    if not (src[0] == 'it' and isx(it, st, src)) or not it.q.exact: return _oldpos(it, st, c)
    def step(s, e):
        out = []
        for s2, b in it.call_value(s, c.args[1], [e[1][1]], c.frame, c.bb):
            for s3, t in it.truth(s2, b): out.append((s3, some(e[1][0]) if t else None))
        return out
    done, exits = M.loop(it, st, c, ('it', 'xen', src, 0), step)
    return [(s, NONE) for s in done] + exits
MODELS[IT + 'position'] = x_position

# ---- text known character by character: ('s', text); chars are code points
@M.model('core::str::<impl str>::chars')
def x_chars(it, st, c):
    v = it.deepval(st, c.args[0])
    if v[0] != 's': return None
    return [(st, ('it', 'own', ('a', tuple(('c', ord(x)) for x in v[1]))))]

# `Vec::from_iter(i)` is `i.into_iter().collect()`
@M.model('core::iter::traits::collect::FromIterator::from_iter')
def x_from_iter(it, st, c):
    if c.body is not None: return None
    ga, short, args = c.ga, c.short, c.args
    try:
        c.ga = [None, ga[0]]; c.short = 'collect'
        return MODELS[IT + 'collect'](it, st, c)
    finally: c.ga, c.short, c.args = ga, short, args

# ---- comparisons and simple transformations of literal texts
def _lit(it, st, a):
    v = it.deepval(st, a)
    return v[1] if v[0] == 's' else chr(v[1]) if v[0] == 'c' and isinstance(v[1], int) and not isinstance(v[1], bool) and 0 <= v[1] < 0x110000 else None
_STR2 = {'starts_with': str.startswith, 'ends_with': str.endswith, 'contains': lambda a, b: b in a, 'eq_ignore_ascii_case': lambda a, b: _al(a) == _al(b)}
def _al(s): return ''.join(chr(ord(x) + 32) if 'A' <= x <= 'Z' else x for x in s)
_STR1 = {'to_ascii_lowercase': _al, 'to_ascii_uppercase': lambda s: ''.join(chr(ord(x) - 32) if 'a' <= x <= 'z' else x for x in s), 'to_lowercase': str.lower, 'to_uppercase': str.upper,
         'trim': str.strip, 'trim_start': str.lstrip, 'trim_end': str.rstrip}
def x_str2(it, st, c):
    a, b = _lit(it, st, c.args[0]), _lit(it, st, c.args[1])
    if a is None or b is None or it.deepval(st, c.args[0])[0] != 's': return None
    return [(st, TRUE if _STR2[c.short](a, b) else FALSE)]
def x_str1(it, st, c):
    v = it.deepval(st, c.args[0])
    return [(st, ('s', _STR1[c.short](v[1])))] if v[0] == 's' else None
for _n in _STR2: M.model('core::str::<impl str>::' + _n)(x_str2)
for _n in _STR1: M.model('core::str::<impl str>::' + _n, 'alloc::str::<impl str>::' + _n)(x_str1)

_oldrpos = MODELS[IT + 'rposition']
def x_rposition(it, st, c):
    src = src_iter(it, st, c)
    if not (src[0] == 'it' and isx(it, st, src)) or not it.q.exact: return _oldrpos(it, st, c)
    out = []
    for s, els in xall(it, st, src, c):
        def go(s, i):
            if i < 0: out.append((s, NONE)); return
            for s2, b in it.call_value(s, c.args[1], [els[i]], c.frame, c.bb):
                for s3, t in it.truth(s2, b):
                    if t: out.append((s3, some(('c', i))))
                    else: go(s3, i - 1)
        go(s, len(els) - 1)
    return out
MODELS[IT + 'rposition'] = x_rposition

# `[T; N]::map` on a known array
@M.model('core::array::<impl [T; N]>::map')
def x_array_map(it, st, c):
    v = it.rd(st, c.args[0])
    if v[0] != 'a': return None
    out = []
    def go(s, i, acc):
        if i == len(v[1]): out.append((s, ('a', acc))); return
        for s2, r in it.call_value(s, c.args[1], [v[1][i]], c.frame, c.bb): go(s2, i + 1, acc + (r,))
    go(st, 0, ())
    return out

# ---- parsing and cutting literal texts
_INT = {'u8': (0, 255), 'u16': (0, 65535), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1), 'usize': (0, 2**64 - 1), 'i8': (-128, 127), 'i16': (-32768, 32767), 'i32': (-2**31, 2**31 - 1), 'i64': (-2**63, 2**63 - 1)}
@M.model('core::str::<impl str>::parse')
def x_parse(it, st, c):
    import re
    v = it.deepval(st, c.args[0]); t = it.F.ty_s(c.ga[0]) if c.ga else ''
    if v[0] != 's' or t not in _INT: return None
    lo, hi = _INT[t]
    good = re.fullmatch(r'\+?[0-9]+' if lo == 0 else r'[+-]?[0-9]+', v[1]) and lo <= int(v[1]) <= hi
    return [(st, ok(('c', int(v[1]))) if good else err(mk(('call', 'ParseIntError', ()))))]
def _pieces(it, st, c, k=1):
    a, b = _lit(it, st, c.args[0]), _lit(it, st, c.args[k])
    return (None, None) if a is None or not b or it.deepval(st, c.args[0])[0] != 's' else (a, b)
@M.model('core::str::<impl str>::split')
def x_split(it, st, c):
    a, b = _pieces(it, st, c)
    return None if a is None else [(st, ('it', 'own', ('a', tuple(('s', x) for x in a.split(b)))))]
@M.model('core::str::<impl str>::rsplit')
def x_rsplit(it, st, c):
    a, b = _pieces(it, st, c)
    return None if a is None else [(st, ('it', 'own', ('a', tuple(('s', x) for x in a.split(b)[::-1]))))]
@M.model('core::str::<impl str>::split_once')
def x_split_once(it, st, c):
    a, b = _pieces(it, st, c)
    if a is None: return None
    return [(st, some(('t', tuple(('s', x) for x in a.split(b, 1)))) if b in a else NONE)]
def x_strip(it, st, c):
    a, b = _pieces(it, st, c)
    if a is None: return None
    pre = c.short == 'strip_prefix'
    hit = a.startswith(b) if pre else a.endswith(b)
    return [(st, some(('s', a[len(b):] if pre else a[:-len(b)])) if hit else NONE)]
for _n in ('strip_prefix', 'strip_suffix'): M.model('core::str::<impl str>::' + _n)(x_strip)
def x_trim_matches(it, st, c):
    a, b = _pieces(it, st, c)
    if a is None: return None
    if c.short != 'trim_end_matches':
        while a.startswith(b): a = a[len(b):]
    if c.short != 'trim_start_matches':
        while a.endswith(b): a = a[:-len(b)]
    return [(st, ('s', a))]
for _n in ('trim_matches', 'trim_start_matches', 'trim_end_matches'): M.model('core::str::<impl str>::' + _n)(x_trim_matches)
@M.model('core::str::<impl str>::get')
def x_str_index(it, st, c):
    v, r = it.deepval(st, c.args[0]), it.deepval(st, c.args[1])
    if v[0] != 's' or r[0] != 'e' or not v[1].isascii(): return None
    n = len(v[1]); k = r[1].rsplit('::', 1)[-1]
    xs = [x[1] if x[0] == 'c' else None for x in r[3]]
    if None in xs: return None
    lo, hi = {'Range': lambda: (xs[0], xs[1]), 'RangeFrom': lambda: (xs[0], n), 'RangeTo': lambda: (0, xs[0]), 'RangeFull': lambda: (0, n), 'RangeToInclusive': lambda: (0, xs[0] + 1)}.get(k, lambda: (None, None))()
    if lo is None: return None
    good = 0 <= lo <= hi <= n
    if c.short == 'get': return [(st, some(('s', v[1][lo:hi])) if good else NONE)]
    return [(st, ('s', v[1][lo:hi]))] if good else []

_idx2 = MODELS['core::ops::index::Index::index']
def x_index2(it, st, c):
    if c.body is None and len(c.args) > 1 and it.deepval(st, c.args[0])[0] == 's': return x_str_index(it, st, c)
    return _idx2(it, st, c)
MODELS['core::ops::index::Index::index'] = x_index2
