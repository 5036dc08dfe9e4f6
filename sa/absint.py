"""Forward abstract interpretation of MIR with value numbering.

Domain (immutable tuples):
  ('c', n)                 constant scalar (bool/int/char/unit-discriminant)
  ('s', str) ('b', bytes)  constant string / byte string
  ('e', adt, vi, fields)   ADT value with known variant (structs: vi == 0)
  ('t', fields) ('a', fields)  tuple / array
  ('cl', path, upvars) ('co', path, upvars) ('fn', FnRef)
  ('r', cell, proj)        reference to a memory place
  ('y', term)              unknown value named by a term (value number)
  ('p', term, overrides)   unknown value named by term with some fields overwritten
  ('coll', elem|None, flag)  collection summary; flag in 'empty','ne','any'
  ('it', kind, ...)        iterator summary
  ('u', (alts...))         join of several of the above
States are joined at merge points unless a current-frame enum/bool local (or the rule's ghost
state) has a different known shape in them (bounded disjunction).  Branches are taken only if the
abstract condition allows them.  No path enumeration, no solver: a worklist fixpoint per body,
crate-local callees inlined by call string.
"""
import sys
sys.setrecursionlimit(100000)

OPTION = 'core::option::Option'
RESULT = 'core::result::Result'
ORDERING = 'core::cmp::Ordering'
POLL = 'core::task::poll::Poll'
CF = 'core::ops::control_flow::ControlFlow'
BOUND = 'core::ops::range::Bound'
UNIT = ('t', ())
TRUE = ('c', 1)
FALSE = ('c', 0)
NONE = ('e', OPTION, 0, ())
ALLREL = frozenset('<=>')
FLIP = {'<': '>', '>': '<', '=': '=', '?': '?'}
OPS = {'Lt': '<', 'Le': '<=', 'Gt': '>', 'Ge': '>=', 'Eq': '=', 'Ne': '<>'}
MAXDEPTH = 16


def tdiv(a, b): return abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
def some(v): return ('e', OPTION, 1, (v,))
def ok(v): return ('e', RESULT, 0, (v,))
def err(v): return ('e', RESULT, 1, (v,))
def boolv(b): return TRUE if b else FALSE
def ordv(c): return ('e', ORDERING, {'<': 0, '=': 1, '>': 2}[c], ())
def isval(v): return isinstance(v, tuple) and len(v) > 0 and v[0] in ('c', 's', 'b', 'e', 't', 'a', 'cl', 'co', 'fn', 'r', 'y', 'p', 'coll', 'it', 'u')

VALTAGS = frozenset(('c', 's', 'b', 'e', 't', 'a', 'cl', 'co', 'fn', 'r', 'y', 'p', 'coll', 'it', 'u'))
RAWTAGS = VALTAGS | {'o', 'tmp', 'impure', 'f', 'v', 'ix', 'ci', 'ss', 'rel'}
BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128}
def fit(t, n):
    """n as a value of the integer type t (two's complement wrap)"""
    w = BITS.get(t)
    if w is None: return n
    n &= (1 << w) - 1
    return n - (1 << w) if t[0] == 'i' and n >> (w - 1) else n

class Term:
    """interned (hash-consed) term: equality is identity"""
    __slots__ = ('t', 'id', 'depth', '_labels', 'subs')
    def __getitem__(self, i): return self.t[i]
    def __len__(self): return len(self.t)
    def __iter__(self): return iter(self.t)
    def __repr__(self): return '#%d' % self.id

_tab = {}
EMPTY = frozenset()

def _children(x, out):
    for y in x:
        if isinstance(y, Term): out.append(y)
        elif isinstance(y, tuple): _children(y, out)

def T(x):
    """intern a term"""
    if isinstance(x, Term): return x
    y = tuple((T(e) if isinstance(e, tuple) and e and isinstance(e[0], str) and e[0] not in RAWTAGS else e) for e in x)
    r = _tab.get(y)
    if r is None:
        r = Term()
        r.t = y
        r.id = len(_tab)
        ch = []
        _children(y, ch)
        r.depth = 1 + max((c.depth for c in ch), default=0)
        r._labels = None
        # sub-terms that may be renamed (impure calls, collection elements) occurring inside
        s = EMPTY
        for c in ch:
            if c.subs: s = s | c.subs if s else c.subs
        if (y[0] == 'call' and len(y) > 3) or y[0] in ('elem', 'contains', 'idx', 'idxof'): s = s | {r}
        r.subs = s
        _tab[y] = r
    return r

def depth(t):
    if isinstance(t, Term): return t.depth
    if not isinstance(t, tuple): return 0
    return max((depth(x) for x in t), default=0)

def labels(t):
    """all strings occurring in a term/value (used to classify unknowns by origin)"""
    if isinstance(t, Term):
        r = t._labels
        if r is None:
            r = labels(t.t)
            t._labels = r
        return r
    if isinstance(t, str):
        return frozenset((t,))
    if not isinstance(t, (tuple, frozenset)):
        return EMPTY
    s = set()
    for x in t:
        s |= labels(x)
    return frozenset(s)

def mk(term):
    t = T(term)
    if t.depth > 40:
        t = T(('deep', tuple(sorted(labels(t)))))
    return ('y', t)

def mentions(t, sub):
    if t is sub: return True
    if isinstance(t, Term):
        if t.depth <= sub.depth: return False
        if sub.subs and sub in sub.subs: return sub in t.subs
        return mentions(t.t, sub)
    if isinstance(t, (tuple, frozenset)):
        return any(mentions(x, sub) for x in t)
    return False

def subst(t, a, b, memo):
    if t is a: return b
    if isinstance(t, Term):
        if a not in t.subs: return t
        if t.t[0] == 'old' and t.t[1] is a: return t
        r = memo.get(t)
        if r is None:
            r = T(tuple(subst(x, a, b, memo) for x in t.t))
            if r.depth > 40: r = T(('deep', tuple(sorted(labels(r)))))
            memo[t] = r
        return r
    if isinstance(t, tuple):
        ch = False
        out = []
        for x in t:
            if isinstance(x, (Term, tuple)):
                y = subst(x, a, b, memo)
                if y is not x: ch = True
                out.append(y)
            else: out.append(x)
        return tuple(out) if ch else t
    return t

def show(v, d=8):
    """readable form of a value/term for reports"""
    if isinstance(v, Term): v = v.t
    if isinstance(v, tuple):
        if d <= 0: return '..'
        if len(v) == 2 and v[0] == 'y': return show(v[1], d)
        if v and v[0] == 'call' and len(v) >= 3: return f"{v[1].rsplit('::', 1)[-1]}({', '.join(show(x, d - 1) for x in v[2])})"
        if v and v[0] == 'fld': return f"{show(v[1], d - 1)}.{v[2]}"
        if v and v[0] == 'arg': return str(v[1])
        if v and v[0] == 'as': return f"({show(v[1], d - 1)} as {v[2]})"
        if v and v[0] == 'e' and len(v) == 4: return f"{v[1].rsplit('::', 1)[-1]}#{v[2]}({', '.join(show(x, d - 1) for x in v[3])})"
        return '(' + ', '.join(show(x, d - 1) for x in v) + ')'
    return repr(v)


def alts(v):
    return v[1] if v[0] == 'u' else (v,)

def shape(v, d=2):
    k = v[0]
    if k == 'c': return v
    if k == 'e': return ('e', v[2]) + (tuple(shape(f, d - 1) for f in v[3]) if d > 1 and len(v[3]) <= 2 else ())
    if k == 't' and d > 1: return tuple(shape(f, d - 1) for f in v[1])
    if k == 'coll': return v[2] if False else None
    return None

def join(a, b):
    if a == b: return a
    if a is None: return b
    if b is None: return a
    return mkunion(alts(a) + alts(b))

def joinall(vs):
    r = None
    for v in vs:
        r = join(r, v)
    return r

def _fw(xs, ys):
    return tuple(join(x, y) for x, y in zip(xs, ys))

def _ukey(v):
    k = v[0]
    if k == 'y': return ('y', v[1].id, '')
    if k == 'c': return ('c', v[1], '')
    if k == 'e': return ('e', v[2], v[1])
    if k in ('t', 'a'): return (k, len(v[1]), '')
    if k == 'p': return (k, v[1].id, '')
    if k in ('cl', 'co'): return (k, 0, v[1])
    return (k, 0, repr(v))

def _gkey(v):
    k = v[0]
    if k == 'e': return ('e', v[1], v[2])
    if k in ('t', 'a'): return (k, len(v[1]))
    if k in ('cl', 'co'): return (k, v[1])
    if k == 'coll': return ('coll',)
    if k == 'p': return ('p', v[1])
    return v

def mkunion(vs):
    groups = {}
    order = []
    for v in vs:
        k = v[0]
        if k == 'e': key = ('e', v[1], v[2])
        elif k in ('t', 'a'): key = (k, len(v[1]))
        elif k in ('cl', 'co'): key = (k, v[1])
        elif k == 'coll': key = ('coll',)
        elif k == 'p': key = ('p', v[1])
        else: key = v
        if key in groups:
            o = groups[key]
            if o == v: continue
            if k == 'e': groups[key] = ('e', v[1], v[2], _fw(o[3], v[3]))
            elif k in ('t', 'a'): groups[key] = (k, _fw(o[1], v[1]))
            elif k in ('cl', 'co'): groups[key] = (k, v[1], _fw(o[2], v[2]))
            elif k == 'coll': groups[key] = ('coll', join(o[1], v[1]), o[2] if o[2] == v[2] else 'any')
            elif k == 'p':
                oo, vv = dict(o[2]), dict(v[2])
                m = {}
                for f in set(oo) | set(vv):
                    x = oo.get(f) or mk(('fld', v[1], f))
                    y = vv.get(f) or mk(('fld', v[1], f))
                    m[f] = join(x, y)
                groups[key] = ('p', v[1], tuple(sorted(m.items())))
        else:
            groups[key] = v
            order.append(key)
    # 'y' t absorbed by 'p' t ?
    out = []
    ps = {k[1] for k in order if k[0] == 'p'}
    for k in order:
        v = groups[k]
        if v[0] == 'y' and v[1] in ps:
            p = groups[('p', v[1])]
            groups[('p', v[1])] = ('p', p[1], tuple((f, join(x, mk(('fld', p[1], f)))) for f, x in p[2]))
    for k in order:
        v = groups[k]
        if v[0] == 'y' and v[1] in ps: continue
        out.append(v)
    ints = [v for v in out if v[0] == 'c' and v[1] not in (0, 1)]
    if len(ints) > 3:
        out = [v for v in out if v[0] != 'c'] + [mk(('w',))]
    if len(out) > 14:
        out = [v for v in out if v[0] not in ('y', 'c', 's')] + [mk(('top', tuple(sorted(labels(tuple(out))))[:60]))]
    if len(out) == 1: return out[0]
    out.sort(key=_ukey)
    return ('u', tuple(out))


class State:
    __slots__ = ('mem', 'known', 'ghost', 'ev')
    def __init__(s, mem=None, known=None, ghost=None, ev=frozenset()):
        s.mem = mem if mem is not None else {}
        s.known = known if known is not None else {}
        s.ghost = ghost if ghost is not None else {}
        s.ev = ev
    def copy(s):
        return State(dict(s.mem), dict(s.known), dict(s.ghost), s.ev)
    def g(s, k, d=None): return s.ghost.get(k, d)
    def setg(s, k, v): s.ghost[k] = v
    def sig(s): return (frozenset(s.ghost.items()))

def ground(v, d=4):
    """the known numbers of a value, and how far its references have advanced through slices: loops are followed turn by turn as long as these change"""
    if v[0] == 'c': return v[1]
    if v[0] == 'r':
        p = tuple(x[1:3] for x in v[2] if x[0] == 'ss')
        return p or None
    if d and (v[0] == 'e' and v[3] or v[0] == 't'):
        p = tuple(ground(x, d - 1) for x in (v[3] if v[0] == 'e' else v[1]))
        return p if any(x is not None for x in p) else None
    return None

def join_state(a, b):
    mem = {}
    ma, mb = a.mem, b.mem
    for c in ma.keys() | mb.keys():
        x, y = ma.get(c), mb.get(c)
        if x is None or y is None:
            if c[0] == 'o':
                d = ('y', c[1])
                mem[c] = join(x or d, y or d)
            else:
                mem[c] = x or y     # defined on one side only: dead or conditionally initialised
        else:
            mem[c] = x if x is y or x == y else join(x, y)
    known = {}
    for k, v in a.known.items():
        w = b.known.get(k)
        if w is not None:
            u = v | w
            known[k] = u
    return State(mem, known, dict(a.ghost), a.ev & b.ev)

def same_state(a, b):
    return a.mem == b.mem and a.known == b.known and a.ev == b.ev and a.ghost == b.ghost


class Budget(Exception):
    pass

class Query:
    """Rule hooks; override in rules."""
    max_states = 48
    max_steps = 400000
    opaque = ()          # names (exact or suffix) not inlined
    inline_cmp = ()      # suffixes of comparison impls to inline
    def rel(self, it, st, a, b): return None        # subset of '<=>' or None
    def variant(self, it, st, term, adt): return None  # set of variant names or None
    def truth(self, it, st, term): return None         # set of bools or None
    def on_call(self, it, st, c): return None          # list of (state, value) or None
    def on_write(self, it, st, cell, proj, val, site): return None
    def on_drop(self, it, st, tyidx, val, site): return None
    def on_agg(self, it, st, val, site): return None
    def key_extra(self, it, st, frame): return None
    def on_await(self, it, st, name, args, frame, bb, term): return None
    def inline(self, name): return True

OPAQUE = set()          # external functions met without a model (reset per rule)

class Call:
    __slots__ = ('fn', 'name', 'trait', 'short', 'args', 'ga', 'frame', 'bb', 'line', 'body', 'k')


class Interp:
    def __init__(self, F, q):
        self.F = F
        self.q = q
        self.frames = {}
        self.frame_list = []
        self.steps = 0
        self.visited = set()      # (body) analysed
        self.sites = set()        # call sites seen
        self.unmodelled = {}
        self.tmpn = 0
        self.prom_cache = {}
        self.dty = None
        self._enum_locals = {}
        from models import MODELS
        import exact, stdx
        self.models = MODELS

    # ---------- adts
    def variants(self, adt):
        a = self.F.adts.get(adt)
        return a['v'] if a else None
    def vname(self, adt, vi):
        return self.F.adts[adt]['v'][vi]['n']
    def vidx(self, adt, name):
        for i, v in enumerate(self.F.adts[adt]['v']):
            if v['n'] == name: return i
        raise KeyError((adt, name))

    # ---------- memory
    def default(self, cell):
        if cell[0] == 'o': return ('y', cell[1])
        return mk(('uninit',))

    def get(self, b, p):
        k = b[0]
        if k == 'u':
            r = None
            for x in b[1]:
                g = self.get(x, p)
                if g is not None: r = join(r, g)
            return r
        if p[0] == 'f':
            i, n = p[1], p[2]
            if k == 'e': return b[3][i] if i < len(b[3]) else None
            if k in ('t', 'a'): return b[1][i] if i < len(b[1]) else mk(('oob',))
            if k in ('cl', 'co'): return b[2][i] if i < len(b[2]) else mk(('oob',))
            if k == 'y': return mk(('fld', b[1], n))
            if k == 'p':
                for f, v in b[2]:
                    if f == n: return v
                return mk(('fld', b[1], n))
            if k == 'r': return mk(('fld', ('refraw',), n))
            return mk(('fld', (k,), n))
        if p[0] == 'v':
            if k == 'e': return b if b[2] == p[1] else None
            if k == 'y': return mk(('as', b[1], p[2]))
            if k == 'p': return ('p', T(('as', b[1], p[2])), b[2])
            return b
        if p[0] == 'ix':
            if k == 'coll': return b[1] if b[1] is not None else mk(('emptyelem',))
            if k == 'a':
                return joinall(b[1]) if b[1] else mk(('emptyelem',))
            if k == 'y': return mk(('elem', b[1]))
            if k == 'p': return mk(('elem', b[1]))
            if k in ('b', 's'): return mk(('elem', b))
            return mk(('elem', (k,)))
        if p[0] == 'ci':
            if k == 'a':
                i = len(b[1]) - p[1] if p[2] else p[1]
                if 0 <= i < len(b[1]): return b[1][i]
            if k in ('b', 's') and isinstance(b[1], (bytes, str)):
                bs = b[1] if k == 'b' else b[1].encode('utf8', 'surrogatepass')
                i = len(bs) - p[1] if p[2] else p[1]
                if 0 <= i < len(bs): return ('c', bs[i])
            if k == 'y': return mk(('at', b[1], p[1], p[2]))
            return self.get(b, ('ix',))
        if p[0] == 'ss':
            if k == 'u': return mkunion(tuple(self.get(x, p) for x in b[1]))
            return ('a', b[1][p[1]:len(b[1]) - p[2] if p[3] else p[2]]) if k == 'a' else b
        raise AssertionError(p)

    def load(self, st, cell, proj):
        v = st.mem.get(cell)
        if v is None: v = self.default(cell)
        for p in proj:
            v = self.get(v, p)
            if v is None: return None
        return v

    def upd(self, b, proj, val):
        if not proj: return val
        p = proj[0]
        k = b[0]
        if k == 'u':
            return mkunion(tuple(self.upd(x, proj, val) for x in b[1]))
        if p[0] == 'f':
            i, n = p[1], p[2]
            if k == 'e' and i < len(b[3]):
                fs = list(b[3]); fs[i] = self.upd(fs[i], proj[1:], val); return ('e', b[1], b[2], tuple(fs))
            if k in ('t', 'a') and i < len(b[1]):
                fs = list(b[1]); fs[i] = self.upd(fs[i], proj[1:], val); return (k, tuple(fs))
            if k in ('cl', 'co') and i < len(b[2]):
                fs = list(b[2]); fs[i] = self.upd(fs[i], proj[1:], val); return (k, b[1], tuple(fs))
            if k in ('y', 'p'):
                t = b[1]
                ov = dict(b[2]) if k == 'p' else {}
                cur = ov.get(n, mk(('fld', t, n)))
                ov[n] = self.upd(cur, proj[1:], val)
                return ('p', t, tuple(sorted(ov.items())))
            return b
        if p[0] == 'v':
            if k == 'e':
                return self.upd(b, proj[1:], val) if b[2] == p[1] else b
            if k == 'y':
                # unknown enum written through a downcast: keep as overridden view
                return ('p', b[1], ()) if not proj[1:] else b
            return b
        if p[0] in ('ix', 'ci'):
            if k == 'coll':
                e = b[1]
                nv = self.upd(e if e is not None else mk(('emptyelem',)), proj[1:], val)
                return ('coll', join(e, nv), b[2])
            if k == 'a':
                if p[0] == 'ci':
                    i = len(b[1]) - p[1] if p[2] else p[1]
                    if 0 <= i < len(b[1]): fs = list(b[1]); fs[i] = self.upd(fs[i], proj[1:], val); return ('a', tuple(fs))
                return ('a', tuple(join(x, self.upd(x, proj[1:], val)) for x in b[1]))
            if k in ('y', 'p'):
                e = mk(('elem', b[1]))
                return ('coll', join(e, self.upd(e, proj[1:], val)), 'any')
            return b
        if p[0] == 'ss':
            if k != 'a': return self.upd(b, proj[1:], val)
            hi = len(b[1]) - p[2] if p[3] else p[2]
            m = self.upd(('a', b[1][p[1]:hi]), proj[1:], val)
            return ('a', b[1][:p[1]] + m[1] + b[1][hi:]) if m[0] == 'a' else m
        raise AssertionError(p)

    def store(self, st, cell, proj, val):
        if not proj:
            st.mem[cell] = val
        else:
            b = st.mem.get(cell)
            if b is None: b = self.default(cell)
            st.mem[cell] = self.upd(b, proj, val)

    def place(self, st, frame, pl):
        """resolve a MIR place to [(cell, proj)] (several if a union of references is dereferenced)"""
        cur = [((frame, pl[0]), ())]
        for e in pl[1]:
            if e == '*':
                nxt = []
                for c, pr in cur:
                    v = self.load(st, c, pr)
                    if v is None: continue
                    nxt += self.deref(v, c, pr)
                cur = list(dict.fromkeys(nxt))
            else:
                if 'f' in e: p = ('f', e['f'], e['n'])
                elif 'v' in e: p = ('v', e['v'], e['n'])
                elif 'i' in e:
                    p = ('ix',)
                    iv = self.load(st, (frame, e['i']), ()) if isinstance(e['i'], int) else None
                    if iv is not None and iv[0] == 'c' and isinstance(iv[1], int):
                        nx = []
                        for c, pr in cur:
                            b = self.load(st, c, pr)
                            known = b is not None and b[0] in ('a', 'b', 's') and 0 <= iv[1] < len(b[1])
                            nx.append((c, pr + ((('ci', iv[1], False) if known else p),)))
                        cur = nx
                        continue
                elif 'ci' in e: p = ('ci', e['ci'], e['e'])
                elif 'ss' in e: p = ('ss',) + tuple(e['ss'])
                else: continue
                cur = [(c, pr + (p,)) for c, pr in cur]
        return cur

    def deref(self, v, c, pr):
        if v[0] == 'u':
            out = []
            seen_self = False
            for x in v[1]:
                if x[0] == 'r': out.append((x[1], x[2]))
                elif x[0] == 'y': out.append((('o', x[1]), ()))
                elif not seen_self:
                    seen_self = True
                    out.append((c, pr))
            return out
        if v[0] == 'r': return [(v[1], v[2])]
        if v[0] == 'y' and c[0] != 'o': return [(('o', v[1]), ())]
        return [(c, pr)]

    def loadp(self, st, places):
        r = None
        for c, pr in places:
            v = self.load(st, c, pr)
            if v is not None: r = join(r, v)
        return r

    def rd(self, st, v):
        """read through references (by-value view of an argument)"""
        n = 0
        while v is not None and n < 8:
            if v[0] == 'r':
                v = self.load(st, v[1], v[2])
            elif v[0] == 'u' and any(x[0] == 'r' for x in v[1]):
                r = None
                for x in v[1]:
                    y = self.load(st, x[1], x[2]) if x[0] == 'r' else x
                    if y is not None: r = join(r, y)
                v = r
            else:
                return v
            n += 1
        return v if v is not None else mk(('bot',))

    def deepval(self, st, v, d=0):
        """value with references replaced by what they point to (for embedding in terms)"""
        k = v[0]
        if d > 6: return v
        if k == 'r':
            x = self.load(st, v[1], v[2])
            return self.deepval(st, x, d + 1) if x is not None else mk(('bot',))
        if k == 'y': return v
        if k == 'e': return ('e', v[1], v[2], tuple(self.deepval(st, x, d + 1) for x in v[3]))
        if k in ('t', 'a'): return (k, tuple(self.deepval(st, x, d + 1) for x in v[1]))
        if k in ('cl', 'co'): return (k, v[1], tuple(self.deepval(st, x, d + 1) for x in v[2]))
        if k == 'u': return mkunion(tuple(self.deepval(st, x, d + 1) for x in v[1]))
        if k == 'coll': return ('coll', self.deepval(st, v[1], d + 1) if v[1] is not None else None, v[2])
        return v

    def tmp(self, st, frame, tag, val):
        c = ('tmp', frame, tag)
        st.mem[c] = val
        return ('r', c, ())

    # ---------- knowledge
    def stable(self, v):
        l = labels(v)
        return not (l & {'old', 'w', 'elem', 'top', 'deep', 'uninit', 'impure', 'at', 'emptyelem', 'havoc'})

    def norm(self, v):
        while v[0] == 'e' and len(v[3]) == 1 and len(self.F.adts.get(v[1], {'v': [0]})['v']) == 1:
            v = v[3][0]
        return v

    def rel(self, st, a, b):
        a, b = self.norm(a), self.norm(b)
        r = self.q.rel(self, st, a, b)
        if r is not None:
            return frozenset(r)
        if a[0] == 'u' or b[0] == 'u':
            s = set()
            for x in alts(a):
                for y in alts(b):
                    s |= self.rel(st, x, y)
                    if len(s) == 3: return ALLREL
            return frozenset(s)
        if a[0] == 'c' and b[0] == 'c':
            return frozenset('<' if a[1] < b[1] else '=' if a[1] == b[1] else '>')
        if a[0] in ('s', 'b') and b[0] == a[0]:
            return frozenset('<' if a[1] < b[1] else '=' if a[1] == b[1] else '>')
        if a == b and self.stable(a):
            return frozenset('=')
        if a[0] == 'e' and b[0] == 'e' and a[1] == b[1]:
            if a[2] != b[2]: return frozenset('<' if a[2] < b[2] else '>')
            # lexicographic
            s = set('=')
            for x, y in zip(a[3], b[3]):
                r = self.rel(st, self.rd(st, x), self.rd(st, y))
                s.discard('='); s |= r
                if '=' not in r: break
            return frozenset(s)
        if a[0] == 't' and b[0] == 't':
            s = set('=')
            for x, y in zip(a[1], b[1]):
                r = self.rel(st, self.rd(st, x), self.rd(st, y))
                s.discard('='); s |= r
                if '=' not in r: break
            return frozenset(s)
        s = set(ALLREL)
        k = st.known.get(('rel', a, b))
        if k is not None: s &= k
        k = st.known.get(('rel', b, a))
        if k is not None: s &= {FLIP[x] for x in k}
        if len(s) > 1:
            s &= self.arith(a, b)
        if len(s) > 1:
            # one-step transitivity through a common third term
            near = {}
            for key, rs in st.known.items():
                if key[0] == 'rel':
                    if key[1] == a: near[key[2]] = rs
                    elif key[2] == a: near[key[1]] = frozenset(FLIP[x] for x in rs)
            if near:
                for key, rs in st.known.items():
                    if key[0] != 'rel': continue
                    for m, other, r2 in ((key[1], key[2], rs), (key[2], key[1], frozenset(FLIP[x] for x in rs))):
                        if other == b and m in near:
                            s &= compose(near[m], r2)
        return frozenset(s)

    def arith(self, a, b):
        """linear facts x + c (unsigned, non-overflowing)"""
        xa, ca = lin(a); xb, cb = lin(b)
        if xa == xb and self.stable(xa if xa else ('c', 0)):
            return {'<' if ca < cb else '=' if ca == cb else '>'}
        if b == ('c', 0) and isnat(a): return {'=', '>'}
        if a == ('c', 0) and isnat(b): return {'=', '<'}
        return set(ALLREL)

    def learn_rel(self, st, a, b, rs):
        a, b = self.norm(a), self.norm(b)
        if a[0] == 'u' or b[0] == 'u' or a == b: return
        if a[0] == 'c' and b[0] == 'c': return
        if ('rel', b, a) in st.known:
            a, b, rs = b, a, frozenset(FLIP[x] for x in rs)
        k = st.known.get(('rel', a, b), ALLREL)
        st.known[('rel', a, b)] = frozenset(rs) & k

    def truth(self, st, v):
        """[(state, bool)] with what each outcome teaches"""
        k = v[0]
        if k == 'c': return [(st, bool(v[1]))]
        if k == 'u':
            out = []
            for x in v[1]:
                for s2, b in self.truth(st.copy(), x): out.append((s2, b))
            return out
        if k != 'y': return [(st.copy(), True), (st, False)]
        t = v[1]
        o = self.q.truth(self, st, t)
        if t[0] == 'not':
            return [(s, not b) for s, b in self.truth(st, t[1])]
        if t[0] == 'cmp':
            op, a, b = t[1], t[2], t[3]
            rs = self.rel(st, a, b)
            yes = rs & frozenset(op); no = rs - frozenset(op)
            out = []
            if yes and (o is None or True in o):
                s = st.copy() if no else st
                self.learn_rel(s, a, b, yes); out.append((s, True))
            if no and (o is None or False in o):
                self.learn_rel(st, a, b, no); out.append((st, False))
            return out
        if t[0] == 'isvar':
            base, adt, vi = t[1], t[2], t[3]
            poss = self.sym_variants(st, base, adt)
            out = []
            if vi in poss:
                s = st.copy(); s.known[base] = frozenset((vi,)); out.append((s, True))
            rest = poss - {vi}
            if rest:
                st.known[base] = rest; out.append((st, False))
            return out
        kn = st.known.get(t)
        poss = {True, False}
        if kn is not None: poss &= {bool(x) for x in kn}
        if o is not None: poss &= set(o)
        out = []
        for b in poss:
            s = st.copy(); s.known[t] = frozenset((int(b),)); out.append((s, b))
        return out

    def sym_variants(self, st, term, adt):
        vs = self.variants(adt)
        allv = frozenset(range(len(vs))) if vs else frozenset((0,))
        if term[0] == 'cmp3':
            rs = self.rel(st, term[1], term[2])
            poss = frozenset({'<': 0, '=': 1, '>': 2}[r] for r in rs)
        else:
            poss = allv
        k = st.known.get(term)
        if k is not None: poss &= k
        o = self.q.variant(self, st, term, adt)
        if o is not None:
            poss &= frozenset(i for i, v in enumerate(vs) if v['n'] in o)
        return poss

    def conc(self, term, adt, vi):
        term = T(term)
        v = self.variants(adt)[vi]
        return ('e', adt, vi, tuple(mk(('fld', ('as', term, v['n']), f[0])) for f in v['f']))

    def learn_var(self, st, term, adt, vi):
        st.known[term] = frozenset((vi,))
        if term[0] == 'cmp3':
            self.learn_rel(st, term[1], term[2], '<=>'[vi])

    def split(self, st, v, adt):
        """split a value by variant: [(state, vi, value-with-known-variant)]"""
        out = []
        for x in alts(v):
            if x[0] == 'e':
                if x[1] == adt or adt is None: out.append((st.copy(), x[2], x))
            elif x[0] in ('y', 'p'):
                for vi in sorted(self.sym_variants(st, x[1], adt)):
                    s = st.copy(); self.learn_var(s, x[1], adt, vi)
                    out.append((s, vi, self.conc(x[1], adt, vi)))
            elif x[0] == 'r':
                w = self.load(st, x[1], x[2])
                if w is not None: out += self.split(st, w, adt)
            else:
                for vi in range(len(self.variants(adt) or [0])):
                    out.append((st.copy(), vi, self.conc(('opq', x[0]), adt, vi)))
        return out

    def split_place(self, st, cell, proj, adt):
        """split the value stored at a place by variant, refining the place: [(state, vi)]"""
        v = self.load(st, cell, proj)
        if v is None: return []
        if v[0] == 'r':
            return self.split_place(st, v[1], v[2], adt)
        by = {}
        for x in alts(v):
            if x[0] == 'r':
                w = self.load(st, x[1], x[2])
                xs = alts(w) if w is not None else ()
            else: xs = (x,)
            for x in xs:
                if x[0] == 'e': by.setdefault(x[2], []).append((x, None))
                elif x[0] in ('y', 'p'):
                    for vi in self.sym_variants(st, x[1], adt):
                        by.setdefault(vi, []).append((self.conc(x[1], adt, vi), x[1]))
                else:
                    for vi in range(len(self.variants(adt) or [0])):
                        by.setdefault(vi, []).append((self.conc(('opq', x[0]), adt, vi), None))
        out = []
        single = len(alts(v)) == 1
        for vi, lst in sorted(by.items()):
            s = st.copy()
            self.store(s, cell, proj, joinall([x for x, _ in lst]))
            if single and lst[0][1] is not None:
                self.learn_var(s, lst[0][1], adt, vi)
            out.append((s, vi))
        return out

    # ---------- terms for calls
    def opaque(self, st, name, args, site=None, ty=None):
        a = tuple(self.deepval(st, x) for x in args)
        if site is not None: a = tuple(self.cap(x) for x in a)
        t = T(('call', name, a) if site is None else ('call', name, a, ('impure', site)))
        if t.depth > 36:
            t = T(('call', name, (mk(('deep', tuple(sorted(labels(t))))),), ('impure', site)))
        if site is not None:
            self.fresh(st, t)
        return ('y', t)

    CAP = 12
    def cap(self, v):
        return v if depth(v) <= self.CAP else mk(('big',))

    def fresh(self, st, t):
        """t is about to denote a new value: values of earlier rounds become old(t)"""
        t = T(t)
        o = T(('old', t))
        memo = {}
        ch = {}
        for c, v in st.mem.items():
            w = subst(v, t, o, memo)
            if w is not v: ch[c] = w
        if ch: st.mem.update(ch)
        oc = [c for c in st.mem if c[0] == 'o' and t in c[1].subs]
        for c in oc:
            v = st.mem.pop(c)
            st.mem[('o', subst(c[1], t, o, memo))] = v
        bad = [k for k in st.known if mentions(k, t)]
        for k in bad:
            st.known.pop(k)

    # ---------- operands
    def const(self, st, k):
        F = self.F
        ty = F.types[k['ty']]
        if 'fn' in k:
            return ('fn', FnRef(k))
        if 'prom' in k:
            path, i = k['prom']
            return self.eval_static(st, f'{path}::promoted[{i}]', ref=True)
        nm = k.get('name')
        if nm and nm in F.bodies and ty['k'] in ('adt', 'tuple', 'array', 'ref') and 'str' not in k:
            v = self.eval_static(st, nm)
            if v is not None: return v
        if 'v' in k:
            if ty['k'] == 'adt':
                a = F.adts[ty['n']]
                if a['k'] == 'enum':
                    for i, vv in enumerate(a['v']):
                        if vv['d'] == k['v'] and not vv['f']: return ('e', ty['n'], i, ())
                    return mk(('const', nm or ty['s'], k['v']))
                if len(a['v'][0]['f']) == 1: return ('e', ty['n'], 0, (('c', k['v']),))
            return ('c', k['v'])
        if 'str' in k: return ('s', k['str'])
        if 'bytes' in k: return ('b', bytes(k['bytes']))
        if ty['k'] == 'tuple' and not ty['a']: return UNIT
        if k.get('zst') and ty['k'] == 'adt' and ty['n'] in F.adts and F.adts[ty['n']]['k'] == 'struct':
            return ('e', ty['n'], 0, tuple(UNIT for _ in F.adts[ty['n']]['v'][0]['f']))
        if k.get('zst') and ty['k'] == 'closure': return ('cl', ty['n'], ())
        return mk(('const', nm or ty['s']))

    def eval_static(self, st, path, ref=False):
        if path not in self.prom_cache:
            b = self.F.bodies.get(path)
            if b is None:
                self.prom_cache[path] = (None, {})
            else:
                s0 = State()
                self.prom_cache[path] = (mk(('const', path)), {})
                try:
                    rs = self.run_body(s0, b, [], ('static', path), keep=True)
                except RecursionError:
                    raise
                if rs:
                    v = joinall([r for _, r in rs]); mem = {}
                    for s, _ in rs: mem.update(s.mem)
                    self.prom_cache[path] = (v, mem)
        v, mem = self.prom_cache[path]
        if v is None: return None
        for c, x in mem.items():
            if c not in st.mem: st.mem[c] = x
        return v

    def operand(self, st, frame, o):
        if 'k' in o: return self.const(st, o['k'])
        pl = o.get('c') or o.get('m')
        v = self.loadp(st, self.place(st, frame, pl))
        return v

    def rvalue(self, st, frame, r, site):
        """returns [(state, value)]"""
        k = r[0]
        if k == 'use':
            v = self.operand(st, frame, r[1])
            return [(st, v)] if v is not None else []
        if k == 'ref':
            ps = self.place(st, frame, r[1])
            if r[1][1] == ['*'] and ps == [((frame, r[1][0]), ())]:
                # a text held by value stands for itself, also through a reborrow
                v = self.load(st, *ps[0])
                if v is not None and v[0] == 's': return [(st, v)]
            v = None
            for c, pr in ps:
                # reference to something that is itself reached through an unknown pointer stays a place
                v = join(v, ('r', c, pr))
            return [(st, v)] if v is not None else []
        if k == 'agg':
            kk = r[1]
            fs = []
            for o in r[2]:
                v = self.operand(st, frame, o)
                if v is None: return []
                fs.append(v)
            fs = tuple(fs)
            if kk['k'] == 'adt': v = ('e', kk['n'], kk['v'], fs)
            elif kk['k'] == 'tuple': v = ('t', fs)
            elif kk['k'] == 'array': v = ('a', fs)
            elif kk['k'] == 'closure': v = ('cl', kk['n'], fs)
            elif kk['k'] == 'coroutine': v = ('co', kk['n'], fs)
            else: v = fs[0]
            if kk['k'] == 'adt':
                self.q.on_agg(self, st, v, site)
            return [(st, v)]
        if k == 'discr':
            ps = self.place(st, frame, r[1])
            ty = self.F.types[r[2]]
            adt = ty.get('n') if ty['k'] == 'adt' else None
            if len(ps) == 1 and adt:
                c, pr = ps[0]
                v = self.load(st, c, pr)
                if v is None: return []
                if v[0] == 'e': return [(st, ('c', self.F.adts[v[1]]['v'][v[2]]['d']))]
                return [(st, mk(('dp', c, pr, adt)))]
            v = self.loadp(st, ps)
            if v is None: return []
            if adt:
                out = []
                for s, vi, _ in self.split(st, v, adt):
                    out.append((s, ('c', self.F.adts[adt]['v'][vi]['d'])))
                return out
            return [(st, mk(('discr', v)))]
        if k == 'bin':
            a = self.operand(st, frame, r[2]); b = self.operand(st, frame, r[3])
            if a is None or b is None: return []
            return self.binop(st, r[1], a, b)
        if k == 'un':
            a = self.operand(st, frame, r[2])
            if a is None: return []
            if r[1] == 'Not':
                if self.dty in BITS:
                    return [(st, ('c', fit(self.dty, ~a[1])) if a[0] == 'c' else mk(('un', 'Not', a)))]
                if a[0] == 'c' and a[1] in (0, 1): return [(st, ('c', 1 - a[1]))]
                if a[0] == 'y': return [(st, mk(('not', a)))]
                return [(s, boolv(not b)) for s, b in self.truth(st, a)]
            if r[1] == 'PtrMetadata':
                return [(st, self.length(st, self.rd(st, a)))]
            if r[1] == 'Neg' and a[0] == 'c': return [(st, ('c', -a[1]))]
            return [(st, mk(('un', r[1], a)))]
        if k == 'cast':
            a = self.operand(st, frame, r[1])
            if a is None: return []
            if r[3].startswith('IntToInt'):
                tw, tf = self.F.ty_s(r[2]), self.F.ty_s(r[4])
                ta = self.F.types[r[4]]
                if ta['k'] == 'adt' and a[0] == 'e':
                    a = ('c', self.F.adts[a[1]]['v'][a[2]]['d'])
                W = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'i8': 7, 'i16': 15, 'i32': 31, 'i64': 63, 'u128': 128, 'bool': 1, 'isize': 63}
                if a[0] == 'c':
                    return [(st, ('c', fit(tw, fit(tf, a[1]))))]
                if tw in W and tf in W and W[tw] < W[tf]:
                    return [(st, mk(('trunc', tw, a)))]
                return [(st, a)]
            if r[3].startswith('PointerCoercion') or 'Ptr' in r[3] or 'Transmute' in r[3] or 'Subtype' in r[3]:
                return [(st, a)]
            return [(st, mk(('cast', self.F.ty_s(r[2]), a)))]
        if k == 'repeat':
            a = self.operand(st, frame, r[1])
            if a is not None and isinstance(r[2], int) and 0 < r[2] <= 16: return [(st, ('a', (a,) * r[2]))]
            return [(st, ('coll', a, 'ne' if r[2] else 'any'))] if a is not None else []
        return [(st, mk(('rv', k, site)))]

    def binop(self, st, op, a, b):
        if op in OPS:
            if a[0] == 'y' and a[1][0] == 'dp' or b[0] == 'y' and b[1][0] == 'dp':
                return [(st, mk(('cmp', OPS[op], a, b)))]
            rs = self.rel(st, a, b)
            if rs == frozenset('?'): return [(st, boolv(op == 'Ne'))]     # incomparable (NaN)
            y, n = rs & frozenset(OPS[op]), rs - frozenset(OPS[op])
            if y and not n: return [(st, TRUE)]
            if n and not y: return [(st, FALSE)]
            if not rs: return []
            return [(st, mk(('cmp', OPS[op], self.norm(a), self.norm(b))))]
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            ab = [isboolish(a), isboolish(b)]
            if all(ab):
                out = []
                for s, x in self.truth(st, a):
                    for s2, y in self.truth(s, b):
                        out.append((s2, boolv({'BitAnd': x and y, 'BitOr': x or y, 'BitXor': x != y}[op])))
                return out
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if a[0] == 'c' and b[0] == 'c':
            try:
                v = {'Add': lambda: a[1] + b[1], 'Sub': lambda: a[1] - b[1], 'Mul': lambda: a[1] * b[1], 'Div': lambda: tdiv(a[1], b[1]),
                     'Rem': lambda: a[1] - b[1] * tdiv(a[1], b[1]), 'Shl': lambda: a[1] << b[1], 'Shr': lambda: a[1] >> b[1],
                     'BitAnd': lambda: a[1] & b[1], 'BitOr': lambda: a[1] | b[1], 'BitXor': lambda: a[1] ^ b[1]}[base]()
                r = ('c', v)
            except Exception:
                r = mk(('bin', base, a, b))
        else:
            r = self.arith_mk(base, a, b)
        t = self.dty
        if r[0] == 'c' and isinstance(r[1], int) and not isinstance(r[1], bool) and t:
            ti = t[1:].split(',')[0] if t[0] == '(' else t
            if ti in BITS:
                w = ('c', fit(ti, r[1]))
                if 'WithOverflow' in op: return [(st, ('t', (w, boolv(w != r))))]
                r = w
        if 'WithOverflow' in op: r = ('t', (r, FALSE))
        return [(st, r)]

    def arith_mk(self, op, a, b):
        if op in ('Max', 'Min') and a[0] == 'c' and b[0] == 'c': return ('c', (max if op == 'Max' else min)(a[1], b[1]))
        if op == 'Add' and b == ('c', 0): return a
        if op == 'Add' and a == ('c', 0): return b
        if op == 'Sub' and b == ('c', 0): return a
        if op in ('Add', 'Mul', 'BitAnd', 'BitOr', 'BitXor', 'Max', 'Min') and repr(b) < repr(a): a, b = b, a
        if op == 'Add' and a[0] == 'c' and b[0] == 'y' and b[1][0] == 'bin' and b[1][1] == 'Add' and b[1][2][0] == 'c':
            return mk(('bin', 'Add', ('c', a[1] + b[1][2][1]), b[1][3]))
        return mk(('bin', op, a, b))

    def length(self, st, v):
        if v[0] == 'coll' and v[2] == 'empty': return ('c', 0)
        if v[0] == 'a': return ('c', len(v[1]))
        if v[0] == 's': return ('c', len(v[1].encode('utf8', 'surrogatepass')))
        if v[0] == 'b': return ('c', len(v[1]))
        return mk(('len', self.deepval(st, v)))

    # ---------- running
    def frame_id(self, parent, bb, path):
        key = (parent, bb, path)
        i = self.frames.get(key)
        if i is None:
            i = len(self.frame_list)
            self.frames[key] = i
            self.frame_list.append(key)
        return i

    def chain(self, frame):
        out = []
        f = frame
        while isinstance(f, int):
            p, bb, path = self.frame_list[f]
            out.append((path, bb))
            f = p
        return out

    def fn_of(self, frame):
        return self.frame_list[frame][2]

    def where(self, frame, bb):
        path = self.frame_list[frame][2]
        b = self.F.bodies[path]
        return f"{b['loc'][0]}:{b['b'][bb]['l']} in {path}"

    def enum_locals(self, body):
        k = body['key']
        r = self._enum_locals.get(k)
        if r is None:
            r = []
            for i, l in enumerate(body['locals']):
                t = self.F.types[l[0]]
                if t['s'] == 'bool' or (t['k'] == 'adt' and self.F.adts.get(t['n'], {}).get('k') == 'enum') or \
                   (t['k'] == 'tuple' and t['a'] and any(self.F.types[x]['s'] == 'bool' or self.F.types[x]['k'] == 'adt' and self.F.adts.get(self.F.types[x]['n'], {}).get('k') == 'enum' for x in t['a'])) or t['s'] == 'isize' or t['s'] == 'i8':
                    r.append(i)
            self._enum_locals[k] = r
        return r

    def liveness(self, body):
        """per block: locals (never borrowed) that are dead on entry"""
        k = id(body)
        r = _live.get(k)
        if r is not None: return r
        blocks = body['b']
        n = len(blocks)
        borrowed = set()
        use = [set() for _ in range(n)]; dfn = [set() for _ in range(n)]
        succs = [[] for _ in range(n)]
        def uop(o, i):
            pl = o.get('c') or o.get('m')
            if pl: upl(pl, i)
        def upl(pl, i):
            if pl[0] not in dfn[i]: use[i].add(pl[0])
            for e in pl[1]:
                if isinstance(e, dict) and 'i' in e and e['i'] not in dfn[i]: use[i].add(e['i'])
        def wpl(pl, i):
            if pl[1]: upl(pl, i)
            else: dfn[i].add(pl[0])
        for i, bl in enumerate(blocks):
            for s in bl['s']:
                if s[0] == '=':
                    rv = s[2]
                    if rv[0] == 'ref':
                        if '*' not in rv[1][1]: borrowed.add(rv[1][0])
                        upl(rv[1], i)
                    elif rv[0] == 'discr':
                        upl(rv[1], i); borrowed.add(rv[1][0]) if False else None
                    else:
                        for x in rv[1:]:
                            if isinstance(x, dict): uop(x, i)
                            elif isinstance(x, list):
                                for y in x:
                                    if isinstance(y, dict): uop(y, i)
                    wpl(s[1], i)
                elif s[0] == 'dead': dfn[i].add(s[1])
            t = bl['t']
            if t[0] == 'switch':
                uop(t[1], i); succs[i] = [x for _, x in t[2]] + [t[3]]
            elif t[0] == 'goto': succs[i] = [t[1]]
            elif t[0] == 'drop':
                upl(t[1], i); succs[i] = [t[2]]
            elif t[0] == 'call':
                uop(t[1], i)
                for o in t[2]: uop(o, i)
                wpl(t[3], i)
                if t[4] is not None: succs[i] = [t[4]]
            elif t[0] == 'assert':
                uop(t[1], i); succs[i] = [t[3]]
            elif t[0] == 'yield':
                succs[i] = [t[1]]
                for x in t[2:]:
                    if isinstance(x, dict): uop(x, i)
            elif t[0] == 'ret': use[i].add(0)
        live = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                o = set()
                for j in succs[i]: o |= live[j]
                new = use[i] | (o - dfn[i])
                if new != live[i]: live[i] = new; ch = True
        allx = [l for l in range(body['argc'] + 1, len(body['locals'])) if l not in borrowed]
        r = [[l for l in allx if l not in live[i]] for i in range(n)]
        _live[k] = r
        return r

    def skey(self, st, body, frame):
        m = st.mem
        ks = []
        for l in self.enum_locals(body):
            v = m.get((frame, l))
            if v is not None:
                s = shape(v)
                if s is not None: ks.append((l, s))
        if self.q.exact:
            for l in range(1, len(body['locals'])):
                v = m.get((frame, l))
                if v is None: continue
                g = ground(v)
                if g is not None: ks.append((l, g))
        return (tuple(ks), st.sig(), self.q.key_extra(self, st, frame))

    def run_body(self, st, body, args, site, keep=False):
        """inline a body: [(state, return value)]"""
        path = body['key']
        frame = self.frame_id(site[0], site[1], path)
        self.visited.add(path)
        for i, a in enumerate(args):
            st.mem[(frame, i + 1)] = a
        blocks = body['b']
        pend = {0: {}}
        k0 = self.skey(st, body, frame)
        pend[0][k0] = st
        seen = {}          # (bb, key) -> (state, count)
        rets = {}
        order = rpo(body)
        dead = self.liveness(body)
        import heapq
        heap = [(order.get(0, 0), 0)]
        inheap = {0}
        while heap:
            _, bb = heapq.heappop(heap)
            inheap.discard(bb)
            work = pend.pop(bb, {})
            if len(work) > self.q.max_states:
                m = {}
                for k, s in work.items():
                    kk = (None, k[1], k[2])
                    m[kk] = join_state(m[kk], s) if kk in m else s
                work = m
            nseen = sum(1 for (b2, _k) in seen if b2 == bb) if len(work) > 8 else 0
            for key, s in work.items():
                if nseen + len(work) > 3 * self.q.max_states:
                    key = (None, key[1], key[2])
                old = seen.get((bb, key))
                if old is not None:
                    os, cnt = old
                    ns = join_state(os, s)
                    if cnt >= 2: ns = self.widen(os, ns, frame, bb, cnt)
                    if same_state(os, ns): continue
                    seen[(bb, key)] = (ns, cnt + 1)
                    s = ns
                else:
                    seen[(bb, key)] = (s, 0)
                self.steps += 1
                if self.steps > self.q.max_steps:
                    raise Budget(f'step budget exceeded in {path}')
                for tgt, s2 in self.block(s.copy(), body, frame, bb):
                    if tgt == 'ret':
                        rv = s2.mem.get((frame, 0), mk(('uninit',)))
                        rk = (shape(rv), s2.sig(), self.q.key_extra(self, s2, frame))
                        if rk in rets:
                            o = rets[rk]
                            rets[rk] = join_state(o, s2)
                        else:
                            rets[rk] = s2
                        continue
                    for l in dead[tgt]:
                        s2.mem.pop((frame, l), None)
                    k2 = self.skey(s2, body, frame)
                    d = pend.setdefault(tgt, {})
                    d[k2] = join_state(d[k2], s2) if k2 in d else s2
                    if tgt not in inheap:
                        inheap.add(tgt)
                        heapq.heappush(heap, (order.get(tgt, 0), tgt))
        out = []
        for rk, s in rets.items():
            rv = s.mem.get((frame, 0), mk(('uninit',)))
            if not keep:
                for c in [c for c in s.mem if c[0] == frame]:
                    del s.mem[c]
                if self.q.exact:
                    for g in [g for g in s.ghost if g[0] == 'xl' and g[1][0] == frame]: s.ghost.pop(g)
            out.append((s, rv))
        return out

    def widen(self, os, ns, frame, bb, cnt):
        for c, v in list(ns.mem.items()):
            o = os.mem.get(c)
            if o is not None and o != v:
                ns.mem[c] = self.wv(o, v, (frame, bb, c), cnt)
        return ns

    def wv(self, o, v, tag, cnt):
        """widening: keeps structure, replaces leaves that keep changing by w(tag)"""
        if o == v: return v
        oa = {}
        for x in alts(o): oa.setdefault(_gkey(x), x)
        out = []
        for x in alts(v):
            y = oa.get(_gkey(x))
            if y == x: out.append(x); continue
            k = x[0]
            if k in ('e', 't', 'a', 'cl', 'co', 'coll', 'p') and len(tag) > 12: out.append(mk(('w', tag[:12]))); continue
            if y is not None:
                if k == 'e': x = ('e', x[1], x[2], tuple(self.wv(p, q, tag + (i,), cnt) for i, (p, q) in enumerate(zip(y[3], x[3]))))
                elif k in ('t', 'a'): x = (k, tuple(self.wv(p, q, tag + (i,), cnt) for i, (p, q) in enumerate(zip(y[1], x[1]))))
                elif k in ('cl', 'co'): x = (k, x[1], tuple(self.wv(p, q, tag + (i,), cnt) for i, (p, q) in enumerate(zip(y[2], x[2]))))
                elif k == 'coll':
                    if x[1] is not None and y[1] is not None: x = ('coll', self.wv(y[1], x[1], tag + ('el',), cnt), x[2])
                elif k == 'p':
                    od = dict(y[2])
                    x = ('p', x[1], tuple((f, self.wv(od[f], z, tag + (f,), cnt) if f in od else z) for f, z in x[2]))
                out.append(x)
            elif k in ('c', 's') or (k == 'y' and x[1][0] in ('bin', 'w', 'mut')) or cnt > 6 and k == 'y' or cnt > 12:
                out.append(mk(('w', tag)))
            else:
                out.append(x)
        if any(x[0] == 'y' and x[1][0] == 'w' for x in out):
            out = [x for x in out if not (x[0] == 'c' and x[1] not in (0, 1) or x[0] == 'y' and x[1][0] in ('bin', 'mut'))]
        return mkunion(tuple(out))

    def block(self, st, body, frame, bb):
        bl = body['b'][bb]
        sts = [st]
        for si, s in enumerate(bl['s']):
            if s[0] == '=':
                nxt = []
                for x in sts:
                    if s[2][0] in ('bin', 'un'): self.dty = None if s[1][1] else self.F.ty_s(body['locals'][s[1][0]][0])
                    vs = self.rvalue(x, frame, s[2], (frame, bb, si))
                    self.dty = None
                    for x2, v in vs:
                        if v is None: continue
                        self.assign(x2, frame, s[1], v, (frame, bb))
                        nxt.append(x2)
                sts = nxt
                self.consume_rv(sts, frame, s[2])
            elif s[0] == 'dead':
                for x in sts: x.mem.pop((frame, s[1]), None)
            elif s[0] == 'setd':
                for x in sts:
                    for c, pr in self.place(x, frame, s[1]):
                        v = self.load(x, c, pr)
        out = []
        t = bl['t']
        k = t[0]
        for x in sts:
            if k == 'goto': out.append((t[1], x))
            elif k == 'ret': out.append(('ret', x))
            elif k == 'switch': out += self.switch(x, frame, t)
            elif k == 'drop':
                v = self.loadp(x, self.place(x, frame, t[1]))
                if v is not None: self.q.on_drop(self, x, t[3], v, (frame, bb))
                if not t[1][1]: x.mem.pop((frame, t[1][0]), None) if False else None
                out.append((t[2], x))
            elif k == 'assert':
                v = self.operand(x, frame, t[1])
                if v is None: continue
                for s2, b in self.truth(x, v):
                    if b == t[2]: out.append((t[3], s2))
            elif k == 'yield':
                self.assign(x, frame, t[2], mk(('resume',)), (frame, bb))
                out.append((t[1], x))
            elif k == 'call':
                out += self.call(x, body, frame, bb, t)
        return out

    def consume_rv(self, sts, frame, r):
        """forget moved-from whole locals (keeps the disjunction key small)"""
        ops = []
        if r[0] == 'use': ops = [r[1]]
        elif r[0] == 'agg': ops = r[2]
        for o in ops:
            m = o.get('m')
            if m and not m[1]:
                for x in sts: x.mem.pop((frame, m[0]), None)

    def assign(self, st, frame, pl, v, site):
        ps = self.place(st, frame, pl)
        if len(ps) == 1:
            c, pr = ps[0]
            if pr or c[0] != frame:
                r = self.q.on_write(self, st, c, pr, v, site)
            self.store(st, c, pr, v)
        else:
            for c, pr in ps:
                self.q.on_write(self, st, c, pr, v, site)
                o = self.load(st, c, pr)
                self.store(st, c, pr, join(o, v) if o is not None else v)

    def switch(self, st, frame, t):
        v = self.operand(st, frame, t[1])
        if v is None: return []
        targets, other = t[2], t[3]
        isbool = self.F.ty_s(t[4]) == 'bool'
        out = []
        if v[0] == 'u':
            for x in v[1]:
                s = st.copy()
                # refine the switched local
                pl = t[1].get('c') or t[1].get('m')
                if pl:
                    ps = self.place(s, frame, pl)
                    if len(ps) == 1: self.store(s, ps[0][0], ps[0][1], x)
                out += self._switch1(s, frame, x, targets, other, isbool)
            return out
        return self._switch1(st, frame, v, targets, other, isbool)

    def _switch1(self, st, frame, v, targets, other, isbool):
        if v[0] == 'c':
            for val, b in targets:
                if val == v[1] or (v[1] < 0 and any((v[1] & ((1 << w) - 1)) == val for w in (8, 16, 32, 64))):
                    return [(b, st)]
            return [(other, st)]
        if v[0] == 'y' and v[1][0] == 'dp':
            _, c, pr, adt = v[1]
            tm = dict((d, b) for d, b in targets)
            out = []
            vs = self.variants(adt)
            n = len(vs)
            if n <= 6:
                for s, vi in self.split_place(st, c, pr, adt):
                    out.append((tm.get(vs[vi]['d'], other), s))
                return out
            # many variants: split the listed ones, keep the rest together
            val = self.load(st, c, pr)
            listed = [i for i, x in enumerate(vs) if x['d'] in tm]
            if val is not None and val[0] in ('y', 'p'):
                poss = self.sym_variants(st, val[1], adt)
                for i in listed:
                    if i in poss:
                        s = st.copy(); self.store(s, c, pr, self.conc(val[1], adt, i)); self.learn_var(s, val[1], adt, i)
                        out.append((tm[vs[i]['d']], s))
                rest = poss - frozenset(listed)
                if rest:
                    st.known[val[1]] = rest
                    if len(rest) == 1:
                        self.store(st, c, pr, self.conc(val[1], adt, next(iter(rest))))
                    out.append((other, st))
                return out
            for s, vi in self.split_place(st, c, pr, adt):
                out.append((tm.get(vs[vi]['d'], other), s))
            return out
        if isbool:
            f = None; tr = other
            for val, b in targets:
                if val == 0: f = b
                if val == 1: tr = b
            if f is None: f = other
            return [(tr if b else f, s) for s, b in self.truth(st, v)]
        # integer switch on unknown: learn equality per target
        out = []
        if v[0] == 'y':
            rest = st.copy()
            alive = True
            for val, b in targets:
                rs = self.rel(st, v, ('c', val))
                if '=' in rs:
                    s = st.copy(); self.learn_rel(s, v, ('c', val), '='); out.append((b, s))
                if rs == frozenset('='): alive = False
                self.learn_rel(rest, v, ('c', val), '<>')
            if alive: out.append((other, rest))
            return out
        return [(b, st.copy()) for _, b in targets] + [(other, st)]

    # ---------- calls
    def call(self, st, body, frame, bb, t):
        fv = self.operand(st, frame, t[1])
        args = []
        for o in t[2]:
            a = self.operand(st, frame, o)
            if a is None: return []
            args.append(a)
        for o in t[2]:
            m = o.get('m')
            if m and not m[1]: st.mem.pop((frame, m[0]), None)
        res = self.call_value(st, fv, args, frame, bb, line=t[5])
        out = []
        if t[4] is None: return []
        for s, v in res:
            if v is None: continue
            self.assign(s, frame, t[3], v, (frame, bb))
            out.append((t[4], s))
        return out

    def call_value(self, st, fv, args, frame, bb, line=None):
        """call a function-like value: [(state, value)]"""
        if fv is None: return []
        if fv[0] == 'u':
            out = []
            for x in fv[1]: out += self.call_value(st.copy(), x, list(args), frame, bb, line)
            return out
        if fv[0] == 'r':
            return self.call_value(st, self.rd(st, fv), args, frame, bb, line)
        if fv[0] == 'cl':
            b = self.F.bodies.get(fv[1])
            if b is None: return [(st, self.opaque(st, 'closure', [fv] + args, (frame, bb)))]
            selfty = self.F.types[b['locals'][1][0]]
            if selfty['k'] == 'ref':
                a0 = self.tmp(st, frame, ('clo', bb, fv[1]), fv)
            else: a0 = fv
            return self.inline(st, b, [a0] + list(args), frame, bb)
        if fv[0] == 'fn':
            return self.call_fn(st, fv[1], args, frame, bb, line)
        return [(st, self.opaque(st, 'dyncall', [fv] + list(args), (frame, bb)))]

    def inline(self, st, b, args, frame, bb):
        path = b['key']
        ch = self.chain(frame)
        if sum(1 for p, _ in ch if p == path) >= getattr(self.q, 'rec', 2) or len(ch) > 60:
            return [(st, self.opaque(st, 'rec:' + path, args, (frame, bb)))]
        return self.run_body(st, b, args, (frame, bb))

    def call_fn(self, st, fr, args, frame, bb, line=None):
        k = fr.k
        c = Call()
        c.fn = k['fn']; c.name = k.get('res') or k['fn']; c.trait = k.get('trait'); c.short = k.get('name')
        c.args = args; c.ga = k.get('ga', []); c.frame = frame; c.bb = bb; c.line = line; c.k = k
        self.sites.add((self.fn_of(frame) if isinstance(frame, int) else str(frame), bb))
        # tuple/enum constructors used as functions
        body = self.F.bodies.get(c.name)
        if body is not None and c.trait is not None and c.name == c.fn:
            # a provided method called through a type parameter: the implementation for the actual type may override it
            o = self.resolve_trait(st, c, True)
            if o is not None: body = o; c.name = o['key']
        if body is None and c.trait is not None:
            body = self.resolve_trait(st, c)
            if body is not None:
                c.name = body['key']
                # `<&mut I as Iterator>::next`: the implementation takes one reference, peel the others
                a0 = args[0] if args else None
                for _ in range(4):
                    w = self.load(st, a0[1], a0[2]) if a0 is not None and a0[0] == 'r' else None
                    if w is None or w[0] != 'r': break
                    a0 = w
                if args and a0 is not args[0]: args = c.args = [a0] + list(args[1:])
        c.body = body
        r = self.q.on_call(self, st, c)
        if r is not None: return r
        if c.short in ('call_once', 'call_mut', 'call', 'async_call_once') and c.trait and 'function' in c.trait:
            a = args[1]
            aa = list(a[1]) if a[0] == 't' else [a]
            return self.call_value(st, args[0], aa, frame, bb, line)
        m = self.models.get(c.fn)
        if m is not None:
            r = m(self, st, c)
            if r is not None: return r
        if body is not None and not self.is_opaque(c.name) and self.q.inline(c.name):
            return self.inline(st, body, args, frame, bb)
        ctor = self.ctor(c)
        if ctor is not None:
            v = ('e', ctor[0], ctor[1], tuple(args))
            self.q.on_agg(self, st, v, (frame, bb, 'ctor'))
            return [(st, v)]
        return self.unknown(st, c)

    def is_opaque(self, name):
        for o in self.q.opaque:
            if name == o or name.endswith(o): return True
        return False

    def ctor(self, c):
        """enum/struct tuple constructor used as a function value"""
        name = c.fn
        parts = name.rsplit('::', 1)
        if len(parts) != 2: return None
        head = strip_generics(parts[0])
        a = self.F.adts.get(parts[0]) or self.F.adts.get(head)
        hk = parts[0] if parts[0] in self.F.adts else head
        if a and a['k'] == 'enum':
            for i, v in enumerate(a['v']):
                if v['n'] == parts[1] and len(v['f']) == len(c.args): return (hk, i)
        full = strip_generics(name)
        a = self.F.adts.get(full)
        if a and a['k'] == 'struct' and len(a['v'][0]['f']) == len(c.args): return (full, 0)
        return None

    def unknown(self, st, c):
        nm = c.fn
        if c.body is None:
            self.unmodelled[nm] = self.unmodelled.get(nm, 0) + 1
            OPAQUE.add(nm)
        imp = any(isinstance(a, tuple) and a[0] == 'r' and self.is_mut_arg(c, i) for i, a in enumerate(c.args))
        site = (c.frame, c.bb)
        v = self.opaque(st, c.name if c.body is not None else nm, c.args, site if (imp or nm in IMPURE or c.short in IMPURE_SHORT or is_async_name(nm)) else None)
        if imp:
            for i, a in enumerate(c.args):
                if a[0] == 'r' and self.is_mut_arg(c, i):
                    o = self.load(st, a[1], a[2])
                    if o is not None and o[0] in ('y', 'c', 's', 'p', 'e'):
                        self.store(st, a[1], a[2], mk(('mut', nm, self.cap(self.deepval(st, o)), tuple(self.cap(self.deepval(st, x)) for j, x in enumerate(c.args) if j != i))))
        return [(st, v)]

    MUT_OK = ('deref_mut',)
    def is_mut_arg(self, c, i):
        if c.body is not None:
            t = self.F.types[c.body['locals'][i + 1][0]]
            return t['k'] == 'ref' and t['m']
        # external: use the reference kind recorded in the caller's local type when available
        return c.short in MUT_SHORT and i == 0

    def resolve_trait(self, st, c, provided=False):
        lst = self.F.trait_impls.get((c.trait, c.short))
        if not lst: return None
        selfv = self.rd(st, c.args[0]) if c.args else None
        if selfv is not None and selfv[0] == 'e':
            for ti, fn in lst:
                if self.F.types[ti].get('n') == selfv[1]: return self.F.bodies.get(fn)
        # static self type
        if c.ga:
            t = self.F.types[c.ga[0]]
            n = 0
            while t['k'] == 'ref' and n < 4:
                t = self.F.types[t['t']]; n += 1
            if t['k'] == 'adt':
                cands = [fn for ti, fn in lst if self.F.types[ti].get('n') == t['n']]
                if len(cands) == 1: return self.F.bodies.get(cands[0])
                if len(cands) > 1:
                    return None
        if c.trait.startswith('crate::') and len(lst) == 1 and not provided:
            return self.F.bodies.get(lst[0][1])
        return None

    def poll(self, st, fut, frame, bb):
        """value of awaiting fut: [(state, value)]"""
        fut = self.rd(st, fut)
        out = []
        for f in alts(fut):
            s = st.copy()
            if f[0] == 'r': f = self.rd(s, f)
            if f[0] == 'co':
                b = self.F.bodies.get(f[1])
                if b is not None:
                    out += self.inline(s, b, [f, mk(('resume',))], frame, bb)
                    continue
            if f[0] == 'it' and f[1] == 'ready':
                out.append((s, f[2])); continue
            if f[0] == 'y':
                if f[1][0] == 'call':
                    r = self.q.on_await(self, s, f[1][1], f[1][2], frame, bb, f[1])
                    if r is not None:
                        out += r
                        continue
                t = ('await', f[1])
                out.append((s, mk(t)))
            else:
                # crate-local Future impl?
                out.append((s, mk(('await', ('val', self.deepval(s, f))))))
        return out


def compose(r1, r2):
    out = set()
    for x in r1:
        for y in r2:
            if x == '=': out.add(y)
            elif y == '=': out.add(x)
            elif x == y: out.add(x)
            else: return set(ALLREL)
    return out

def lin(v):
    if v[0] == 'c': return (None, v[1])
    if v[0] == 'y' and v[1][0] == 'bin' and v[1][1] in ('Add', 'SatAdd') and v[1][2][0] == 'c':
        x, c = lin(v[1][3]); return (x, c + v[1][2][1])
    if v[0] == 'y' and v[1][0] == 'bin' and v[1][1] in ('Add', 'SatAdd') and v[1][3][0] == 'c':
        x, c = lin(v[1][2]); return (x, c + v[1][3][1])
    return (v, 0)

def isnat(v):
    return v[0] == 'y' and (v[1][0] == 'len' or (v[1][0] == 'call' and v[1][1].endswith(('::len', 'num_rows'))))

def isboolish(v):
    return all((x[0] == 'c' and x[1] in (0, 1)) or (x[0] == 'y' and x[1][0] in ('cmp', 'not', 'isvar')) or (x[0] == 'y') for x in alts(v))

def strip_generics(s):
    out = []; d = 0
    i = 0
    while i < len(s):
        ch = s[i]
        if ch == '<': d += 1
        elif ch == '>' and (i == 0 or s[i - 1] != '-'): d -= 1
        elif d == 0: out.append(ch)
        i += 1
    return ''.join(out).replace('::::', '::').strip(':') if True else s

class FnRef:
    __slots__ = ('k', 'h')
    def __init__(self, k):
        self.k = k
        self.h = (k.get('res') or k['fn'], tuple(k.get('ga', ())))
    def __eq__(self, o): return isinstance(o, FnRef) and self.h == o.h
    def __hash__(self): return hash(self.h)
    def __repr__(self): return f'fn:{self.h[0]}'

_rpo = {}
_live = {}
def rpo(body):
    k = id(body)
    if k in _rpo: return _rpo[k]
    seen = set(); post = []
    def succ(b):
        t = body['b'][b]['t']
        if t[0] == 'goto': return [t[1]]
        if t[0] == 'switch': return [x for _, x in t[2]] + [t[3]]
        if t[0] == 'drop': return [t[2]]
        if t[0] == 'call': return [t[4]] if t[4] is not None else []
        if t[0] == 'assert': return [t[3]]
        if t[0] == 'yield': return [t[1]]
        return []
    stack = [(0, iter(succ(0)))]
    seen.add(0)
    while stack:
        b, itr = stack[-1]
        for n in itr:
            if n not in seen:
                seen.add(n); stack.append((n, iter(succ(n)))); break
        else:
            post.append(b); stack.pop()
    r = {b: i for i, b in enumerate(reversed(post))}
    _rpo[k] = r
    return r

IMPURE = {'std::time::Instant::now', 'fusio::executor::Timer::now'}
IMPURE_SHORT = {'next', 'next_back', 'load', 'fetch_add', 'fetch_sub', 'fetch_max', 'swap', 'lock', 'read', 'write', 'try_recv', 'recv',
                'now', 'elapsed', 'poll_next', 'poll', 'try_next', 'peek', 'pop', 'pop_front', 'compare_exchange', 'fetch_update', 'try_update',
                'send', 'try_send', 'spawn', 'generate', 'new_v4', 'gen_key', 'put', 'commit', 'get', 'open_options', 'open', 'remove', 'list'}
MUT_SHORT = {'next', 'next_back', 'push', 'insert', 'extend', 'clear', 'pop', 'truncate', 'append', 'drain', 'retain', 'sort', 'sort_by', 'sort_by_key',
             'dedup', 'reserve', 'write_all', 'flush', 'put', 'remove', 'commit', 'resize', 'sort_unstable', 'sort_unstable_by', 'sort_unstable_by_key', 'swap', 'reverse',
             'append_option_row', 'append_value', 'append_null', 'finish', 'poll_next', 'poll_ready', 'start_send', 'try_next'}

def is_async_name(n): return False
