"""Rule framework: anchors, case queries, obligations."""
import re, os, json, sys, time
from absint import *
import absint

# ------------------------------------------------------------------ access paths
_pm = {}
def short(n):
    n = strip_generics(n) if '<' in n else n
    return n.rsplit('::', 1)[-1]

_OPSYM = {'Add': '+', 'Sub': '-', 'Mul': '*', 'SatAdd': '+s', 'SatSub': '-s', 'Max': 'max', 'Min': 'min', 'Div': '/', 'Rem': '%'}

def path(v, d=0):
    """readable access path of a value or term: self.a.b, xs[], f(x,y), Some{..}"""
    if isinstance(v, Term):
        r = _pm.get(v)
        if r is None:
            r = _path(v.t, d)
            if len(r) > 600: r = r[:400] + '~' + str(v.id)
            _pm[v] = r
        return r
    if isinstance(v, tuple): return _path(v, d)
    return str(v)

def _path(t, d):
    if not t: return '()'
    k = t[0]
    if not isinstance(k, str): return ','.join(path(x, d + 1) for x in t)
    if k == 'y': return path(t[1], d)
    if k == 'c': return str(t[1])
    if k == 's': return repr(t[1])
    if k == 'b': return repr(t[1])
    if k == 'p':
        return path(t[1], d) + '{' + ','.join(f'{f}:={path(x, d + 1)}' for f, x in t[2]) + '}'
    if k == 'e': return f"{short(t[1])}#{t[2]}" + ('{' + ','.join(path(x, d + 1) for x in t[3]) + '}' if t[3] else '')
    if k in ('t', 'a'): return ('(' if k == 't' else '[') + ','.join(path(x, d + 1) for x in t[1]) + (')' if k == 't' else ']')
    if k == 'u': return '{' + '|'.join(sorted(path(x, d + 1) for x in t[1])) + '}'
    if k == 'r': return '&'
    if k == 'coll': return f"coll[{path(t[1], d + 1) if len(t) > 1 and t[1] is not None else ''}]"
    if k in ('cl', 'co'): return f"{k}:{short(t[1])}" + '(' + ','.join(path(x, d + 1) for x in t[2]) + ')'
    if k == 'fn': return repr(t[1])
    if k == 'arg': return str(t[1])
    if k == 'fld': return f'{path(t[1], d)}.{t[2]}'
    if k == 'as': return f'{path(t[1], d)}@{t[2]}'
    if k in ('elem',): return path(t[1], d) + '[]'
    if k == 'at': return path(t[1], d) + '[]'
    if k == 'old': return path(t[1], d) + "'"
    if k == 'await': return path(t[1], d)
    if k == 'val': return path(t[1], d)
    if k == 'call' and 'fmt' in t[1] and t[1].endswith('::new') and len(t[2]) == 2 and t[2][0][0] == 'b': return f"fmt({fmt_template(t[2][0][1])!r},{path(t[2][1], d + 1)})"
    if k == 'call': return f"{short(t[1])}({','.join(path(x, d + 1) for x in t[2])})"
    if k == 'bin': return f"({path(t[2], d)} {_OPSYM.get(t[1], t[1])} {path(t[3], d)})"
    if k == 'cmp': return f"({path(t[2], d)} {t[1]} {path(t[3], d)})"
    if k == 'not': return f"!{path(t[1], d)}"
    if k == 'const': return short(str(t[1]))
    if k == 'len': return f"len({path(t[1], d)})"
    return k + '(' + ','.join(path(x, d + 1) if isinstance(x, (tuple, Term)) else str(x) for x in t[1:]) + ')'

def fmt_template(b):
    """decode the byte template of core::fmt::Arguments::new into a readable format string"""
    out, i = '', 0
    try:
        while i < len(b):
            n = b[i]; i += 1
            if n == 0: return out
            if n < 0x80: out += b[i:i + n].decode('utf8', 'replace'); i += n
            elif n == 0x80:
                ln = b[i] | b[i + 1] << 8; i += 2
                out += b[i:i + ln].decode('utf8', 'replace'); i += ln
            elif n == 0xC0: out += '{}'
            else:
                fl = w = pr = ix = None
                if n & 1: fl = int.from_bytes(b[i:i + 4], 'little'); i += 4
                if n & 2: w = int.from_bytes(b[i:i + 2], 'little'); i += 2
                if n & 4: pr = int.from_bytes(b[i:i + 2], 'little'); i += 2
                if n & 8: ix = int.from_bytes(b[i:i + 2], 'little'); i += 2
                out += '{' + (str(ix) if ix is not None else '') + ':' + ('0' if fl and fl >> 24 & 1 else '') + (('$' if n & 16 else '') + str(w) if w is not None else '') + ('.' + str(pr) if pr is not None else '') + '}'
    except IndexError: pass
    return out

def arg(n): return mk(('arg', n))
def fld(v, *ns):
    t = v[1]
    for n in ns: t = T(('fld', t, n))
    return ('y', t)

# ------------------------------------------------------------------ case query
class CQ(Query):
    """configurable query.
    rels:   [(re_a, re_b, 'set')]      assumed order of two unknowns
    vars:   [(re_term, {names})]       assumed variant of an unknown
    truths: [(re_term, bool)]
    calls:  [(re_name, handler)]       handler(it, st, c) -> list | None ; matched on resolved name
    """
    def __init__(self, rels=(), vars=(), truths=(), calls=(), opaque=(), inline_cmp=(), aggs=(), writes=(), awaits=(), drops=(), max_states=48, max_steps=400000, extra=None, exact=False):
        self.exact = exact
        C = re.compile
        self.rels = [(C(r[0]), C(r[1]), r[2], r[3] if len(r) > 3 else None) for r in rels]
        self.vars = [(C(a), s) for a, s in vars]
        self.truths = [(C(a), s) for a, s in truths]
        self.calls = [(C(a), h) for a, h in calls]
        self.opaque = tuple(opaque)
        self.inline_cmp = tuple(inline_cmp)
        self.aggs = list(aggs)
        self.writes = list(writes)
        self.awaits = [(C(a), h) for a, h in awaits]
        self.drops = list(drops)
        self.max_states = max_states
        self.max_steps = max_steps
        self.used = set()
        self._rc = {}
        self.extra = extra

    def rel(self, it, st, a, b):
        if not self.rels: return None
        if a[0] == 'u' or b[0] == 'u': return None
        k = (a, b)
        if k in self._rc:
            res, m = self._rc[k]
            if m: st.setg(m, 1)
            return res
        pa, pb = path(a), path(b)
        res = None; m = None
        for i, (ra, rb, s, mm) in enumerate(self.rels):
            if ra.search(pa) and rb.search(pb):
                self.used.add(('rel', i)); res = frozenset(s); m = mm; break
            if ra.search(pb) and rb.search(pa):
                self.used.add(('rel', i)); res = frozenset(FLIP[x] for x in s); m = mm; break
        self._rc[k] = (res, m)
        if m: st.setg(m, 1)
        return res

    def variant(self, it, st, term, adt):
        if not self.vars: return None
        p = path(term)
        for i, (r, s) in enumerate(self.vars):
            if r.search(p):
                names = {v['n'] for v in it.F.adts[adt]['v']} if adt in it.F.adts else set()
                if not (set(s) & names): continue
                self.used.add(('var', i)); return s
        return None

    def truth(self, it, st, term):
        if not self.truths: return None
        p = path(term)
        for i, (r, s) in enumerate(self.truths):
            if r.search(p):
                self.used.add(('truth', i)); return {s} if isinstance(s, bool) else set(s)
        return None

    def on_call(self, it, st, c):
        for i, (r, h) in enumerate(self.calls):
            if r.search(c.name) or (c.name != c.fn and r.search(c.fn)):
                x = h(it, st, c)
                if x is not None:
                    self.used.add(('call', i))
                    return x
        return None

    def on_agg(self, it, st, val, site):
        for n, h in self.aggs:
            if val[1] == n or val[1].endswith('::' + n): h(it, st, val, site)

    def on_write(self, it, st, cell, proj, val, site):
        for h in self.writes: h(it, st, cell, proj, val, site)

    def on_await(self, it, st, name, args, frame, bb, term):
        for i, (r, h) in enumerate(self.awaits):
            if r.search(name):
                x = h(it, st, name, args, (frame, bb), term)
                if x is not None:
                    self.used.add(('await', i))
                    return x
        return None

    def on_drop(self, it, st, tyidx, v, site):
        for h in self.drops: h(it, st, tyidx, v, site)

    def key_extra(self, it, st, frame):
        return self.extra(it, st, frame) if self.extra else None

def aw_result(okf=None, errf=None, okval=None, wrap=None):
    """await handler of a fallible I/O operation: Ok path runs okf(it, st, args), Err path errf"""
    def h(it, st, name, args, site, term):
        s1, s2 = st.copy(), st
        a = mk(('await', term))
        if okf: okf(it, s1, args, site)
        if errf: errf(it, s2, args, site)
        v1 = ok(okval if okval is not None else mk(('fld', ('as', a[1], 'Ok'), '0')))
        v2 = err(mk(('fld', ('as', a[1], 'Err'), '0')))
        if wrap: v1, v2 = wrap(it, s1, v1, args), wrap(it, s2, v2, args)
        return [(s1, v1), (s2, v2)]
    return h

def ret(f):
    """handler returning a fixed value (or f(it, st, c))"""
    def h(it, st, c):
        v = f(it, st, c) if callable(f) else f
        return [(st, v)]
    return h

class Outcome:
    __slots__ = ('st', 'v')
    def __init__(s, st, v): s.st, s.v = st, v

# ------------------------------------------------------------------ context
SIDE = re.compile(r'^(core|alloc|std)::(fmt|io::stdio|time|thread)|^tracing|^log::|Display|Debug|hash::')

# plain conversions of an identifier: treated as an uninterpreted function of their argument, which is what they are to every rule
INERT = re.compile(r'core::num::<impl u\d+>::to_[bln]e_bytes$|^ulid::Ulid::(from_bytes|to_bytes)$')

# storage I/O: its result is unknown by nature (every rule is already a statement about all of them), so a call to it is never a lack of a model
IO = re.compile(r'^<?(dyn )?fusio(_\w+)?::')

def decide(ctx, r, base_opaque):
    """run a rule; returns '' if every failed obligation is a verdict, otherwise why the rule cannot decide this tree.

    A rule that fails only on a tree where its functions call library functions it has no model of (and did not call on the
    tree it was built for), or whose subject was restructured beyond recognition, has no verdict: its failures are dropped."""
    import absint, traceback
    absint.OPAQUE.clear()
    n = len(ctx.viol)
    why = ''
    try: r(ctx)
    except Missing as e: why = f'the construct this rule is about is gone: {e}'
    except absint.Budget as e: why = f'analysis did not converge: {e}'
    except Exception as e:
        why = f'the code no longer has the shape this rule understands: {type(e).__name__} {e} ' + traceback.format_exc()[-600:]
    if not why and len(ctx.viol) > n:
        new = {x for x in absint.OPAQUE if not SIDE.search(x) and not IO.match(x) and not INERT.search(x)} - set(base_opaque.get(r.__name__, ()))
        if new: why = 'calls without a model: ' + ', '.join(sorted(new))
    if why: del ctx.viol[n:]
    return why

class Missing(Exception):
    pass

class Ctx:
    def __init__(self, F, prop, base=None):
        self.F = F
        self.prop = prop
        self.base = base or {}
        self.obs = []          # (rule, key, ok, detail)
        self.viol = []
        self.fns = set()
        self.sites = set()
        self.steps = 0
        self.notes = []

    # ---- anchors
    def fn(self, name, opt=False):
        """resolve a function by its path; if it was renamed, by its signature among new functions"""
        b = self.F.bodies.get(name)
        if b is not None: return b
        want = self.base.get(name)
        if want is not None:
            cands = []
            for k, b in self.F.bodies.items():
                if k in self.base or b['k'] not in ('fn', 'method') : continue
                if sig(self.F, b) == want: cands.append(b)
            par = name.rsplit('::', 1)[0]
            same = [b for b in cands if b['key'].rsplit('::', 1)[0] == par]
            if len(same) == 1: return same[0]
            sn = [b for b in cands if b['key'].rsplit('::', 1)[1] == name.rsplit('::', 1)[1]]
            if len(sn) == 1: return sn[0]
            if len(cands) == 1: return cands[0]
        if opt: return None
        raise Missing(name)

    def impl(self, trait, adt, method, opt=False):
        """method body of `impl trait for adt` (suffix matching)"""
        for im in self.F.impls:
            if not (im['trait'] == trait or im['trait'].endswith('::' + trait)): continue
            t = self.F.types[im['self']]
            while t['k'] == 'ref': t = self.F.types[t['t']]
            if t.get('n') == adt or (t.get('n') or '').endswith('::' + adt):
                for n, f in im['fns']:
                    if n == method and f in self.F.bodies: return self.F.bodies[f]
        if opt: return None
        raise Missing(f'impl {trait} for {adt}::{method}')

    def adt(self, suffix):
        c = [k for k in self.F.adts if k.startswith('crate::') and (k == suffix or k.endswith('::' + suffix))]
        if len(c) == 1: return c[0]
        raise Missing('type ' + suffix + (' (ambiguous)' if c else ''))

    def fieldix(self, adt, name, vi=0):
        for i, f in enumerate(self.F.adts[adt]['v'][vi]['f']):
            if f[0] == name: return i
        raise Missing(f'field {adt}.{name}')

    # ---- running
    def args_of(self, b):
        out = []
        for i in range(b['argc']):
            l = b['locals'][i + 1]
            out.append(arg(l[1] if len(l) > 1 else f'a{i}'))
        return out

    def run(self, fn, q=None, args=None, st=None, poll=True):
        b = self.fn(fn) if isinstance(fn, str) else fn
        q = q or CQ()
        it = Interp(self.F, q)
        st = st or State()
        a = self.args_of(b)
        if args:
            if isinstance(args, dict):
                for k, v in args.items():
                    if isinstance(k, int): a[k] = v
                    else:
                        names = [b['locals'][i + 1][1] if len(b['locals'][i + 1]) > 1 else None for i in range(b['argc'])]
                        if k not in names: raise Missing(f'parameter {k} of {b["key"]}')
                        a[names.index(k)] = v
            else: a = list(args)
            for i in range(min(b['argc'], len(a))):
                if a[i][0] in ('a', 'e', 't') and self.F.ty_s(b['locals'][i + 1][0]).startswith('&'): a[i] = it.tmp(st, ('root', 0), ('byref', i), a[i])
        rs = it.run_body(st, b, a, ('root', 0))
        if poll and (b.get('async') or any(it.rd(s, v)[0] == 'co' for s, v in rs)):
            out = []
            for s, v in rs: out += it.poll(s, v, 0, 0)
            rs = out
        self.fns |= it.visited
        self.sites |= it.sites
        self.steps += it.steps
        self.it = it
        return it, [Outcome(s, v) for s, v in rs]

    # ---- obligations
    def ob(self, rule, key, ok, detail='', where=''):
        self.obs.append((rule, key, bool(ok)))
        if not ok:
            self.viol.append((rule, key, detail, where))
        return ok

    def need(self, rule, n):
        """floor: the rule must have been instantiated at least n times"""
        c = sum(1 for r, _, _ in self.obs if r == rule)
        if c < n:
            self.viol.append((rule, 'instances', f'only {c} instances of rule {rule} found, {n} were confirmed by reading', ''))

    def loc(self, b):
        b = self.fn(b) if isinstance(b, str) else b
        return f"{b['loc'][0]}:{b['loc'][1]} {b['key']}"

def sig(F, b):
    return [F.ty_s(l[0]) for l in b['locals'][:b['argc'] + 1]]

# ------------------------------------------------------------------ outcome helpers
def variants_of(it, o, adt=RESULT):
    """split outcomes by variant of the returned enum: {name: [(state, fields)]}"""
    out = {}
    for s, vi, v in it.split(o.st, it.rd(o.st, o.v), adt):
        out.setdefault(it.vname(adt, vi), []).append((s, v[3]))
    return out

def results(it, outs, adt=RESULT):
    r = {}
    for o in outs:
        for k, l in variants_of(it, o, adt).items(): r.setdefault(k, []).extend(l)
    return r

def val(it, st, v):
    """fully dereferenced value"""
    return it.deepval(st, v)

def pstr(it, st, v):
    return path(it.deepval(st, v))

def calls_in(F, body, rx):
    """call terminators in a body (non-cleanup) whose callee matches rx"""
    r = re.compile(rx)
    out = []
    for i, bl in enumerate(body['b']):
        if bl['c']: continue
        t = bl['t']
        if t[0] == 'call' and 'k' in t[1] and 'fn' in t[1]['k']:
            n = t[1]['k'].get('res') or t[1]['k']['fn']
            if r.search(n) or r.search(t[1]['k']['fn']): out.append((i, n, bl['l']))
    return out

RULES = {}      # property -> [fn(ctx)]
def rule(*props):
    def d(f):
        for p in props: RULES.setdefault(p, []).append(f)
        return f
    return d

def post(it, st, root, *fields):
    """value of root.field... in the final memory (root: a by-reference parameter name or a value)"""
    v = it.load(st, ('o', T(('arg', root))), ()) if isinstance(root, str) else root
    for f in fields:
        v = it.rd(st, v)
        r = None
        for x in alts(v):
            if x[0] == 'e':
                ad = it.F.adts[x[1]]['v'][x[2]]['f']
                i = next((i for i, y in enumerate(ad) if y[0] == f), None)
                y = x[3][i] if i is not None and i < len(x[3]) else None
            else: y = it.get(x, ('f', 0, f))
            if y is not None: r = join(r, y)
        if r is None: return None
        v = r
    return it.deepval(st, v)

def ppost(it, st, root, *fields):
    v = post(it, st, root, *fields)
    return path(v) if v is not None else None

# ------------------------------------------------------------------ case specifications
def _match(pat, p):
    if callable(pat): return pat(p)
    return re.fullmatch(pat, p) is not None

def altpaths(it, st, v):
    """paths of all alternatives of a value"""
    if v is None: return ['<none>']
    v = it.deepval(st, v)
    return sorted(path(x) for x in alts(v))

def pure(res=None):
    """call handler: the call has no effect; its result is symbolic (or res)"""
    def h(it, st, c):
        if res is not None: return [(st, res(it, st, c) if callable(res) else res)]
        return [(st, mk(('call', c.name, tuple(it.deepval(st, a) for a in c.args))))]
    return h

def atom(it, st, c):
    """call handler: the call has no effect of interest and its result does not depend on its arguments"""
    return [(st, mk(('call', c.name, ())))]

def futs(*specs):
    """opaque async crate functions without side effects on their arguments: (rx, okf, errf[, okval]) -> (calls, awaits)"""
    calls, aws = [], []
    for sp in specs:
        rx, okf, errf = sp[0], sp[1] if len(sp) > 1 else None, sp[2] if len(sp) > 2 else None
        calls.append((rx, pure()))
        aws.append((rx, aw_result(okf, errf, sp[3] if len(sp) > 3 else None)))
    return calls, aws

def setg(k, v):
    def f(it, st, *a): st.setg(k, v)
    return f

def case(ctx, K, key, fn, q, st=None, args=None, when=None, ret=None, posts=(), ghost=None, reach=True, msg='', adt=RESULT, check=None, never=()):
    """run fn under the assumptions of q and compare every outcome with the specification.
    when: variant of the result the spec talks about (None: the whole returned value)
    ret: pattern each alternative of the returned value must match
    posts: [(('self','field'), pattern)]   ghost: f(st)->bool   never: variants that must not occur"""
    b = ctx.fn(fn) if isinstance(fn, str) else fn
    it, outs = ctx.run(b, q, args=args, st=st)
    if when is None: rs = [(o.st, o.v) for o in outs]
    else:
        r = results(it, outs, adt)
        rs = [(s, f[0] if len(f) == 1 else ('t', tuple(f))) for s, f in r.get(when, [])]
        for n in never:
            ctx.ob(K, f'{key}:no-{n}', not r.get(n), msg or f'outcome {n} is possible', ctx.loc(b))
    if reach: ctx.ob(K, f'{key}:reachable', len(rs) > 0, f'no {when or ""} outcome under these assumptions', ctx.loc(b))
    if ret is not None:
        bad = sorted({p for s, v in rs for p in altpaths(it, s, v) if not _match(ret, p)})
        ctx.ob(K, f'{key}:result', not bad, (msg + ': ' if msg else '') + f'returns {bad[:3]}', ctx.loc(b))
    for (root, *fs), pat in posts:
        bad = sorted({p for s, v in rs for p in altpaths(it, s, post(it, s, root, *fs)) if not _match(pat, p)})
        ctx.ob(K, f'{key}:{".".join(fs)}', not bad, (msg + ': ' if msg else '') + f'{".".join((root,) + tuple(fs))} becomes {bad[:3]}', ctx.loc(b))
    if ghost is not None:
        bad = [dict(s.ghost) for s, v in rs if not ghost(s)]
        ctx.ob(K, f'{key}:effects', not bad, (msg + ': ' if msg else '') + f'effects {bad[:2]}', ctx.loc(b))
    if check is not None:
        for s, v in rs: check(it, s, v)
    return it, rs
