"""Transactions: staging, read-your-writes, staged scan, commit protocol, recovery of committed transactions."""
from core import *
from rules.keys import setw
from rules.inmem import RankQ, struct, enum, drain
import itertools

P = path
TX = 'crate::transaction::'
ML = 'crate::mutation::DynMutation'

def mut(ctx, kind, tag): return enum(ctx, ML, 'Upsert', arg(f'R{tag}')) if kind == 'U' else enum(ctx, ML, 'Delete', UNIT)

def staged(ctx, ents, ts=None):
    """a staging buffer holding the entries [(key, kind, tag)]"""
    es = ('a', tuple(('t', (arg(f'K{k}'), mut(ctx, kd, tg))) for k, kd, tg in sorted(ents)))
    return struct(ctx, ctx.adt('StagedMutations'), snapshot_ts=arg('SNAP') if ts is None else ts, entries=es)

def ents_of(it, st, sm, ctx):
    """[(key path, mutation path)] of a staging buffer"""
    fs = [f[0] for f in ctx.F.adts[ctx.adt('StagedMutations')]['v'][0]['f']]
    m = it.deepval(st, sm[3][fs.index('entries')])
    return [(path(e[1][0]), path(e[1][1])) for e in m[1]] if m[0] == 'a' else path(m)

def seqs(n, keys='12'):
    for k in range(n + 1):
        for s in itertools.product([(x, o) for x in keys for o in 'UD'], repeat=k): yield s

def staging_buffer(ctx, K):
    """the buffer holds exactly the last mutation staged per key, in key order"""
    ms = lambda: RankQ(exact=True, max_states=50)
    new, up, de = (ctx.fn(TX + 'StagedMutations::' + n) for n in ('new', 'upsert', 'delete'))
    # short histories over two keys, then a few over three
    hist = list(seqs(3)) + [(('3', 'U'), ('1', 'D'), ('2', 'U')), (('2', 'U'), ('3', 'D'), ('1', 'U'), ('2', 'D')), (('3', 'U'), ('2', 'U'), ('1', 'U'), ('3', 'U'))]
    for h in hist:
        name = '-'.join(k + o for k, o in h) or 'none'
        it, outs = ctx.run(new, ms(), args=[arg('SNAP')])
        live = [(o.st, it.deepval(o.st, o.v)) for o in outs]
        for i, (k, o) in enumerate(h):
            nxt = []
            for st, v in live:
                q = ms(); i2 = Interp(ctx.F, q)
                r = i2.tmp(st, ('root', i), 'sm', v)
                i3, os_ = ctx.run(up if o == 'U' else de, q, args=[r, arg(f'K{k}')] + ([arg(f'R{i}')] if o == 'U' else []), st=st)
                nxt += [(x.st, i3.deepval(x.st, i3.rd(x.st, r))) for x in os_]
            live = nxt
        want = {}
        for i, (k, o) in enumerate(h): want[f'K{k}'] = P(mut(ctx, o, i))
        want = sorted(want.items())
        bad = []
        for st, v in live:
            got = ents_of(it, st, v, ctx)
            if got != want: bad.append(('entries', got))
            for fname, exp in (('len', ('c', len(want))), ('is_empty', TRUE if not want else FALSE), ('snapshot_ts', arg('SNAP'))):
                r = Interp(ctx.F, ms()).tmp(st, ('root', 9), 'sm', v)
                i3, os_ = ctx.run(ctx.fn(TX + 'StagedMutations::' + fname), ms(), args=[r], st=st.copy())
                if not os_ or any(P(i3.deepval(x.st, x.v)) != P(exp) for x in os_): bad.append((fname, [P(i3.deepval(x.st, x.v)) for x in os_]))
            for k in '12':
                r = Interp(ctx.F, ms()).tmp(st, ('root', 9), 'sm', v)
                rk = Interp(ctx.F, ms()).tmp(st, ('root', 9), 'k', arg(f'K{k}'))
                i3, os_ = ctx.run(ctx.fn(TX + 'StagedMutations::get'), ms(), args=[r, rk], st=st.copy())
                exp = dict(want).get(f'K{k}')
                for x in os_:
                    for s3, vi, w in i3.split(x.st, x.v, OPTION):
                        g = None if vi == 0 else P(i3.deepval(s3, i3.rd(s3, w[3][0])))
                        if g != exp: bad.append(('get', k, g))
                if not os_: bad.append(('get', k))
            s4 = st.copy()
            i3, os_ = ctx.run(ctx.fn(TX + 'StagedMutations::into_mutations'), ms(), args=[v], st=s4)
            for x in os_:
                t = i3.deepval(x.st, x.v)
                last = {}
                for i, (k, o) in enumerate(h): last[k] = (o, i)
                wu = [P(arg(f'R{last[k][1]}')) for k in sorted(last) if last[k][0] == 'U']
                wd = [P(arg(f'K{k}')) for k in sorted(last) if last[k][0] == 'D']
                g = [[P(e) for e in c[1]] if c[0] == 'a' else P(c) for c in t[1]]
                if sorted(g[0]) != sorted(wu) or sorted(g[1]) != sorted(wd): bad.append(('into_mutations', g, [wu, wd]))
            if not os_: bad.append('into_mutations')
        ctx.ob(K, name, live and not bad, f'after staging {name} the buffer answers {bad[:1]}, expected {want}', ctx.loc(up))

@rule('T01')
def staging(ctx):
    """the staging buffer holds exactly the last mutation per key, and hands over exactly those"""
    staging_buffer(ctx, 'staging')

@rule('T01', 'Q01')
def staged_scan(ctx):
    """scanning the staged mutations yields every one of them once, in key order, at the snapshot timestamp, deletes as tombstones"""
    K = 'staged_scan'
    SC, KT, RE, DR = ctx.adt('TransactionScan'), ctx.adt('ts::KeyTsViewRaw'), ctx.adt('TransactionScanEntry'), 'typed_arrow_dyn'
    f = ctx.impl('Iterator', 'TransactionScan', 'next')
    def _e(st, n):
        s2 = st.copy(); s2.setg('perr', n); return s2
    def owned(it, st, c): return [(st, ok(mk(('call', 'OWNED', tuple(it.deepval(st, it.rd(st, a)) for a in c.args))))), (_e(st, 'owned'), err(arg('ME')))]
    def raw(it, st, c): return [(st, ok(mk(('call', 'RAW', (it.deepval(st, it.rd(st, c.args[0])),))))), (_e(st, 'raw'), err(arg('RE_')))]
    H = [(r'KeyTsViewRaw::from_owned$', lambda it, st, c: [(st, mk(('call', 'view', tuple(it.deepval(st, it.rd(st, a)) for a in c.args))))]),
         (r'DynRowOwned.*::from_dyn_row$', owned), (r'DynRowOwned.*::as_raw$', raw)]
    for n in range(4):
        for ks in itertools.product('UD', repeat=n):
            ents = [('123'[i], kd, i) for i, kd in enumerate(ks)]
            st = State()
            it0 = Interp(ctx.F, CQ(exact=True))
            m = it0.tmp(st, ('root', 0), 'map', ('a', tuple(('t', (arg(f'K{k}'), mut(ctx, kd, tg))) for k, kd, tg in ents)))
            # build it through the constructor so that the iterator really covers the map it was given
            sch = it0.tmp(st, ('root', 0), 'sch', arg('SCHEMA'))
            mkq = lambda: CQ(exact=True, calls=H, max_states=200)
            it, outs = ctx.run(ctx.fn(TX + "TransactionScan::<'a>::new"), mkq(), args=[m, sch, arg('VIS'), NONE], st=st)
            for o in outs:
                for s, vi, w in it.split(o.st, o.v, RESULT):
                    if vi == 1: ctx.ob(K, f'new:{n}', False, 'a staged scan without projection cannot fail to start', ctx.loc(f)); continue
                    i2, done, live = drain(ctx, f, it.deepval(s, w[3][0]), mkq, n + 1, st=s)
                    bad = []
                    okpath = 0
                    for s2, items in done:
                        got = [P(x) for x in items]
                        want = []
                        for k, kd, tg in ents:
                            kv = f'view(K{k},VIS)'
                            want.append(f'Row({kv},RAW(OWNED(fields(SCHEMA),R{tg})))' if kd == 'U' else f'Tombstone({kv})')
                        g2 = [re.sub(r'^\w*?(Ok|Err)?\(?', '', x) for x in got]
                        if s2.g('perr'):
                            if not any(re.search(r'\b(ME|RE_)\b', x) for x in got): bad.append(('a failure to decode a staged row is swallowed', got))
                            continue
                        okpath += 1
                        norm = [re.sub(r'DynRow#0\{(R\d)\.0\}', r'\1', _row(x)) for x in items]
                        if norm != want: bad.append((norm, want))
                    ctx.ob(K, f'{"".join(ks) or "empty"}', done and okpath and not live and not bad, f'staged mutations {"".join(ks) or "none"} in key order scan as {bad[:1]}', ctx.loc(f))

@rule('T01', 'Q01', 'Q02')
def staged_projection(ctx):
    """with a projection, a staged row is offered as exactly its projected columns; with the projection equal to the table schema or absent, whole"""
    K = 'staged_projection'
    f = ctx.impl('Iterator', 'TransactionScan', 'next')
    NEW = ctx.fn(TX + "TransactionScan::<'a>::new")
    NF = {'SCHEMA': 3, 'WIDE': 3, 'SLIM': 2, 'SAME': 3}
    who = lambda it, st, v: P(it.deepval(st, it.rd(st, v)))
    same = lambda a, b: a == b or {a, b} == {'SCHEMA', 'SAME'}
    def eq(neg):
        def h(it, st, c):
            a, b = (re.search('SCHEMA|WIDE|SLIM|SAME', who(it, st, x)) if re.fullmatch(r'(fields\()?(SCHEMA|WIDE|SLIM|SAME)\)?', who(it, st, x)) else None for x in c.args)
            if not a or not b: return None
            x, y = who(it, st, c.args[0]), who(it, st, c.args[1])
            if re.sub('SCHEMA|SAME', 'S', x) == re.sub('SCHEMA|SAME', 'S', y): r = True
            elif 'fields' in x or 'fields' in y or x in NF and y in NF: r = same(a.group(), b.group())
            else: return None
            return [(st, TRUE if r != neg else FALSE)]
        return h
    def flen(it, st, c):
        m = re.fullmatch(r'fields\((SCHEMA|WIDE|SLIM|SAME)\)', who(it, st, c.args[0]))
        return [(st, ('c', NF[m.group(1)]))] if m else None
    def fe(name, n, keep=True):
        def h(it, st, c):
            s2 = st.copy(); s2.setg('perr', name)
            return [(st, ok(mk(('call', name, tuple(it.deepval(st, it.rd(st, a)) for a in c.args))))), (s2, err(arg('E' + name)))]
        return h
    H = [(r'PartialEq::eq$', eq(False)), (r'PartialEq::ne$', eq(True)),
         (r'Schema.*::fields$', lambda it, st, c: [(st, mk(('call', 'fields', (it.deepval(st, it.rd(st, c.args[0])),))))]),
         (r'::len$', flen),
         (r'KeyTsViewRaw::from_owned$', lambda it, st, c: [(st, mk(('call', 'view', tuple(it.deepval(st, it.rd(st, a)) for a in c.args))))]),
         (r'DynSchema::from_ref$', lambda it, st, c: [(st, mk(('call', 'DS', (it.deepval(st, it.rd(st, c.args[0])),))))]),
         (r'DynProjection::from_schema$', fe('PROJ', 2)), (r'DynProjection::project_row_raw$', fe('CUT', 4)), (r'DynRowRaw::into_owned$|into_owned$', fe('KEEP', 1)),
         (r'DynRowOwned.*::from_dyn_row$', fe('OWNED', 2)), (r'DynRowOwned.*::as_raw$', fe('RAW', 1))] + builder_hooks()
    for target in (None, 'SCHEMA', 'SAME', 'WIDE', 'SLIM'):
        for ks in ('U', 'UU', 'DU', 'UD', 'UUU'):
            ents = [('123'[i], kd, i) for i, kd in enumerate(ks)]
            st = State()
            it0 = Interp(ctx.F, CQ(exact=True))
            m = it0.tmp(st, ('root', 0), 'map', ('a', tuple(('t', (arg(f'K{k}'), mut(ctx, kd, tg))) for k, kd, tg in ents)))
            sch = it0.tmp(st, ('root', 0), 'sch', arg('SCHEMA'))
            pr = some(it0.tmp(st, ('root', 0), 'proj', arg(target))) if target else NONE
            mkq = lambda: CQ(exact=True, calls=H, max_states=300)
            it, outs = ctx.run(NEW, mkq(), args=[m, sch, arg('VIS'), pr], st=st)
            n, bad, okp = 0, [], 0
            for o in outs:
                for s, vi, w in it.split(o.st, o.v, RESULT):
                    if vi == 1:
                        if not s.g('perr'): bad.append('the scan cannot start')
                        continue
                    if s.g('perr'): bad.append('a failure to plan the projection is swallowed'); continue
                    i2, done, live = drain(ctx, f, it.deepval(s, w[3][0]), mkq, len(ks) + 1, st=s)
                    if live: bad.append('the scan does not end')
                    for s2, items in done:
                        if s2.g('perr'):
                            if not any(re.search(r'\bE(PROJ|CUT|KEEP|OWNED|RAW)\b|Err|DynViewError', P(x)) for x in items): bad.append('a failure to project a staged row is swallowed')
                            continue
                        okp += 1
                        got = [re.sub(r'DynRow#0\{(R\d)\.0\}', r'\1', _row(x)) for x in items]
                        want = []
                        for k, kd, tg in ents:
                            kv = f'view(K{k},VIS)'
                            whole = target is None or same(target, 'SCHEMA')
                            flds = f'fields({target or "SCHEMA"})'
                            r = f'R{tg}' if whole else f'KEEP(CUT(PROJ(SCHEMA,{target}),DS(SCHEMA),BATCH<SCHEMA:R{tg}>,0))'
                            want.append(f'Row({kv},RAW(OWNED({flds},{r})))' if kd == 'U' else f'Tombstone({kv})')
                        nz = lambda l: [re.sub(r'KEEP\(CUT\(PROJ\(SCHEMA,SCHEMA\),DS\(SCHEMA\),BATCH<SCHEMA:(R\d)>,0\)\)', r'\1', re.sub(r'\bSAME\b', 'SCHEMA', x)) for x in l]
                        if nz(got) != nz(want): bad.append((got[:3], want[:3]))
            ctx.ob(K, f'{target}:{ks}', okp and not bad, f'staged mutations {ks} scanned with projection {target} give {str(bad[:1])[:900]}', ctx.loc(f))

def _row(v):
    """Ok(Row((k, r))) -> text"""
    p = path(v)
    x = v
    if x[0] == 'e' and x[1] == RESULT and x[2] == 0: x = x[3][0]
    if x[0] == 'e' and len(x[3]) == 1:
        y = x[3][0]
        if y[0] == 't': return f'Row({path(y[1][0])},{path(y[1][1])})'
        return f'Tombstone({path(y)})'
    return p

def builder_hooks(fail=None):
    """DynBuilders as a list of rows (one builder at a time): new/append/finish; 'fail' names the step that errs"""
    def new(it, st, c):
        st.setg('rows', ()); st.setg('bsch', P(it.deepval(st, it.rd(st, c.args[0]))))
        return [(st, arg('BUILDER'))]
    def app(it, st, c):
        if fail == 'append': return [(st, err(arg('DYNERR')))]
        v = it.deepval(st, c.args[1])
        st.setg('rows', st.g('rows', ()) + (rowtext(v),))
        return [(st, ok(UNIT))]
    def fin(it, st, c):
        if fail == 'finish': return [(st, err(arg('DYNERR')))]
        return [(st, ok(arg(f"BATCH<{st.g('bsch')}:{';'.join(st.g('rows', ()))}>")))]
    return [(r'DynBuilders.*::new$', new), (r'DynBuilders.*::append_option_row$', app), (r'DynBuilders.*::try_finish_into_batch$', fin)]

def rowtext(v):
    t = P(v)
    t = re.sub(r'DynRow#0\{(\w+)\.0\}', r'\1', t)
    m = re.fullmatch(r'(?:Option#1\{|Some\(|Some\{|some\()(.*)[})]', t)
    return m.group(1) if m else t

@rule('T01', 'T02')
def batch_building(ctx):
    """staged rows become one batch in order; staged deletes become their key components followed by the commit timestamp; bad keys are refused"""
    K = 'batch_building'
    f = ctx.fn(TX + 'build_record_batch')
    for n in range(4):
        it, outs = ctx.run(f, CQ(exact=True, calls=builder_hooks(), max_states=50), args={'schema': arg('SCHEMA'), 'rows': ('a', tuple(arg(f'R{i}') for i in range(n)))})
        got = [P(it.deepval(o.st, o.v)) for o in outs]
        want = 'BATCH<SCHEMA:' + ';'.join(f'R{i}' for i in range(n)) + '>'
        ctx.ob(K, f'rows:{n}', got and all(want in g for g in got), f'a batch of {n} staged rows is built as {got[:1]}, expected {want}', ctx.loc(f))
    for fl in ('append', 'finish'):
        it, outs = ctx.run(f, CQ(exact=True, calls=builder_hooks(fl), max_states=50), args={'schema': arg('SCHEMA'), 'rows': ('a', (arg('R0'),))})
        res = [vi for o in outs for _, vi, _ in it.split(o.st, o.v, RESULT)]
        ctx.ob(K, f'rows:{fl}', res and all(r == 1 for r in res), f'a failure to {fl} a staged row is swallowed', ctx.loc(f))
    f = ctx.fn(TX + 'build_delete_batch')
    TS = ctx.adt('mvcc::Timestamp')
    CO = 'core::option::Option'
    def cells(it, st, c):
        m = re.search(r'KEY(\d)', P(it.deepval(st, it.rd(st, c.args[0]))))
        if not m: return None
        return [(st, it.tmp(st, ('root', 0), ('cells', m.group(1)), ('a', tuple(keys[int(m.group(1))]))))]
    for comps in (1, 2):
        for nk in range(3):
            for badk in [None] + [(i, w) for i in range(nk) for w in ('short', 'long') + tuple(range(comps))]:
                keys = [[some(arg(f'C{i}_{j}')) for j in range(comps)] for i in range(nk)]
                if badk:
                    i, w = badk
                    if w == 'short': keys[i] = keys[i][:-1]
                    elif w == 'long': keys[i].append(some(arg('X')))
                    else: keys[i][w] = NONE
                H = builder_hooks() + [(r'::cells$', cells), (r'::as_row$', lambda it, st, c: [(st, c.args[0])]), (r'RecordBatch::new_empty$', lambda it, st, c: [(st, arg(f"BATCH<{P(it.deepval(st, it.rd(st, c.args[0])))}:>"))])]
                it, outs = ctx.run(f, CQ(exact=True, calls=H, max_states=50), args={'schema': arg('DSCHEMA'), 'expected_components': ('c', comps), 'keys': ('a', tuple(arg(f'KEY{i}') for i in range(nk))), 'commit_ts': struct(ctx, TS, **{tsfield(ctx): arg('CTS')})})
                name = f'delete:{comps}:{nk}:{badk}'
                for o in outs:
                    for s, vi, w in it.split(o.st, o.v, RESULT):
                        if badk: ctx.ob(K, name, vi == 1, f'a staged delete key with a {badk[1]} component is turned into a batch instead of being refused', ctx.loc(f)); continue
                        if vi == 1: ctx.ob(K, name, False, f'a well-formed staged delete is refused with {P(it.deepval(s, w[3][0]))}', ctx.loc(f)); continue
                        b = P(it.deepval(s, w[3][0]))
                        rows = s.g('rows', ())
                        u64 = [i for i, v in enumerate(ctx.F.adts['typed_arrow_dyn::cell::DynCell']['v']) if v['n'] == 'U64'][0]
                        exp = ['DynRow#0{[' + ','.join(f'Option#1{{{x}}}' for x in [f'C{i}_{j}' for j in range(comps)] + [f'DynCell#{u64}{{CTS}}']) + ']}' for i in range(nk)]
                        got = list(rows)
                        okb = b.startswith('BATCH<DSCHEMA:') and got == exp
                        ctx.ob(K, name, okb, f'staged deletes of {nk} keys with {comps} components are encoded as {b[:200]}', ctx.loc(f))
                if not outs: ctx.ob(K, name, False, 'no result', ctx.loc(f))

@rule('T01', 'T03', 'Q01')
def row_copy(ctx):
    """a copied row has every cell of the original, in order"""
    K = 'row_copy'
    f = ctx.fn(TX + 'clone_dyn_row')
    for n in (0, 1, 2, 5, 65):
        st = State()
        cells = ('a', tuple(NONE if i % 3 == 2 else some(arg(f'C{i}')) for i in range(n)))
        r = Interp(ctx.F, CQ(exact=True)).tmp(st, ('root', 0), 'row', ('e', 'typed_arrow_dyn::rows::DynRow', 0, (cells,)))
        it, outs = ctx.run(f, CQ(exact=True, max_states=50), args=[r], st=st)
        got = [P(it.deepval(o.st, o.v)) for o in outs]
        ctx.ob(K, f'{n}', got == [P(('e', 'typed_arrow_dyn::rows::DynRow', 0, (cells,)))], f'a row of {n} cells is copied as {str(got)[:200]}', ctx.loc(f))

def tsfield(ctx): return ctx.F.adts[ctx.adt('mvcc::Timestamp')]['v'][0]['f'][0][0]

def commit_run(ctx, ents, conflict=(), wal=True, mode='Strict', fail=None, ack=None, prev=some(('c', 7))):
    """commit a transaction with these staged entries. conflict: {(where, key)}; fail: step that errs; returns [(result, log, state)]"""
    f = ctx.fn(TX + 'Transaction::<FS, E>::commit')
    TR, AM, AK, FR = ctx.adt('transaction::Transaction'), ctx.adt('CommitAckMode'), ctx.adt('frame::WalAck') if any(k.endswith('frame::WalAck') for k in ctx.F.adts) else ctx.adt('WalAck'), ctx.adt('WalFrameRange')
    log = lambda st, *e: st.setg('log', st.g('log', ()) + (e,))
    bool_ = lambda b: TRUE if b else FALSE
    fut = lambda nm, *ks: lambda it, st, c: [(st, mk(('call', nm, tuple(it.deepval(st, it.rd(st, c.args[k])) for k in ks))))]
    kn = lambda t: (re.findall(r'K\d', t) + ['?'])[0]
    def conf(where):
        def h(it, st, c):
            a = P(it.deepval(st, it.rd(st, c.args[1]))); log(st, 'check', where, kn(a), P(it.deepval(st, c.args[2])))
            return [(st, bool_((where, kn(a)) in conflict))]
        return h
    def lock(it, st, n, a, site, t): log(st, 'lock', kn(P(a[0]))); return [(st, ok(arg(f'GUARD<{kn(P(a[0]))}>')))]
    def step(nm):
        def h(it, st, n, a, site, t):
            log(st, nm, *[P(x) for x in a])
            if fail == nm: return [(st, err(arg('WALERR')))]
            return [(st, ok(arg(f'TICKET<{nm}>')))]
        return h
    def durable(it, st, n, a, site, t):
        k = re.search(r'TICKET<(\w+)>', P(a[0])).group(1); log(st, 'durable', k)
        if fail == 'durable:' + k: return [(st, err(arg('WALERR')))]
        lo, hi = (ack or {}).get(k, (10, 10))
        return [(st, ok(struct(ctx, AK, first_seq=('c', lo), last_seq=('c', hi))))]
    def apply(nm):
        def h(it, st, c):
            log(st, nm, *[P(it.deepval(st, a)) for a in c.args[1:]])
            return [(st, err(arg('APPLYERR')) if fail == nm else ok(UNIT))]
        return h
    def one_(nm, v):
        def h(it, st, c): log(st, nm); return [(st, v)]
        return h
    def drops(it, st, ty, v, site):
        for g in re.findall(r'GUARD<(\w+)>', P(it.deepval(st, v))): log(st, 'unlock', g)
    def rec(it, st, c):
        log(st, 'record', P(it.deepval(st, it.rd(st, c.args[1])))); return [(st, UNIT)]
    def finm(it, st, n, a, site, t):
        log(st, 'finalize', P(a[0])); return [(st, err(arg('MANIFESTERR')) if fail == 'finalize' else ok(UNIT))]
    def ctxh(it, st, c):
        log(st, 'pubctx', P(it.deepval(st, c.args[1]))); return None
    H = builder_hooks('append' if fail == 'encode' else None) + [
        (r'::async_lock$', fut('LOCK', 1)), (r'AsyncLimit.*::no_limit$', lambda it, st, c: [(st, arg('NOLIMIT'))]),
        (r'::key_locks$', lambda it, st, c: [(st, arg('LOCKS'))]),
        (r'::mutable_has_conflict$', conf('mutable')), (r'::immutable_has_conflict$', conf('immutable')),
        (r'::next_commit_ts$', one_('ts', struct(ctx, ctx.adt('mvcc::Timestamp'), **{tsfield(ctx): arg('CTS')}))),
        (r'::wal_handle$', lambda it, st, c: [(st, some(it.tmp(st, ('root', 0), 'wal', arg('WAL'))) if wal else NONE)]),
        (r'::next_provisional_id$', one_('pid', arg('PID'))), (r'::wal_live_frame_floor$', one_('floor', prev)),
        (r'::txn_begin$', fut('begin', 1)), (r'::txn_append$', fut('append', 1, 2, 3)), (r'::txn_append_delete$', fut('delete', 1, 2)), (r'::txn_commit$', fut('commit', 1, 2)), (r'::txn_abort$', fut('abort', 1)),
        (r'WalTicket.*::durable$', fut('DURABLE', 0)), (r'::apply_committed_batch$', apply('upserts')), (r'::apply_committed_deletes$', apply('deletes')),
        (r'::record_wal_range$', rec), (r'::finalize_manifest$', fut('FINM', 1)), (r'::txn_publish_context$', lambda it, st, c: (log(st, 'pubctx', P(it.deepval(st, c.args[1]))), [(st, arg('PUBCTX'))])[1]),
        (r'Executor.*::spawn$', lambda it, st, c: (log(st, 'spawn'), [(st, arg('JOIN'))])[1]), (r'::executor$', lambda it, st, c: [(st, it.tmp(st, ('root', 0), 'exec', arg('EXEC')))]),
        (r'Clone::clone$', lambda it, st, c: [(st, it.deepval(st, it.rd(st, c.args[0])))]), (r'_eprint$', lambda it, st, c: [(st, UNIT)]),
        (r'::as_row$', lambda it, st, c: [(st, c.args[0])]), (r'::cells$', lambda it, st, c: [(st, it.tmp(st, ('root', 0), ('cells', kn(P(it.deepval(st, it.rd(st, c.args[0]))))), ('a', (some(arg(kn(P(it.deepval(st, it.rd(st, c.args[0])))))),))))])]
    A = [(r'^LOCK$', lock), (r'^begin$', step('begin')), (r'^append$', step('append')), (r'^delete$', step('delete')), (r'^commit$', step('commit')), (r'^abort$', step('abort')), (r'^DURABLE$', durable), (r'^FINM$', finm)]
    tx = struct(ctx, TR, staged=staged(ctx, ents, ts=struct(ctx, ctx.adt('mvcc::Timestamp'), **{tsfield(ctx): arg('SNAP')})), commit_ack_mode=enum(ctx, AM, mode), key_components=('c', 1), handle=arg('DB'), schema=arg('SCHEMA'), delete_schema=arg('DSCHEMA'))
    it, outs = ctx.run(f, RankQ(exact=True, calls=H, awaits=A, drops=[drops], max_states=100), args=[tx])
    res = []
    for o in outs:
        for s, vi, w in it.split(o.st, it.rd(o.st, o.v), RESULT):
            v = it.deepval(s, w[3][0])
            res.append(('ok' if vi == 0 else 'conflict:' + kn(P(v)) if 'WriteConflict' in P(v) or (v[0] == 'e' and vname(ctx, v) == 'WriteConflict') else 'error', s.g('log', ()), P(v)))
    return f, res

def vname(ctx, v): return ctx.F.adts[v[1]]['v'][v[2]]['n'] if v[0] == 'e' and v[1] in ctx.F.adts else None

def judge_commit(ents, res, log, conflict=(), wal=True, mode='Strict', fail=None, ack=None, prev='Option#1{7}'):
    """first thing wrong with this run of commit, or None"""
    keys = sorted('K' + e[0] for e in ents)
    names = [e[0] for e in log]
    idx = lambda *n: [i for i, e in enumerate(log) if e[0] in n]
    eff = ('ts', 'begin', 'append', 'delete', 'commit', 'upserts', 'deletes', 'record', 'finalize', 'spawn')
    if not ents: return None if res == 'ok' and not [e for e in log if e[0] in eff] else f'an empty transaction does {names}'
    locks = [e[1] for e in log if e[0] == 'lock']
    if locks != keys: return f'locks {locks} instead of {keys} in key order'
    held = {}
    if idx('check') and min(idx('check')) < max(idx('lock')): return 'checks for conflicts before holding every key lock'
    last = max(idx(*eff, 'check'))
    for k in keys:
        u = [i for i, e in enumerate(log) if e[0] == 'unlock' and e[1] == k]
        if not u or max(u) < last: return f'releases the lock of {k} before the commit is over'
    want = {(w, k) for w in ('mutable', 'immutable') for k in keys}
    chk = [(e[1], e[2]) for e in log if e[0] == 'check']
    if any(not re.search('SNAP', e[3]) for e in log if e[0] == 'check'): return 'checks conflicts against something other than its snapshot'
    if conflict:
        hit = {k for _, k in conflict}
        if not res.startswith('conflict:') or res.split(':')[1] not in hit: return f'a conflicting write ends in {res}'
        if idx(*eff): return f'a conflicting transaction still performs {[n for n in names if n in eff]}'
        return None
    if not want <= set(chk): return f'does not check {sorted(want - set(chk))} for conflicts'
    if idx('ts') and min(idx('ts')) < max(idx('check')): return 'takes its commit timestamp before the conflict check'
    if len(idx('ts')) != 1: return f'takes {len(idx("ts"))} commit timestamps'
    ups = ';'.join('R' + str(t) for k, kd, t in sorted(ents) if kd == 'U')
    dels = [k for k, kd, t in sorted(ents) if kd == 'D']
    def okrow(p, which):
        if which == 'upserts': return f'BATCH<SCHEMA:{ups}>' in p
        return 'BATCH<DSCHEMA:' in p and re.findall(r'K(\d)|(CTS)', p) == [x for k in dels for x in ((k, ''), ('', 'CTS'))]
    frames = [e for e in log if e[0] in ('begin', 'append', 'delete', 'commit')]
    full = ['begin'] + (['append'] if ups else []) + (['delete'] if dels else []) + ['commit']
    applied = idx('upserts', 'deletes')
    if fail == 'encode':
        if res != 'error' or applied or frames: return f'a row that cannot be encoded: {res}, {names}'
        return None
    if wal:
        got = [e[0] for e in frames]
        stop = full.index(fail) + 1 if fail in full else len(full)
        if sorted(got) != sorted(full[:stop]) and not (fail in full and got and got[-1] == fail): return f'logs {got} instead of {full}'
        if got and (got[0] != 'begin' or ('commit' in got and got[-1] != 'commit')): return f'logs {got} instead of {full}'
        for e in frames:
            if 'PID' not in e[1]: return f'logs {e[0]} under {e[1]}'
            if e[0] in ('append', 'commit') and 'CTS' not in e[-1]: return f'logs {e[0]} with timestamp {e[-1]}'
            if e[0] == 'append' and not okrow(e[2], 'upserts'): return f'logs upserts {e[2]}'
            if e[0] == 'delete' and not okrow(e[2], 'deletes'): return f'logs deletes {e[2]}'
        if fail in full:
            if res != 'error' or applied or idx('record', 'finalize', 'spawn'): return f'log append of {fail} failed, but {res}: {names}'
            if fail != 'begin' and not any(e[0] == 'abort' and 'PID' in e[1] for e in log): return f'log append of {fail} failed and the begun transaction is not aborted in the log'
            return None
        if idx('abort'): return 'aborts a transaction it committed'
        if applied and min(applied) < max(idx('commit')): return 'applies the mutations before the commit frame is logged'
        if mode == 'Strict':
            dur = sorted(e[1] for e in log if e[0] == 'durable')
            if fail and fail.startswith('durable:'):
                if res != 'error' or applied or idx('record', 'finalize'): return f'{fail} failed, but {res}: {names}'
                return None
            if dur != sorted(full): return f'waits for {dur} instead of every frame {full}'
            if max(idx('durable')) > min(applied): return 'applies before every frame is durable'
            a = [(ack or {}).get(k, (10, 10)) for k in full]
            rng = (min(x for x, _ in a), max(y for _, y in a))
            rec = [tuple(map(int, re.findall(r'\d+', e[1].split('{', 1)[1]))) for e in log if e[0] == 'record']
            if rec != [rng] or max(idx('record')) > min(applied): return f'records frame range {rec} (expected {rng}, before applying)'
    elif frames: return f'without a log writes {frames}'
    if mode == 'Fast' and wal:
        if idx('durable'): return 'waits for durability although acknowledged early'
        if len(idx('spawn')) != 1 and not fail: return 'does not publish the log range in the background'
    exp = ([('upserts')] if ups else []) + ([('deletes')] if dels else [])
    ap = [e for e in log if e[0] in ('upserts', 'deletes')]
    if fail in ('upserts', 'deletes'):
        return None if res == 'error' and not idx('finalize') else f'applying {fail} failed, but {res}'
    if sorted(e[0] for e in ap) != sorted(exp): return f'applies {[e[0] for e in ap]} instead of {exp}'
    for e in ap:
        if not okrow(e[1], e[0]): return f'applies {e[1]}'
        if e[0] == 'upserts' and 'CTS' not in e[2]: return f'applies at {e[2]}'
    if wal and mode == 'Strict':
        fin = [tuple(map(int, re.findall(r'\d+', e[1].split('{', 1)[1]))) for e in log if e[0] == 'finalize']
        if fin != [rng] or min(idx('finalize')) < max(applied): return f'publishes range {fin} (expected {rng}, after applying)'
        if fail == 'finalize': return None if res == 'error' else 'a failed publication is acknowledged'
    if wal:
        if [e[1] for e in log if e[0] == 'pubctx'] != [prev]: return f"publishes with live floor {[e[1] for e in log if e[0] == 'pubctx']}"
        if min(idx('floor')) > min(applied + idx('record')): return 'samples the live floor only after adding its own frames'
    return None if res == 'ok' else f'ends in {res}'

@rule('T02')
def commit_protocol(ctx):
    """commit locks every key in order, refuses conflicts without any effect, logs begin/payloads/commit under one id and timestamp, and applies exactly the staged mutations only once that is safe"""
    K = 'commit_protocol'
    base = [[], [('1', 'U', 0)], [('1', 'D', 0)], [('1', 'U', 0), ('2', 'D', 1)], [('1', 'D', 0), ('2', 'U', 1), ('3', 'U', 2)]]
    cases = [(e, dict(wal=w, mode=m)) for e in base for w, m in ((True, 'Strict'), (True, 'Fast'), (False, 'Strict'))]
    two = base[3]
    cases += [(two, dict(conflict={(w, k)}, wal=wl)) for w in ('mutable', 'immutable') for k in ('K1', 'K2') for wl in (True, False)]
    cases += [(e, dict(fail=x, mode=m)) for e in (two, base[1], base[2]) for m in ('Strict', 'Fast') for x in ('begin', 'append', 'delete', 'commit', 'encode', 'upserts', 'deletes') if not (x in ('append', 'upserts') and e is base[2]) and not (x in ('delete', 'deletes') and e is base[1]) and not (x == 'encode' and e is base[2] and False)]
    cases += [(two, dict(fail='durable:' + x)) for x in ('begin', 'append', 'delete', 'commit')] + [(two, dict(fail='finalize'))]
    cases += [(two, dict(ack=a)) for a in ({'begin': (3, 3), 'append': (4, 4), 'delete': (5, 6), 'commit': (7, 7)}, {'begin': (9, 9), 'append': (4, 12), 'delete': (5, 6), 'commit': (7, 7)})]
    cases += [(two, dict(prev=NONE))]
    for ents, kw in cases:
        f, res = commit_run(ctx, ents, **kw)
        jk = dict(kw)
        if 'prev' in jk: jk['prev'] = P(jk['prev'])
        bad = [b for r, l, v in res for b in [judge_commit(ents, r, l, **jk)] if b]
        name = ''.join(k + o for k, o, _ in ents) + ':' + ','.join(f'{a}={b}' for a, b in sorted(kw.items(), key=str) if a != 'ack') + ('acks' if 'ack' in kw else '')
        ctx.ob(K, name, res and not bad, f'committing staged {"".join(k + o for k, o, _ in ents) or "nothing"} ({kw}) {bad[:1]}', ctx.loc(f))
commit_protocol.whole = True

# ---------------------------------------------------------------- T03: what a transaction reads and accepts
def _tx(ctx, ents=(), comps=1):
    return struct(ctx, ctx.adt('transaction::Transaction'), staged=staged(ctx, ents, ts=struct(ctx, ctx.adt('mvcc::Timestamp'), **{tsfield(ctx): arg('SNAP')})),
                  key_components=('c', comps), handle=arg('DB'), schema=arg('SCHEMA'), delete_schema=arg('DSCHEMA'), extractor=arg('EXTRACTOR'))

def _get(ctx, ents, imm, mutb, fail=None):
    """read K1: imm/mutb list (key rank, ts rank, row tag | None) of the versions the memtables show"""
    ts = ctx.adt('mvcc::Timestamp')
    log = lambda st, *e: st.setg('log', st.g('log', ()) + (e,))
    def src(nm, vs):
        def h(it, st, c):
            log(st, nm, P(it.deepval(st, c.args[1])))
            if fail == nm: return [(st, err(arg('KEYERR')))]
            return [(st, ok(('a', tuple(('t', (arg(f'K{k}'), struct(ctx, ts, **{tsfield(ctx): arg(f'T{t}')}), some(arg(r)) if r else NONE)) for k, t, r in vs))))]
        return h
    H = [(r'::scan_immutable_versions_at$', src('imm', imm)), (r'::scan_mutable_versions_at$', src('mut', mutb)),
         (r'Row::to_owned$|KeyRow::to_owned$|ToOwned::to_owned$', lambda it, st, c: [(st, it.deepval(st, it.rd(st, c.args[0])))]),
         (r'Clone::clone$', lambda it, st, c: [(st, it.deepval(st, it.rd(st, c.args[0])))])]
    st = State(); i0 = Interp(ctx.F, RankQ(exact=True))
    me = i0.tmp(st, ('root', 0), 'me', _tx(ctx, ents)); key = i0.tmp(st, ('root', 0), 'key', arg('K1'))
    it, outs = ctx.run(ctx.fn(TX + 'Transaction::<FS, E>::get'), RankQ(exact=True, calls=H, max_states=200), args=[me, key], st=st)
    res = []
    for o in outs:
        for s, vi, w in it.split(o.st, it.rd(o.st, o.v), RESULT):
            res.append((vi, P(it.deepval(s, w[3][0])), s.g('log', ())))
    return res

@rule('T03')
def transaction_get(ctx):
    """get answers from the staged mutation if there is one, else with the newest memtable version at the snapshot, deletes meaning nothing"""
    K = 'transaction_get'
    f = ctx.fn(TX + 'Transaction::<FS, E>::get'); loc = ctx.loc(f)
    row = lambda p: (re.findall(r'\b[RVW]\d+\b', p) + [None])[0] if 'Option#0' not in p and p != 'None' else None
    memory = [([], []), ([(1, 1, 'V1')], []), ([], [(1, 1, 'V1')]), ([(1, 1, 'V1')], [(1, 2, 'V2')]), ([(1, 1, 'V1')], [(1, 2, None)]), ([(1, 3, 'V1')], [(1, 2, 'V2')]),
              ([(1, 1, None)], [(1, 2, 'V2')]), ([(1, 1, 'V1'), (1, 2, 'V2')], []), ([(1, 2, 'V2'), (1, 1, 'V1')], []), ([(1, 1, 'V1'), (1, 2, None)], []), ([(1, 2, None), (1, 1, 'V1')], []),
              ([(1, 2, 'V1')], [(1, 2, 'V2')]), ([(1, 2, 'V1')], [(1, 2, None)]), ([(1, 2, 'V1'), (1, 2, 'V2')], []), ([(2, 5, 'V9')], [(3, 6, 'V8')]), ([(2, 5, 'V9'), (1, 1, 'V1')], [(3, 6, None)]),
              ([(1, 3, None), (2, 5, 'V9')], [(1, 2, 'V2')])]
    for imm, mu in memory:
        best = None
        for v in imm + mu:
            if v[0] == 1 and (best is None or v[1] >= best[1]): best = v
        want = best[2] if best else None
        res = _get(ctx, [('2', 'U', 7)], imm, mu)
        bad = [(p) for vi, p, _ in res if vi != 0 or row(p) != want]
        name = '|'.join(','.join(f'K{k}@{t}={r or "del"}' for k, t, r in l) for l in (imm, mu))
        ctx.ob(K, f'memory:{name}', res and not bad, f'with versions {name} (sealed|mutable) get of K1 answers {bad[:1]}, expected {want}', loc)
        ctx.ob(K, f'snapshot:{name}', all(sorted(e[0] for e in l) == ['imm', 'mut'] and all('SNAP' in e[1] for e in l) for _, _, l in res), 'get does not look at both kinds of memtable as of its own snapshot', loc)
    for kd in 'UD':
        for imm, mu in memory[:6]:
            res = _get(ctx, [('1', kd, 5), ('2', 'U', 7)], imm, mu)
            want = 'R5' if kd == 'U' else None
            bad = [p for vi, p, _ in res if vi != 0 or row(p) != want]
            ctx.ob(K, f'staged:{kd}:{len(imm)}{len(mu)}{imm or ""}{mu or ""}'.replace(' ', ''), res and not bad, f'get of a key with a staged {"upsert" if kd == "U" else "delete"} answers {bad[:1]}', loc)
    for nm in ('imm', 'mut'):
        res = _get(ctx, [], [(1, 1, 'V1')], [(1, 2, 'V2')], fail=nm)
        ctx.ob(K, f'error:{nm}', res and all(vi == 1 for vi, _, _ in res), f'get answers although reading the {nm} versions failed', loc)
transaction_get.whole = True

TABLE_READ = r'::open_parquet_stream(_with_metadata|_with_schema)?$|ParquetRecordBatchStreamBuilder'
def names_from(ctx, roots):
    """every name mentioned by the bodies reachable from these ones through calls, closures and futures"""
    seen, names, todo = set(), set(), list(roots)
    def strs(x):
        if isinstance(x, str): yield x
        elif isinstance(x, dict):
            for y in x.values(): yield from strs(y)
        elif isinstance(x, (list, tuple)):
            for y in x: yield from strs(y)
    while todo:
        k = todo.pop()
        if k in seen: continue
        seen.add(k)
        for n in strs(ctx.F.bodies[k]['b']):
            if '::' not in n: continue
            names.add(n)
            if n in ctx.F.bodies and n not in seen: todo.append(n)
    return names

@rule('T03')
def flushed_reads(ctx):
    """a read through the transaction can reach the reader of table files, where flushed rows live"""
    for what in ('get', 'scan'):
        f = ctx.fn(TX + 'Transaction::<FS, E>::' + what)
        root = [f['key']] if what == 'get' else [f['key'], ctx.fn("crate::db::scan::ScanBuilder::<'a, FS, E>::stream")['key']]
        ns = names_from(ctx, root)
        ctx.ob('flushed_reads', what, any(re.search(TABLE_READ, n) for n in ns), f'no path from Transaction::{what} reads a table file: keys whose rows were flushed read as absent', ctx.loc(f))
flushed_reads.whole = True

@rule('T02')
def flushed_conflicts(ctx):
    """the conflict check can reach the table files, where rows committed since the snapshot may have been flushed"""
    f = ctx.fn(TX + 'Transaction::<FS, E>::commit')
    ns = names_from(ctx, [f['key']])
    ctx.ob('flushed_conflicts', 'commit', any(re.search(TABLE_READ, n) for n in ns), 'no path from the conflict check of commit reads a table file: a conflicting write that was flushed meanwhile goes unnoticed', ctx.loc(f))
flushed_conflicts.whole = True

def _stage(ctx, meth, args, ents=(), comps=1, fields=2, fail=None, keys=1, cells=None, rowwidth=None):
    """run a staging method; returns [(outcome, error name, staged entries)]"""
    log = lambda st, *e: st.setg('log', st.g('log', ()) + (e,))
    fut = None
    def length(n): return lambda it, st, c: [(st, ('c', n))]
    def proj(it, st, c):
        b = P(it.deepval(st, it.rd(st, c.args[1]))); idx = P(it.deepval(st, it.rd(st, c.args[2])))
        log(st, 'project', b, idx)
        if fail == 'project': return [(st, err(arg('KEYERR')))]
        m = re.search(r'R(\d+)', b)
        return [(st, ok(('a', (arg(f'K{m.group(1) if m else "?"}'),) * keys)))]
    def rfb(it, st, c):
        i = P(it.deepval(st, c.args[1]))
        log(st, 'row', P(it.deepval(st, it.rd(st, c.args[0]))), i)
        if fail == 'row' + i: return [(st, err(arg('VIEWERR')))]
        return [(st, ok(_rowv(ctx, rowwidth, f"R{i}")))]
    H = builder_hooks('append' if fail == 'encode' else None) + [
        (r'::project_view$', proj), (r'row_from_batch$', rfb), (r'RecordBatch::num_rows$', length(2)), (r'RecordBatch::schema$', lambda it, st, c: [(st, arg('BSCHEMA'))]),
        (r'::fields$', lambda it, st, c: [(st, it.tmp(st, ('root', 0), 'fields', ('a', tuple(arg(f'F{i}') for i in range(fields)))))]),
        (r'Fields.*::len$', length(fields)),
        (r'Row::to_owned$|KeyRow::to_owned$|ToOwned::to_owned$', lambda it, st, c: [(st, it.deepval(st, it.rd(st, c.args[0])))]),
        (r'::as_row$', lambda it, st, c: [(st, c.args[0])]),
        (r'::cells$', lambda it, st, c: [(st, it.tmp(st, ('root', 0), 'cells', ('a', tuple(some(arg('CELL')) if x else NONE for x in (cells or [True])))))]),
        (r'Clone::clone$', lambda it, st, c: [(st, it.deepval(st, it.rd(st, c.args[0])))])]
    st = State(); i0 = Interp(ctx.F, RankQ(exact=True))
    me = i0.tmp(st, ('root', 0), 'me', _tx(ctx, ents, comps))
    it, outs = ctx.run(ctx.fn(TX + 'Transaction::<FS, E>::' + meth), RankQ(exact=True, calls=H, max_states=200, truths=[(r'BSCHEMA', fail != 'schema')], rels=[(r'BSCHEMA', r'SCHEMA', '=' if fail != 'schema' else '<>'), (r'^SCHEMA', r'BSCHEMA', '=' if fail != 'schema' else '<>')]), args=[me] + args(i0, st), st=st)
    res = []
    ti = ctx.fieldix(ctx.adt('transaction::Transaction'), 'staged')
    for o in outs:
        for s, vi, w in it.split(o.st, it.rd(o.st, o.v), RESULT):
            t = it.deepval(s, it.rd(s, me))
            e = it.deepval(s, w[3][0])
            res.append(('ok' if vi == 0 else vname(ctx, e) or P(e), ents_of(it, s, t[3][ti], ctx), s.g('log', ())))
    return res
def _rowv(ctx, n, tag): return ('e', 'typed_arrow_dyn::rows::DynRow', 0, (('a', tuple(some(arg(f'{tag}')) for _ in range(n))),))

@rule('T03')
def staging_methods(ctx):
    """upsert keys a row by projecting that very row; batches stage every row in order up to the first refusal; deletes need a complete key; what is refused is not staged"""
    K = 'staging_methods'
    T_ = TX + 'Transaction::<FS, E>::'
    up, ur, ub, de = (ctx.fn(T_ + n) for n in ('upsert', 'upsert_rows', 'upsert_batch', 'delete'))
    tag = lambda p: sorted(set(re.findall(r'R\d+', p)))
    simple = lambda es: sorted((k, 'D' if '#1' in m else 'U', tuple(tag(m))) for k, m in es) if isinstance(es, list) else es
    before = [('9', 'U', 9)]
    kept = [('K9', 'U', ('R9',))]
    def kind(es):
        out = []
        for k, m in es if isinstance(es, list) else []:
            out.append((k, 'U' if tag(m) else 'D', tuple(tag(m))))
        return sorted(out)
    for fail, n, keys, exp in ((None, 2, 1, 'ok'), (None, 1, 1, 'RowArity'), (None, 3, 1, 'RowArity'), ('encode', 2, 1, 'RowEncoding'), ('project', 2, 1, 'KeyExtract'), (None, 2, 0, 'EmptyProjection')):
        for ents in (before, before + [('4', 'D', 3)]):
            res = _stage(ctx, 'upsert', lambda i, s: [_rowv(ctx, n, 'R4')], ents=ents, fail=fail, keys=keys)
            want = sorted({**{k: (k, o, ()) if o == 'D' else (k, o, (f'R{t}',)) for k, o, t in [('K' + a, b, c) for a, b, c in ents]}, **({'K4': ('K4', 'U', ('R4',))} if exp == 'ok' else {})}.values())
            bad = [(r, kind(e)) for r, e, _ in res if r != exp or kind(e) != want]
            ctx.ob(K, f'upsert:{exp}:{n}:{len(ents)}', res and not bad, f'upserting a row of {n} values (schema of 2, {fail or "no"} failure, {keys} keys projected) ends in {bad[:1]}, expected {exp} with {want}', ctx.loc(up))
    for n in range(4):
        rows = lambda i, s: [('a', tuple(_rowv(ctx, 1 if j == 2 else 2, f'R{j}') for j in range(n)))]
        res = _stage(ctx, 'upsert_rows', rows, ents=before)
        want = sorted([(f'K{j}', 'U', (f'R{j}',)) for j in range(min(n, 2))] + kept)
        bad = [(r, kind(e)) for r, e, _ in res if r != ('RowArity' if n > 2 else 'ok') or kind(e) != want]
        ctx.ob(K, f'upsert_rows:{n}', res and not bad, f'staging {n} rows (the third malformed) ends in {bad[:1]}, expected {want}', ctx.loc(ur))
    for fail, exp, m in ((None, 'ok', 2), ('schema', 'SchemaMismatch', 0), ('row0', 'KeyExtract', 0), ('row1', 'KeyExtract', 1)):
        # rows come out of the batch as unknown rows of the right width
        res = _stage(ctx, 'upsert_batch', lambda i, s: [i.tmp(s, ('root', 0), 'batch', arg('BATCH'))], ents=before, fail=fail, rowwidth=2)
        want = sorted([(f'K{j}', 'U', (f'R{j}',)) for j in range(m)] + kept)
        bad = [(r, kind(e)) for r, e, _ in res if r != exp or kind(e) != want]
        ctx.ob(K, f'upsert_batch:{fail}', res and not bad, f'staging a batch of two rows ({fail or "no"} failure) ends in {bad[:1]}, expected {exp} with {want}', ctx.loc(ub))
    for comps, cells, exp in ((1, [True], 'ok'), (1, [True, True], 'KeyComponentMismatch'), (2, [True], 'KeyComponentMismatch'), (2, [True, True], 'ok'), (1, [False], 'KeyComponentNull'), (2, [True, False], 'KeyComponentNull'), (2, [False, True], 'KeyComponentNull')):
        for ents in (before, before + [('4', 'U', 3)]):
            res = _stage(ctx, 'delete', lambda i, s: [arg('K4')], ents=ents, comps=comps, cells=cells)
            want = sorted({**{'K' + k: ('K' + k, o, (f'R{t}',)) for k, o, t in ents}, **({'K4': ('K4', 'D', ())} if exp == 'ok' else {})}.values())
            bad = [(r, kind(e)) for r, e, _ in res if r != exp or kind(e) != want]
            ctx.ob(K, f'delete:{comps}:{"".join("kn"[not c] for c in cells)}:{len(ents)}', res and not bad, f'deleting a key of {len(cells)} components {cells} (schema has {comps}) ends in {bad[:1]}, expected {exp} with {want}', ctx.loc(de))
staging_methods.whole = True

# ---------------------------------------------------------------- publishing the log range of a commit
PUB = TX + '<impl db::wal::TxnWalPublishContext<FS, E>>::'
def _rng(ctx, a, b): return struct(ctx, ctx.adt('wal::WalFrameRange'), first=('c', a), last=('c', b))
def _nums(p): return tuple(map(int, re.findall(r'\b\d+\b', re.sub(r'#\d+', '', p))))

@rule('T02', 'W06')
def publish_range(ctx):
    """the frame range of a commit is the hull of its acknowledgements and extends the range of the memtable that receives it"""
    K = 'publish_range'
    wt = ctx.fn(TX + 'WalTxnTickets::<E>::await_range')
    AK = ctx.adt('frame::WalAck') if any(k.endswith('frame::WalAck') for k in ctx.F.adts) else ctx.adt('WalAck')
    acks_of = [[], [(4, 4)], [(4, 4), (5, 6)], [(9, 9), (4, 12), (5, 6)], [(3, 3), (4, 4), (5, 5), (6, 7)], [(7, 7), (5, 5), (6, 9), (2, 3)]]
    for acks in acks_of:
        for failat in [None] + list(range(len(acks))):
            def dur(it, st, n, a, site, t):
                k = int(re.search(r'TICKET(\d+)', P(a[0])).group(1))
                st.setg('seen', st.g('seen', ()) + (k,))
                if k == failat: return [(st, err(arg('WALERR')))]
                return [(st, ok(struct(ctx, AK, first_seq=('c', acks[k][0]), last_seq=('c', acks[k][1]))))]
            H = [(r'WalTicket.*::durable$', lambda it, st, c: [(st, mk(('call', 'DURABLE', (it.deepval(st, c.args[0]),))))])]
            me = struct(ctx, ctx.adt('transaction::WalTxnTickets'), tickets=('a', tuple(arg(f'TICKET{i}') for i in range(len(acks)))))
            it, outs = ctx.run(wt, CQ(exact=True, calls=H, awaits=[(r'^DURABLE$', dur)]), args=[me])
            res = [(vi, P(it.deepval(s, w[3][0])), s.g('seen', ())) for o in outs for s, vi, w in it.split(o.st, it.rd(o.st, o.v), RESULT)]
            exp = None if failat is not None or not acks else (min(a for a, _ in acks), max(b for _, b in acks))
            bad = [r for r in res if (r[0] == 0) != (exp is not None) or (exp is not None and (_nums(r[1]) != exp or sorted(r[2]) != list(range(len(acks)))))]
            ctx.ob(K, f'await:{acks}:{failat}'.replace(' ', ''), res and not bad, f'a commit acknowledged with frames {acks} (durability of #{failat} failing) covers {bad[:1]}, expected {exp}', ctx.loc(wt))
    rec = ctx.fn(PUB + 'record_wal_range')
    cf = ctx.adt('wal::TxnWalPublishContext')
    for cur in (None, (5, 8), (1, 3), (7, 7), (2, 20)):
        for new in ((5, 8), (9, 12), (1, 2)):
            st = State(); i0 = Interp(ctx.F, CQ(exact=True))
            cell = i0.tmp(st, ('root', 0), 'cell', NONE if cur is None else some(_rng(ctx, *cur)))
            me = i0.tmp(st, ('root', 0), 'me', struct(ctx, cf, mutable_wal_range=arg('LOCK'))); r = i0.tmp(st, ('root', 0), 'r', _rng(ctx, *new))
            H = [(r'Mutex.*::lock$', lambda it, st, c: [(st, ok(arg('GUARD')))]), (r'(Deref::deref|DerefMut::deref_mut|Deref>::deref|DerefMut>::deref_mut)$', lambda it, st, c: [(st, cell)] if 'GUARD' in P(it.deepval(st, it.rd(st, c.args[0]))) else None)]
            it, outs = ctx.run(rec, CQ(exact=True, calls=H), args=[me, r], st=st)
            exp = new if cur is None else (min(cur[0], new[0]), max(cur[1], new[1]))
            got = [_nums(P(it.deepval(o.st, it.rd(o.st, cell)))) for o in outs]
            ctx.ob(K, f'record:{cur}:{new}'.replace(' ', ''), got and all(g == exp for g in got), f'recording frames {new} over {cur} leaves {got[:1]}, expected {exp}', ctx.loc(rec))
publish_range.whole = True

@rule('T02', 'W06', 'M01')
def publish_manifest(ctx):
    """after a commit the manifest is told the segments that back everything unflushed, and only segments below its floor are pruned"""
    K = 'publish_manifest'
    f = ctx.fn(PUB + 'finalize_manifest'); cf = ctx.adt('wal::TxnWalPublishContext'); ME = ctx.adt('version::VersionEdit')
    log = lambda st, *e: st.setg('log', st.g('log', ()) + (e,))
    fut = lambda nm, *ks: lambda it, st, c: [(st, mk(('call', nm, tuple(it.deepval(st, it.rd(st, c.args[k])) for k in ks))))]
    for prev in (None, 3, 9):
        for cfgd in (True, False):
            for refs in (0, 1, 2):
                for fail in (None, 'floor', 'collect', 'apply', 'floor2', 'nofloor2', 'prune'):
                    if (not cfgd or refs == 0) and fail not in (None, 'floor', 'collect'): continue
                    def floor(it, st, n, a, site, t):
                        i = len([e for e in st.g('log', ()) if e[0] == 'floor']); log(st, 'floor', P(a[0]))
                        if fail == ('floor', 'floor2')[min(i, 1)]: return [(st, err(arg('MERR')))]
                        if fail == 'nofloor2' and i: return [(st, ok(NONE))]
                        return [(st, ok(some(arg(f'FLOOR{i}'))))]
                    def coll(it, st, n, a, site, t):
                        log(st, 'collect', *[P(x) for x in a])
                        return [(st, err(arg('WERR')) if fail == 'collect' else ok(('a', tuple(arg(f'SEG{i}') for i in range(refs)))))]
                    def app(it, st, n, a, site, t):
                        log(st, 'apply', *[P(x) for x in a]); return [(st, err(arg('MERR')) if fail == 'apply' else ok(arg('HEAD')))]
                    def prune(it, st, n, a, site, t):
                        log(st, 'prune', *[P(x) for x in a]); return [(st, err(arg('WERR')) if fail == 'prune' else ok(('c', 0)))]
                    H = [(r'::wal_floor$', fut('FLOOR', 1)), (r'collect_wal_segment_refs$', fut('COLLECT', 0, 1, 2)), (r'::apply_version_edits$', fut('APPLY', 1, 2)), (r'prune_wal_segments$', fut('PRUNE', 0, 1)), (r'_eprint$|WalSegmentRef::seq$', lambda it, st, c: [(st, UNIT)])]
                    A = [(r'^FLOOR$', floor), (r'^COLLECT$', coll), (r'^APPLY$', app), (r'^PRUNE$', prune)]
                    st = State(); i0 = Interp(ctx.F, CQ(exact=True))
                    me = i0.tmp(st, ('root', 0), 'me', struct(ctx, cf, wal_config=some(arg('CFG')) if cfgd else NONE, prev_live_floor=NONE if prev is None else some(('c', prev)), manifest_table=arg('TABLE')))
                    it, outs = ctx.run(f, CQ(exact=True, calls=H, awaits=A, max_states=200), args=[me, _rng(ctx, 5, 8)], st=st)
                    res = [(vi, s.g('log', ())) for o in outs for s, vi, w in it.split(o.st, it.rd(o.st, o.v), RESULT)]
                    want_ok = not (cfgd and (fail in ('floor', 'collect') or (refs and fail == 'apply')))
                    bad = None
                    for vi, l in res:
                        d = {}
                        for e in l: d.setdefault(e[0], []).append(e[1:])
                        if (vi == 0) != want_ok: bad = f'ends in {"ok" if vi == 0 else "an error"}'
                        if any('TABLE' not in e[0] for e in d.get('floor', [])): bad = f"asks for the floor of {d['floor']}"
                        live = 5 if prev is None else min(prev, 5)
                        for e in d.get('collect', []):
                            if 'CFG' not in e[0] or 'FLOOR0' not in e[1] or _nums(e[2]) != (live,): bad = f'collects segments for {e}, expected live floor {live}'
                        if not cfgd and d: bad = f'without a log does {list(d)}'
                        if cfgd and fail is None and refs:
                            if len(d.get('apply', [])) != 1: bad = 'does not publish the segments'
                            if len(d.get('prune', [])) > 1: bad = 'prunes twice'
                        for e in d.get('apply', []):
                            if 'TABLE' not in e[0] or re.findall(r'SEG\d', e[1]) != [f'SEG{i}' for i in range(refs)] or 'VersionEdit' not in e[1]: bad = f'publishes {e}'
                        if refs == 0 and (d.get('apply') or d.get('prune')): bad = 'publishes an empty segment list'
                        for e in d.get('prune', []):
                            if fail in ('floor', 'collect', 'apply', 'floor2', 'nofloor2'): bad = f'prunes although {fail}'
                            elif 'FLOOR1' not in e[1] or 'CFG' not in e[0]: bad = f'prunes below {e[1]} instead of the floor the manifest now has'
                    ctx.ob(K, f'{prev}:{cfgd}:{refs}:{fail}', res and not bad, f'publishing a commit (previous live floor {prev}, {"a" if cfgd else "no"} log, {refs} segments, failing: {fail}) {bad}', ctx.loc(f))
    g = ctx.fn(PUB + 'finalize')
    for fail in (False, True):
        def rec(it, st, c): log(st, 'record', P(it.deepval(st, it.rd(st, c.args[1])))); return [(st, UNIT)]
        def fin(it, st, n, a, site, t): log(st, 'finalize', P(a[0])); return [(st, err(arg('MERR')) if fail else ok(UNIT))]
        it, outs = ctx.run(g, CQ(exact=True, calls=[(r'::record_wal_range$', rec), (r'::finalize_manifest$', fut('FIN', 1))], awaits=[(r'^FIN$', fin)]), args=[arg('ME'), _rng(ctx, 5, 8)])
        res = [(vi, s.g('log', ())) for o in outs for s, vi, w in it.split(o.st, it.rd(o.st, o.v), RESULT)]
        okk = all(vi == fail and [(e[0], _nums(e[1])) for e in l] == [('record', (5, 8)), ('finalize', (5, 8))] for vi, l in res)
        ctx.ob(K, f'finalize:{fail}', res and okk, f'a background publication does {res[:1]}', ctx.loc(g))
publish_manifest.whole = True
