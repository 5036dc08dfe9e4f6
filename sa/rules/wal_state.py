"""WAL state file (compare-and-swap), and the handle through which commands reach the writer."""
from core import *
from rules.wal_writer import gstart, failg

SH = 'crate::wal::state::WalStateHandle::'
WST = 'crate::wal::state::WalState::'
HD = 'crate::wal::WalHandle::<E>::'

@rule('W08')
def state_cas(ctx):
    """the state file is only ever replaced conditionally on the version last seen"""
    K = 'state_cas'
    put = ctx.impl('WalStateStore', 'FsWalStateStore', 'put')
    def run(vars):
        seen = []
        def on(it, st, name, args, site, term):
            seen.append([path(it.deepval(st, a)) for a in args]); return aw_result(None, failg)(it, st, name, args, site, term)
        it = Interp(ctx.F, CQ(vars=vars, awaits=[(r'put_conditional$', on)], calls=[(r'put_conditional$', pure())]))
        st = gstart()
        outs = []
        for s, v in it.run_body(st, put, ctx.args_of(put), ('root', 0)): outs += it.poll(s, v, 0, 0)
        ctx.fns |= it.visited; ctx.sites |= it.sites
        return it, seen, [Outcome(s, v) for s, v in outs]
    for v, pat in (('Some', r'CasCondition#\d+\{.*expect@Some\.0.*\}'), ('None', r'CasCondition#\d+')):
        it, seen, outs = run([(r'^expect$', {v})])
        names = [x['n'] for x in ctx.F.adts['fusio::fs::CasCondition']['v']] if 'fusio::fs::CasCondition' in ctx.F.adts else None
        ctx.ob(K, f'condition:{v}', len(seen) >= 1 and all(re.fullmatch(pat, a[-1]) for a in seen), f'condition {[a[-1] for a in seen]}', ctx.loc(put))
        ad = next((k for k in ctx.F.adts if k.endswith('::CasCondition')), None)
        if ad:
            want = {'Some': 'IfMatch', 'None': 'IfNotExists'}[v]
            wi = next(i for i, x in enumerate(ctx.F.adts[ad]['v']) if x['n'] == want)
            ctx.ob(K, f'condition-kind:{v}', seen and all(a[-1].startswith(f'CasCondition#{wi}') for a in seen), f'{[a[-1] for a in seen]} is not {want}', ctx.loc(put))
        ctx.ob(K, f'target:{v}', seen and all('path' == a[1] and 'payload' == a[2] for a in seen), f'{seen[:1]}', ctx.loc(put))
        r = results(it, outs)
        ctx.ob(K, f'error:{v}', r.get('Ok') and not any(s.g('w') == 'fail' for s, _ in r['Ok']), 'a failed conditional put is reported as success', ctx.loc(put))
    ps = ctx.fn(SH + 'persist')
    seen = []
    def on(it, st, name, args, site, term):
        seen.append([path(it.deepval(st, a)) for a in args[1:]]); return aw_result(None, failg)(it, st, name, args, site, term)
    for tg in ('Some', 'None'):
        seen.clear()
        q = CQ(vars=[(r'^self\.tag$', {tg})], awaits=[(r'::put$', on)], calls=[(r'::put$', pure())])
        case(ctx, K, f'persist:{tg}', ps, q, st=gstart(), when='Ok', ghost=lambda s: s.g('w') != 'fail', posts=[(('self', 'tag'), r'Option#1\{put\(.*\)@Ok\.0\}')], msg='after persisting')
        case(ctx, K, f'persist-failed:{tg}', ps, q, st=gstart(), when='Err', posts=[(('self', 'tag'), r'self\.tag|' + (r'Option#0' if tg == 'None' else r'Option#1\{self\.tag@Some\.0\}'))], msg='after a failed persist')
        ctx.ob(K, f'persist-args:{tg}', seen and all(a[0] == 'self.path' and re.fullmatch(r'to_vec\(self\.state\)@Ok\.0', a[1]) and (re.search(r'self\.tag', a[2]) if tg == 'Some' else a[2] in ('Option#0', 'self.tag')) for a in seen), f'{seen[:1]}', ctx.loc(ps))
    ld = ctx.fn(SH + 'load')
    S = lambda kind: [(r'Store(>|::<.*>)?::load$|WalStateStore.*::load$', aw_result(None, failg, kind))]
    got = ('t', (arg('BYTES'), arg('TAG')))
    c = [(r'Store(>|::<.*>)?::load$|WalStateStore.*::load$', pure())]
    W = r'WalStateHandle#0\{store,.*child\(dir,.*,%s,%s\}'
    case(ctx, K, 'load', ld, CQ(calls=c, awaits=S(some(got)), rels=[(r'^len\(BYTES\)$', r'^0$', '>')]), st=gstart(), when='Ok', ghost=lambda s: s.g('w') != 'fail', ret=W % (r'Option#1\{TAG\}', r'from_slice\(BYTES\)@Ok\.0'), msg='loading a state file')
    case(ctx, K, 'load-empty', ld, CQ(calls=c, awaits=S(some(got)), rels=[(r'^len\(BYTES\)$', r'^0$', '=')]), st=gstart(), when='Ok', ret=W % (r'Option#1\{TAG\}', r'(default\(.*\)|WalState#0\{.*\})'), msg='loading an empty state file')
    case(ctx, K, 'load-absent', ld, CQ(calls=c, awaits=S(NONE)), st=gstart(), when='Ok', ret=W % (r'Option#0', r'(default\(.*\)|WalState#0\{.*\})'), msg='no state file')
    sl = ctx.impl('WalStateStore', 'FsWalStateStore', 'load')
    it = Interp(ctx.F, CQ(awaits=[(r'load_with_tag$', aw_result(None, failg))], calls=[(r'load_with_tag$', pure())]))
    outs = []
    for s, v in it.run_body(gstart(), sl, ctx.args_of(sl), ('root', 0)): outs += it.poll(s, v, 0, 0)
    r = results(it, [Outcome(s, v) for s, v in outs])
    bad = [pstr(it, s, v[0]) for s, v in r.get('Ok', []) if s.g('w') == 'fail' or not re.fullmatch(r'Option#0|Option#1\{\(.*load_with_tag\(self\.cas,path\)@Ok\.0@Some\.0\.0,.*load_with_tag\(self\.cas,path\)@Ok\.0@Some\.0\.1\)\}|load_with_tag\(self\.cas,path\)@Ok\.0', pstr(it, s, v[0]))]
    ctx.ob(K, 'load-with-tag', r.get('Ok') and not bad, f'{bad[:2]}', ctx.loc(sl))

@rule('W08', 'W07')
def state_fields(ctx):
    """each recorded quantity lands in its own field; sealed segments are unique per number"""
    K = 'state_fields'
    for m, fieldname, pat, a in (('set_commit_ts', 'last_commit_ts', r'Option#1\{ts(\.0)?\}', 'ts'), ('set_frame_seq', 'last_frame_seq', r'Option#1\{seq\}', 'seq'), ('set_segment_seq', 'last_segment_seq', r'Option#1\{seq\}', 'seq'),
                              ('set_active_segment', 'active_segment', r'Option#1\{bounds\}', 'bounds'), ('clear_active_segment', 'active_segment', r'Option#0', None), ('replace_sealed_segments', 'sealed_segments', r'segments', 'segments')):
        f = ctx.fn(WST + m)
        allf = [x[0] for x in ctx.F.adts[ctx.adt('wal::state::WalState')]['v'][0]['f']]
        case(ctx, K, m, f, CQ(), posts=[(('self', x), pat if x == fieldname else r'self\.' + x) for x in allf], msg=m)
    ups = ctx.fn(WST + 'upsert_sealed_segment')
    st = State()
    WS_ = ctx.adt('wal::state::WalState')
    segs = ('a', (arg('B0'), arg('B1')))
    def with_segs():
        s = State()
        return ('e', WS_, 0, tuple(segs if x[0] == 'sealed_segments' else mk(('arg', x[0])) for x in ctx.F.adts[WS_]['v'][0]['f'])), s
    for key, r0, r1, exp in (('new', '<', '<', '[B0,B1,segment]'), ('replace-first', '=', '>', '[B1,segment]'), ('replace-last', '<', '=', '[B0,segment]')):
        v, s = with_segs()
        it = Interp(ctx.F, CQ(rels=[(r'^B0\.seq$', r'^segment\.seq$', r0), (r'^B1\.seq$', r'^segment\.seq$', r1)]))
        r_ = it.tmp(s, 0, ('self',), v)
        rs = it.run_body(s, ups, [r_, arg('segment')], ('root', 0))
        got = {ppost(it, s2, it.rd(s2, r_), 'sealed_segments') for s2, _ in rs}
        norm = {'[' + ','.join(sorted(g.strip('[]').split(','))) + ']' for g in got}
        ctx.ob(K, f'upsert:{key}', norm == {'[' + ','.join(sorted(exp.strip('[]').split(','))) + ']'}, f'sealed segments become {got}', ctx.loc(ups))
        ctx.fns |= it.visited
    ct = ctx.fn(WST + 'commit_ts')
    case(ctx, K, 'commit_ts', ct, CQ(vars=[(r'last_commit_ts$', {'Some'})]), ret=r'Option#1\{(Timestamp#0\{)?self\.last_commit_ts@Some\.0\}?\}')
    ex = ctx.fn('crate::wal::state::WalSegmentBounds::extend_to')
    case(ctx, K, 'extend', ex, CQ(), posts=[(('self', 'last_frame'), 'last_frame'), (('self', 'first_frame'), r'self\.first_frame'), (('self', 'seq'), r'self\.seq')])

def sent_hook(msgs, extra=()):
    """sender.send(msg).await: record the message"""
    def on(it, st, name, args, site, term):
        msgs.append((pstr(it, st, args[1]), it.deepval(st, args[1]), st))
        s2 = st.copy(); s2.setg('w', 'fail')
        return [(st, ok(UNIT)), (s2, err(mk(('closed',))))]
    return [(r'SinkExt::send$|mpsc::Sender.*::send$', on)]

@rule('W04', 'W09', 'W10')
def handle_commands(ctx):
    """each logging call submits exactly the command it is named after, carrying the caller's id, data and commit timestamp"""
    K = 'handle_commands'
    cmds = []
    WC = ctx.adt('wal::WalCommand')
    vi = {v['n']: i for i, v in enumerate(ctx.F.adts[WC]['v'])}
    def ec(it, st, name, args, site, term):
        cmds.append([path(it.deepval(st, a)) for a in args[1:]])
        s2 = st.copy(); s2.setg('w', 'fail')
        return [(st, ok(arg('TICKET'))), (s2, err(mk(('e',))))]
    q = lambda: CQ(calls=[(r'::enqueue_command$', pure())], awaits=[(r'::enqueue_command$', ec)])
    R = r'.*repeat.*' 
    for m, pat in (('txn_begin', r'WalCommand#%d\{provisional_id\}' % vi['TxnBegin']), ('txn_abort', r'WalCommand#%d\{provisional_id\}' % vi['TxnAbort']), ('txn_commit', r'WalCommand#%d\{provisional_id,commit_ts\}' % vi['TxnCommit']),
                   ('txn_append_delete', r'WalCommand#%d\{provisional_id,DynBatchPayload#1\{batch\}\}' % vi['TxnAppend']),
                   ('txn_append', r'WalCommand#%d\{provisional_id,DynBatchPayload#0\{batch,.*commit_ts.*num_rows\(batch\).*\}\}|WalCommand#%d\{provisional_id,DynBatchPayload#0\{batch,.*commit_ts.*\}\}' % (vi['TxnAppend'], vi['TxnAppend']))):
        cmds.clear()
        f = ctx.fn(HD + m)
        case(ctx, K, m, f, q(), st=gstart(), when='Ok', ghost=lambda s: s.g('w') != 'fail', ret='TICKET')
        ctx.ob(K, f'{m}:command', len(cmds) >= 1 and all(re.fullmatch(pat, c[0]) for c in cmds), f'submits {cmds[:1]}', ctx.loc(f))
    ev = ctx.fn(HD + 'enqueue_command')
    msgs = []
    WM = ctx.adt('wal::writer::WriterMsg')
    chan = ('t', (arg('TX'), arg('RX')))
    calls = [(r'oneshot::channel$', pure(chan))]
    qd = []
    def fa(it, st, c):
        qd.append((c.short, pstr(it, st, c.args[0]))); st.setg('qd', st.g('qd', 0) + (1 if c.short == 'fetch_add' else -1)); return [(st, mk(('old',  )))]
    q2 = CQ(calls=calls + [(r'Atomic.*fetch_(add|sub)$', fa)], awaits=sent_hook(msgs))
    case(ctx, K, 'enqueue', ev, q2, st=gstart(), when='Ok', ghost=lambda s: s.g('w') != 'fail' and s.g('qd') == 1, ret=r'WalTicket#0\{submission_seq,RX,.*\}', msg='submission')
    case(ctx, K, 'enqueue-closed', ev, q2, st=gstart(), when='Err', ghost=lambda s: s.g('qd', 0) == 0, msg='submission to a stopped writer')
    ei = next(i for i, v in enumerate(ctx.F.adts[WM]['v']) if v['n'] == 'Enqueue')
    fs = [f[0] for f in ctx.F.adts[WM]['v'][ei]['f']]
    good = [v for p, v, s in msgs if v[0] == 'e' and v[2] == ei]
    ctx.ob(K, 'enqueue-message', good and all(path(v[3][fs.index('command')]) == 'command' and path(v[3][fs.index('ack_tx')]) == 'TX' for v in good), f'{[p for p, _, _ in msgs][:1]}', ctx.loc(ev))
    for m, var in (('rotate', 'Rotate'), ('snapshot', 'Snapshot')):
        f = ctx.fn(HD + m)
        msgs2 = []
        i2 = next(i for i, v in enumerate(ctx.F.adts[WM]['v']) if v['n'] == var)
        def rx(it, st, name, args, site, term): return None
        it, outs = ctx.run(f, CQ(calls=calls, awaits=sent_hook(msgs2)), st=gstart())
        ctx.ob(K, f'{m}:message', msgs2 and all(p == f'WriterMsg#{i2}{{TX}}' for p, _, _ in msgs2), f'{[p for p, _, _ in msgs2][:1]}', ctx.loc(f))
        r = results(it, outs)
        ctx.ob(K, f'{m}:closed', r.get('Ok') and not any(s.g('w') == 'fail' for s, _ in r['Ok']), 'a stopped writer is reported as success', ctx.loc(f))
        vs = sorted({p for s, v in r.get('Ok', []) for p in altpaths(it, s, v[0])})
        ctx.ob(K, f'{m}:reply', vs and all('RX' in p and '@Ok.0@Ok' in p for p in vs), f'answers {vs[:2]}', ctx.loc(f))
    d = ctx.fn('crate::wal::WalTicket::<E>::durable')
    it, outs = ctx.run(d, CQ(), st=gstart())
    r = results(it, outs)
    vs = sorted({p for s, v in r.get('Ok', []) for p in altpaths(it, s, v[0])})
    ctx.ob(K, 'durable', vs and all(re.search(r'receiver@Ok\.0@Ok', p) for p in vs), f'a ticket resolves to {vs[:2]}', ctx.loc(d))
    ctx.ob(K, 'durable-error', bool(r.get('Err')), 'a ticket never fails', ctx.loc(d))
    np = ctx.fn(HD + 'next_provisional_id')
    seen = []
    def fa2(it, st, c): seen.append((c.short, [pstr(it, st, a) for a in c.args])); return [(st, mk(('ticketno',)))]
    case(ctx, K, 'provisional-id', np, CQ(calls=[(r'Atomic.*::fetch_\w+$|Atomic.*::(load|store)$', fa2)]), ret=r'ticketno\(\)')
    ctx.ob(K, 'provisional-step', [s[0] for s in seen] == ['fetch_add'] and seen[0][1][1] == '1' and 'next_payload_seq' in seen[0][1][0], f'{seen}', ctx.loc(np))

@rule('W09', 'W01')
def handle_shutdown(ctx):
    """shutdown waits for the writer and reports its failure"""
    K = 'handle_shutdown'
    f = ctx.fn(HD + 'shutdown')
    def jn(it, st, name, args, site, term):
        st.setg('join', 1)
        s2, s3 = st.copy(), st.copy(); s2.setg('w', 'fail'); s3.setg('w', 'fail')
        return [(st, ok(ok(UNIT))), (s2, ok(err(mk(('we',))))), (s3, err(mk(('je',))))]
    q = CQ(vars=[(r'take_join|join', {'Some'})], calls=[(r'::take_join$', pure(some(arg('JH')))), (r'::close_channel$', lambda it, st, c: (st.setg('closed', 1), [(st, UNIT)])[1])], awaits=[(r'::join$', jn)])
    case(ctx, K, 'result', f, q, st=gstart(), when='Ok', ghost=lambda s: s.g('w') != 'fail' and s.g('join') == 1 and s.g('closed') == 1, msg='shutdown')
    case(ctx, K, 'failure', f, q, st=gstart(), when='Err', ghost=lambda s: s.g('w') == 'fail')

@rule('W06', 'W08', 'W07')
def segment_identity(ctx):
    """distinct segment numbers have distinct file identities, computed the same way everywhere"""
    K = 'segment_identity'
    f = ctx.fn('crate::wal::wal_segment_file_id')
    ns = sorted({0, 1, 2**64 - 1} | {2**k for k in range(64)} | {2**k - 1 for k in range(64)} | {2**64 - 2**k for k in range(1, 64)})
    seen = {}
    for n in ns:
        it, outs = ctx.run(f, CQ(exact=True), args=[('c', n)])
        v = path(it.deepval(outs[0].st, outs[0].v)) if len(outs) == 1 else None
        if v is None or not re.search(r'\d', v): raise Missing(f'the identity of segment {n} is not known: {v}')
        ctx.ob(K, f'injective:{n}', v not in seen, f'segments {seen.get(v)} and {n} share a file identity', ctx.loc(f))
        seen.setdefault(v, n)
