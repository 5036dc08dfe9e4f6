"""WAL writer task: acknowledgement vs. durability, sequence numbers, rotation, retention."""
import re
from core import *
from rules.inmem import struct

SLOW = ['writer::WriterContext::<E>::recompute_timer', 'WriterContext::<E>::update_queue_depth_metric', 'WriterContext::<E>::record_sync',
        'WriterContext::<E>::record_bytes_written', 'frame::FrameHeader::decode_from', 'frame::encode_command', 'wal::storage::decode_frame_bounds',
        'writer::self_initial_size', 'frame::Frame::into_bytes']
LOOP = 'crate::wal::writer::run_writer_loop'
WC = 'crate::wal::writer::WriterContext::<E>::'

def gstart(**kw):
    st = State()
    st.setg('w', 'none')
    for k, v in kw.items(): st.setg(k, v)
    return st


def failg(it, st, *a): st.setg('w', 'fail')


LOCAL = (r'(^|\.)fs_tag$', {'Local'})

@rule('W07', 'W02')
def writer_startup(ctx):
    """on start the writer continues after everything on disk and in the recorded state, and never re-opens below it"""
    K = 'writer_startup'
    nw = ctx.fn(WC + 'new')
    TM, SD, HS, WS, WG = (ctx.adt(x) for x in ('storage::TailMetadata', 'storage::SegmentDescriptor', 'state::WalStateHandle', 'state::WalState', 'storage::WalSegment'))
    opt = lambda x: NONE if x is None else some(('c', x))
    bounds = [('V', ('a', ())), NONE]
    log = lambda st, *e: st.setg('log', st.g('log', ()) + (e,))
    fut = lambda nm, *ks: lambda it, st, c: [(st, mk(('call', nm, tuple(it.deepval(st, it.rd(st, c.args[k])) for k in ks))))]
    tails = [None] + [(sq, by, ls) for sq, by in ((3, 10), (3, 0), (6, 10)) for ls in (None, 5, 9)]
    states = [None] + [(lf, ls) for lf in (None, 4, 5, 8, 12) for ls in (None, 2, 3, 8)]
    cases = [(t, s, 1, None, sz) for t in tails for s in states for sz in ((0, 7) if t is None else (0,))] + [((3, 10, 5), (8, 8), 1, f, 0) for f in ('state', 'tail', 'open', 'rehydrate', 'retain')] + [(None, None, 1, 'size', 0), ((3, 0, 5), None, 1, 'size', 0)]
    for tl, sh, init, fail, size in cases:
        e = lambda nm, v: err(arg('IOERR')) if fail == nm else ok(v)
        def state(it, st, n, a, site, t): return [(st, e('state', NONE if sh is None else some(struct(ctx, HS, state=struct(ctx, WS, last_frame_seq=opt(sh[0]), last_segment_seq=opt(sh[1]))))))]
        def tail(it, st, n, a, site, t):
            log(st, 'hint', path(a[0]))
            return [(st, e('tail', NONE if tl is None else some(struct(ctx, TM, active=struct(ctx, SD, seq=('c', tl[0]), bytes=('c', tl[1])), last_frame_seq=opt(tl[2])))))]
        def open_(it, st, n, a, site, t): log(st, 'open', path(a[0])); return [(st, e('open', struct(ctx, WG)))]
        def size_(it, st, n, a, site, t): log(st, 'size'); return [(st, e('size', ('c', size)))]
        def rehy(it, st, n, a, site, t): return [(st, e('rehydrate', ('t', (arg('COMPLETED'), NONE, FALSE))))]
        def retain(it, st, n, a, site, t): log(st, 'retain'); return [(st, e('retain', UNIT))]
        H = [(r'::load_state_handle$', fut('STATE')), (r'::tail_metadata_with_hint$', fut('TAIL', 1)), (r'::open_segment$', fut('OPEN', 1)), (r'::self_initial_size$', fut('SIZE')), (r'::rehydrate_segment_metadata$', fut('REHY')), (r'::enforce_retention_limit$', fut('RETAIN')),
             (r'::align_state_with_segments$', lambda it, st, c: [(st, mk(('aligned',)))])]
        A = [('^STATE$', state), ('^TAIL$', tail), ('^OPEN$', open_), ('^SIZE$', size_), ('^REHY$', rehy), ('^RETAIN$', retain)]
        it, outs = ctx.run(nw, CQ(exact=True, calls=H, awaits=A, vars=[LOCAL], opaque=SLOW, max_states=3000), args={'segment_seq': ('c', init), 'cfg': arg('CFG'), 'storage': arg('STORAGE')})
        tf = ((tl[2] or 0) if tl else 0, (sh[0] or 0) if sh else 0)
        seg = tl[0] if tl else init
        want = dict(next_frame_seq=max([x + 1 for x in tf if x] + [1]), segment_seq=seg, next_segment_seq=max([seg + 1] + ([sh[1] + 1] if sh and sh[1] is not None else [])), segment_bytes=(tl[1] if tl and tl[1] else size))
        name = f'tail={tl},state={sh}' + (f',fail={fail}' if fail else '') + (f',size={size}' if size else '')
        n, bad = 0, []
        for o in outs:
            for s, vi, w in it.split(o.st, it.rd(o.st, o.v), RESULT):
                l = s.g('log', ())
                if vi == 1:
                    if fail is None: bad.append('an error')
                    n += 1; continue
                n += 1
                if fail is not None: bad.append(f'success although {fail} failed'); continue
                v = it.rd(s, w[3][0])
                for x in alts(v):
                    for f, exp in want.items():
                        g = path(it.deepval(s, it.rd(s, it.get(x, ('f', ctx.fieldix(x[1], f), f)))))
                        if g != str(exp): bad.append(f'{f}={g} instead of {exp}')
                if [x[1] for x in l if x[0] == 'open'] != [str(seg)]: bad.append(f'opens segments {[x[1] for x in l if x[0] == "open"]} instead of {seg}')
                if sh and sh[1] is not None and [x[1] for x in l if x[0] == 'hint'] != [path(opt(sh[1]))]: bad.append(f'looks for the tail with hint {[x[1] for x in l if x[0] == "hint"]}')
                if not any(x[0] == 'retain' for x in l): bad.append('does not apply the retention limit')
        ctx.ob(K, name.replace(' ', ''), n and not bad, f'starting with {name} gives {bad[:2]}', ctx.loc(nw))

@rule('W02')
def loop_start_seq(ctx):
    """the writer loop starts at the larger of the discovered and the requested sequence number"""
    K = 'loop_start_seq'
    fn = ctx.fn(LOOP)
    new = ctx.fn(WC + 'new')['key']
    for a, b, want in ((5, 3, 5), (3, 7, 7), (4, 4, 4), (1, 0, 1), (9, 1, 9), (1, 2, 2)):
        seen = set()
        cx = struct(ctx, ctx.adt('writer::WriterContext'), next_frame_seq=('c', a))
        def rec(it, st, c):
            seen.add(path(it.deepval(st, post(it, st, c.args[0], 'next_frame_seq')))); return []
        H = [(r'::recompute_timer$', rec), ('^' + re.escape(new) + '$', lambda it, st, c: [(st, mk(('call', 'NEW', ())))])]
        it, outs = ctx.run(fn, CQ(exact=True, calls=H, awaits=[(r'^NEW$', lambda it, st, *x: [(st, ok(cx))])], opaque=SLOW), args={'init': struct(ctx, ctx.adt('writer::WriterLoopInit'), initial_frame_seq=('c', b)), 'receiver': arg('RECEIVER')})
        ctx.ob(K, f'{a}:{b}', seen == {str(want)}, f'discovered {a}, requested {b}: the loop starts at {sorted(seen)}, expected {want}', ctx.loc(fn))

# ------------------------------------------------------------------ the writer loop on concrete message sequences
def MSG(ctx, k, i):
    A = ctx.adt('writer::WriterMsg')
    tx = arg(f'TX{i}')
    ads = {v['n']: j for j, v in enumerate(ctx.F.adts[A]['v'])}
    if k == 'E': return ('e', A, ads['Enqueue'], (('c', i), arg(f'CMD{i}'), arg(f'AT{i}'), tx))
    return ('e', A, ads['Rotate' if k == 'R' else 'Snapshot'], (tx,))

@rule('W01', 'W09', 'W02')
def loop_scripts(ctx):
    """the writer loop run on every short message sequence: each message is taken once, in order, handled once, answered with its own result; after a failure nothing more is acknowledged"""
    K = 'loop_scripts'
    fn = ctx.fn(LOOP)
    CX = ctx.adt('writer::WriterContext')
    HB, RO, TT = (ctx.adt('writer::' + n) for n in ('HandleBatchOutcome', 'RotationOutcome', 'TimerTickOutcome'))
    cx = struct(ctx, CX, next_frame_seq=arg('FS'), queue_depth=arg('DEPTH'), cfg=arg('CFG'), segment_seq=arg('SS'), segment_bytes=arg('SB'))
    P_ = lambda it, st, v: path(it.deepval(st, v))
    def go(script, fail, timer, pol_perf):
        # script: list of ('E'|'R'|'S', ready) ; ready: available without waiting after the previous message
        log = lambda st, *e: st.setg('log', st.g('log', ()) + (e,))
        def take(it, st):
            i = st.g('i', 0)
            if i >= len(script): return None
            st.setg('i', i + 1)
            return MSG(ctx, script[i][0], i)
        def nxt(it, st, c): return [(st, mk(('call', 'RX', ())))]
        def rx(it, st, n, a, site, t):
            m = take(it, st)
            if m is None: log(st, 'end'); return [(st, NONE)]
            log(st, 'wait', st.g('i') - 1)
            return [(st, some(m))]
        def non(it, st, c):
            i = st.g('i', 0)
            if i < len(script) and script[i][1]:
                m = take(it, st); log(st, 'take', i)
                return [(st, some(some(m)))]
            if i >= len(script): return [(st, some(NONE)), (st.copy(), NONE)]
            return [(st, NONE)]
        def fut(nm, k=1): return lambda it, st, c: [(st, mk(('call', nm, tuple(it.deepval(st, a) for a in c.args[k:]))))]
        def batch(it, st, n, a, site, t):
            ids = re.findall(r'CMD(\d+)', path(a[0]))
            log(st, 'batch', tuple(ids))
            if fail == 'batch': return [(st, err(arg('BERR')))]
            return [(st, ok(struct(ctx, HB, acks=('a', tuple(arg('ACK' + i) for i in ids)), sync_performed=TRUE if pol_perf else FALSE, timer_directive=arg('TD'))))]
        def rot(it, st, n, a, site, t):
            log(st, 'rotate')
            if fail == 'rotate': return [(st, err(arg('RERR')))]
            return [(st, ok(struct(ctx, RO, performed=TRUE if pol_perf else FALSE, sync_performed=FALSE)))]
        def tick(it, st, n, a, site, t):
            log(st, 'tick')
            if fail == 'tick': return [(st, err(arg('TERR')))]
            return [(st, ok(struct(ctx, TT, sync_performed=FALSE)))]
        def shut(it, st, n, a, site, t):
            log(st, 'shutdown')
            if fail == 'shutdown': return [(st, err(arg('SERR')))]
            return [(st, ok(FALSE))]
        def send(it, st, c):
            log(st, 'send', P_(it, st, c.args[0]), P_(it, st, c.args[1])); return [(st, ok(UNIT))]
        def dep(it, st, c):
            if 'DEPTH' not in P_(it, st, c.args[0]): return None
            log(st, 'depth', c.short + P_(it, st, c.args[1])); return [(st, arg('OLD'))]
        def retime(it, st, c):
            for r in alts(c.args[-1]): it.store(st, r[1], r[2], some(mk(('call', 'SLEEPER', ()))) if timer is not None else NONE)
            return [(st, UNIT)]
        def slp(it, st, *x):
            return [(st, UNIT)]
        PO = 'core::task::poll::Poll'
        def pfn(it, st, c):
            out = []
            for s, r in it.call_value(st, c.args[0], [mk(('cx',))], c.frame, c.bb):
                for s2, vi, w in it.split(s, it.rd(s, r), PO):
                    if vi == 0: out.append((s2, mk(('call', 'PFN', (it.deepval(s2, w[3][0]),)))))
            return out
        def pollf(it, st, c):
            v = P_(it, st, c.args[0])
            if 'RX' in v: return [(s, ('e', PO, 0, (x,))) for s, x in rx(it, st, None, None, None, None)]
            if 'SLEEPER' in v:
                if st.g('i', 0) == timer and not st.g('fired'):
                    st.setg('fired', 1); return [(st, ('e', 'core::task::poll::Poll', 0, (UNIT,)))]
                return [(st, ('e', 'core::task::poll::Poll', 1, ()))]
            return None
        H = [(r'WriterContext::<E>::new$', fut('NEW', 0)), (r'StreamExt::next$', nxt), (r'now_or_never$', non), (r'::handle_enqueue_batch$', fut('BATCH')), (r'::handle_rotation_request$', fut('ROTATE')), (r'::handle_timer_elapsed$', fut('TICK')),
             (r'::flush_and_sync_for_shutdown$', fut('SHUT')), (r'::(record_sync|update_queue_depth_metric)$', fut('NOP')), (r'::snapshot$', lambda it, st, c: (log(st, 'snapshot'), [(st, arg('SNAP'))])[1]),
             (r'oneshot::Sender::<T>::send$', send), (r'Atomic(Usize|::<usize>)::(fetch_sub|fetch_add|store)$', dep), (r'::(apply_timer_directive|recompute_timer)$', retime), (r'poll_fn$', pfn), (r'poll_unpin$|Future::poll$', pollf), (r'FusedFuture::is_terminated$', lambda it, st, c: [(st, FALSE)])]
        A = [(r'^PFN$', lambda it, st, n, a, site, t: [(st, a[0])]), (r'^NEW$', lambda it, st, *x: [(st, ok(cx))]), (r'^RX$', rx), (r'^BATCH$', batch), (r'^ROTATE$', rot), (r'^TICK$', tick), (r'^SHUT$', shut), (r'^NOP$', lambda it, st, *x: [(st, UNIT)]), (r'^SLEEPER$', slp)]
        it, outs = ctx.run(fn, CQ(exact=True, calls=H, awaits=A, max_steps=400000), args={'init': struct(ctx, ctx.adt('writer::WriterLoopInit'), initial_frame_seq=('c', 1), queue_depth=arg('DEPTH')), 'receiver': arg('RECEIVER')})
        res = []
        for o in outs:
            for s, vi, w in it.split(o.st, it.rd(o.st, o.v), RESULT):
                res.append((vi, s.g('log', ())))
        return res
    OK, ER = r'Result#0\{(.*)\}', r'Result#1\{(.*)\}'
    def judge(script, fail, timer, vi, log):
        ops, want_msgs, depth, sent, failed = [], 0, 0, {}, None
        for e in log:
            if e[0] in ('wait', 'take'):
                if failed: return f'message {e[1]} is taken after a failure'
                if e[1] != want_msgs: return f'message {e[1]} taken out of order'
                want_msgs += 1
            elif e[0] == 'depth':
                if e[1] == 'fetch_sub1': depth += 1
                elif e[1] != 'store0': return f'queue depth {e[1]}'
            elif e[0] == 'send':
                i = int(re.fullmatch(r'TX(\d+)', e[1]).group(1))
                if i in sent: return f'message {i} is answered twice'
                sent[i] = (e[2], len(ops))
            elif e[0] in ('batch', 'rotate', 'snapshot', 'tick', 'shutdown'):
                if failed: return f'{e[0]} after a failure'
                ops.append(e)
                if fail == e[0]: failed = len(ops)
        seq = [x for e in ops for x in ([('E', int(i)) for i in e[1]] if e[0] == 'batch' else [('R', None)] if e[0] == 'rotate' else [('S', None)] if e[0] == 'snapshot' else [])]
        kinds = [(k, i if k == 'E' else None) for i, (k, r) in enumerate(script)]
        if seq != kinds[:len(seq)] or (not failed and len(seq) != len(kinds)): return f'operations run: {seq}'
        if not failed and want_msgs != len(script): return f'{want_msgs} messages taken'
        if depth != sum(script[i][0] == 'E' for i in range(want_msgs)): return f'queue depth lowered {depth} times'
        n = 0
        for k, e in enumerate(ops):
            ids = [int(i) for i in e[1]] if e[0] == 'batch' else [n] if e[0] in ('rotate', 'snapshot') else []
            n += len(ids)
            for i in ids:
                if i not in sent: return f'message {i} is not answered'
                v, at = sent[i]
                if at < k + 1: return f'message {i} is answered before it is handled'
                if failed == k + 1:
                    if not re.fullmatch(ER, v): return f'failed message {i} is answered {v}'
                elif v != 'Result#0{%s}' % {'batch': f'ACK{i}', 'rotate': '()', 'snapshot': 'SNAP'}[e[0]]: return f'message {i} is answered {v}'
        late = [i for i in sent if i >= n]
        if late and any(not re.fullmatch(ER, sent[i][0]) for i in late): return f'unhandled message {late} is answered Ok'
        if vi == 0 and failed: return 'the writer carries on after a failure'
        if vi == 1 and not failed: return 'the writer fails although nothing failed'
        if vi == 0 and (not ops or ops[-1][0] != 'shutdown' or ('end',) not in log): return 'the writer ends without its final flush and sync'
        if timer is not None and (timer < len(script) and not failed and ('tick',) not in ops) and all(r == 0 for k, r in script): return 'the armed timer is not served'
        return None
    runs = [((a,), f, t, p) for a in 'ERS' for f in (None, 'batch', 'rotate', 'tick', 'shutdown') for t in (None, 0) for p in (False,)]
    runs += [((a, b), f, t, p) for a in 'ERS' for b in 'ERS' for f, t, p in ((None, None, True), (None, 1, False), ('batch', None, False), ('rotate', 0, False))]
    runs += [(x, f, t, False) for x in ('EEE', 'EER', 'ESE', 'ERE', 'REE') for f, t in ((None, None), (None, 0), ('batch', None), ('rotate', 0), ('tick', 2))]
    nr = 0
    for kinds, fail, timer, perf in runs:
        for ready in ((0, 1) if len(kinds) > 1 else (0,)):
            script = [(k, ready if i else 0) for i, k in enumerate(kinds)]
            res = go(script, fail, timer, perf); nr += len(res)
            bad = [(judge(script, fail, timer, vi, log), log) for vi, log in res]
            bad = [b for b in bad if b[0]]
            ctx.ob(K, f'{"".join(kinds)}:{"burst" if ready else "single"}:{fail}:{timer}:{perf}', res and not bad, f'messages {"".join(kinds)} ({"queued together" if ready else "one by one"}, failing: {fail}, timer before message {timer}): {bad[0][0] if bad else "no result"}', ctx.loc(fn))

@rule('W01', 'W09', 'W02')
def batch_scripts(ctx):
    """a batch appends every command once, in order, collects each one's own acknowledgement and stops at the first failure"""
    K = 'batch_scripts'
    TD = ctx.adt('writer::TimerDirective')
    td = ('e', TD, [x['n'] for x in ctx.F.adts[TD]['v']].index('Schedule'), (arg('INTERVAL'),))
    fn = ctx.fn(WC + 'handle_enqueue_batch')
    HO = ctx.adt('writer::HandleOutcome')
    CX = ctx.adt('writer::WriterContext')
    for n in range(4):
        for fail in [None] + list(range(n)):
            for syncs in ((0,) * n, (1,) + (0,) * (n - 1), (0,) * (n - 1) + (1,)) if n else ((),):
                def he(it, st, nm, a, site, t):
                    i = st.g('i', 0); st.setg('i', i + 1)
                    m = tuple(re.findall(r'CMD(\d+)', path(a[-2]))), tuple(re.findall(r'AT(\d+)', path(a[-1])))
                    st.setg('log', st.g('log', ()) + ((m[0], m[1], i),))
                    if i == fail: return [(st, err(arg(f'ERR{i}')))]
                    return [(st, ok(struct(ctx, HO, ack=arg(f'ACK{i}'), sync_performed=TRUE if syncs[i] else FALSE, timer_directive=td)))]
                H = [(r'WriterContext::<E>::handle_enqueue$', lambda it, st, c: [(st, mk(('call', 'HE', tuple(it.deepval(st, a) for a in c.args))))])]
                b = ('a', tuple(('t', (arg(f'CMD{i}'), arg(f'AT{i}'), arg(f'TX{i}'))) for i in range(n)))
                it, outs = ctx.run(fn, CQ(exact=True, calls=H, awaits=[(r'^HE$', he)]), args={'self': struct(ctx, CX), 'batch': b})
                bad = []
                for o in outs:
                    for s, vi, w in it.split(o.st, it.rd(o.st, o.v), RESULT):
                        log = [(x[0], x[1]) for x in s.g('log', ())]
                        want = [((str(i),), (str(i),)) for i in range(n if fail is None else fail + 1)]
                        v = path(it.deepval(s, w[3][0]))
                        if log != want: bad.append(f'appends {log}')
                        elif fail is not None:
                            if vi != 1 or f'ERR{fail}' not in v: bad.append(f'outcome {v}')
                        else:
                            acks = re.findall(r'ACK(\d+)', v)
                            if vi != 0 or acks != [str(i) for i in range(n)]: bad.append(f'acknowledgements {acks}')
                            elif (',1,' in v) != any(syncs): bad.append(f'sync reported as {v}')
                            elif n and path(td) not in v: bad.append(f'the pending sync deadline of its last command is lost: {v}')
                ctx.ob(K, f'{n}:{fail}:{"".join(map(str, syncs))}', outs and not bad, f'batch of {n}, failing at {fail}: {bad[:1]}', ctx.loc(fn))

# ------------------------------------------------------------------ segment bookkeeping on concrete segment lists
from rules.inmem import enum
def dvp(it, st, v): return path(it.deepval(st, v))

class Seg:
    def __init__(s, ctx):
        s.ctx = ctx
        s.SD, s.SM, s.SB, s.ST, s.SH, s.TM, s.CX, s.WCFG = (ctx.adt(n) for n in ('storage::SegmentDescriptor', 'writer::SegmentMeta', 'wal::state::WalSegmentBounds', 'wal::state::WalState', 'wal::state::WalStateHandle', 'storage::TailMetadata', 'writer::WriterContext', 'wal::WalConfig'))
    def desc(s, i, n): return struct(s.ctx, s.SD, seq=('c', i), path=arg(f'PATH{i}'), bytes=('c', n))
    def bnd(s, i, a=None, b=None, tag='B'): return struct(s.ctx, s.SB, seq=('c', i), file_id=arg(f'{tag}FID{i}'), first_frame=('c', 10 * i if a is None else a), last_frame=('c', 10 * i + 5 if b is None else b))
    def meta(s, i, n): return struct(s.ctx, s.SM, descriptor=s.desc(i, n), bounds=s.bnd(i))
    def state(s, sealed, active=NONE, seq=NONE): return struct(s.ctx, s.ST, sealed_segments=('a', tuple(sealed)), active_segment=active, last_segment_seq=seq, last_frame_seq=NONE, last_commit_ts=NONE)
    def handle(s, state): return struct(s.ctx, s.SH, state=state, store=arg('STORE'), path=arg('SPATH'), tag=arg('TAG'))
    def f(s, adt, v, n): return v[3][s.ctx.fieldix(adt, n)]
    def seqs(s, coll): return [s.f(s.SB, x, 'seq')[1] for x in coll[1]] if coll[0] == 'a' else None

def subsets(xs):
    import itertools
    return [c for k in range(len(xs) + 1) for c in itertools.combinations(xs, k)]

@rule('W07', 'W06', 'W08', 'W02')
def segment_books(ctx):
    """the writer's list of sealed segments, the active one and the durable state agree with each other and with the files: on start, on sealing, on retention"""
    K = 'segment_books'
    S = Seg(ctx)
    # start: what is on disk is listed, in order
    fn = ctx.fn(WC + 'rehydrate_segment_metadata')
    def load(it, st, nm, a, site, t):
        d = a[-1]
        m = re.search(r'SegmentDescriptor#0\{(\d+),', path(d))
        st.setg('loads', st.g('loads', ()) + (int(m.group(1)),))
        if st.g('failat') == int(m.group(1)): return [(st, err(arg('LOADERR')))]
        return [(st, ok(S.bnd(int(m.group(1)), tag='L')))]
    H = [(r'::load_bounds_from_storage$', lambda it, st, c: [(st, mk(('call', 'LOAD', tuple(it.deepval(st, a) for a in c.args))))])]
    for n in range(4):
        for empty in subsets(range(n)) if n < 3 else [(), (1,)]:
            for known in ([None] + subsets(range(n)) if n < 3 else [None, (), (0,), (1,), (2,), (0, 1, 2)]):
                for act in (0, 7):
                    for fail in (None, 9):
                        if fail and (n != 1 or not act): continue
                        tail = struct(ctx, S.TM, active=S.desc(9, act), completed=('a', tuple(S.desc(i, 0 if i in empty else 100 + i) for i in range(n))), last_frame_seq=NONE, last_provisional_id=NONE)
                        st = State()
                        if fail is not None: st.setg('failat', fail)
                        it = Interp(ctx.F, CQ())
                        sr = NONE if known is None else some(it.tmp(st, 0, 'hd', S.handle(S.state([S.bnd(i) for i in known]))))
                        it, outs = ctx.run(fn, CQ(exact=True, calls=H, awaits=[(r'^LOAD$', load)]), args={'storage': arg('STORAGE'), 'tail': some(tail), 'state': sr}, st=st)
                        live = [i for i in range(n) if i not in empty]
                        want = [(i, f'LFID{i}' if known is None or i not in known else f'BFID{i}') for i in live]
                        bad = []
                        for o in outs:
                            for s, vi, w in it.split(o.st, it.rd(o.st, o.v), RESULT):
                                v = it.deepval(s, w[3][0])
                                if fail is not None:
                                    if vi != 1: bad.append('a failed read of the segment is ignored')
                                    continue
                                if vi != 0 or v[0] != 't': bad.append(path(v)[:100]); continue
                                c, a, d = v[1]
                                got = [(x[3][0][3][ctx.fieldix(S.SD, 'seq')][1], re.search(r'[LB]FID\d', path(S.f(S.SM, x, 'bounds'))).group(0)) for x in c[1]] if c[0] == 'a' else path(c)
                                if got != want: bad.append(f'sealed segments {got}, expected {want}')
                                if (re.search(r'[LB]FID\d', path(a)) or [None])[0] != ('LFID9' if act else None): bad.append(f'active segment {path(a)}')
                                dirty = bool(act) or any(t.startswith('L') for _, t in want)
                                if dirty and path(d) != '1': bad.append(f'the state needs no update ({path(d)})')
                        ctx.ob(K, f'start:{n}:{empty}:{known}:{act}:{fail}', outs and not bad, f'{n} sealed segments on disk (empty: {empty}), recorded: {known}, {act} bytes in the active one: {bad[:1]}', ctx.loc(fn))
    # state brought in line with the files
    fn = ctx.fn(WC + 'align_state_with_segments')
    for have in ((), (0,), (1,), (0, 1)):
        for files in ((), (0,), (1,), (0, 1)):
            for ha, fa in ((None, None), (None, 5), (5, None), (5, 5), (5, 6), (4, 5)):
                hd = S.handle(S.state([S.bnd(i) for i in have], NONE if ha is None else some(S.bnd(3, 30, 30 + ha))))
                st = State(); it = Interp(ctx.F, CQ())
                r = it.tmp(st, 0, 'hd', hd)
                act = NONE if fa is None else some(it.tmp(st, 0, 'act', S.bnd(3, 30, 30 + fa)))
                it, outs = ctx.run(fn, CQ(exact=True), args={'state': r, 'completed': ('a', tuple(S.meta(i, 50) for i in files)), 'active': act}, st=st)
                bad = []
                for o in outs:
                    s = S.f(S.SH, it.deepval(o.st, it.rd(o.st, r)), 'state')
                    g = S.seqs(S.f(S.ST, s, 'sealed_segments'))
                    a = path(S.f(S.ST, s, 'active_segment'))
                    wa = path(NONE if fa is None else some(S.bnd(3, 30, 30 + fa)))
                    if g != list(files): bad.append(f'sealed segments recorded: {g}')
                    if a != wa: bad.append(f'active segment recorded: {a}')
                    if (have != files or ha != fa) and path(it.rd(o.st, o.v)) != '1': bad.append('the change is not marked for persisting')
                ctx.ob(K, f'align:{have}:{files}:{ha}:{fa}', outs and not bad, f'state {have}/{ha} against files {files}/{fa}: {bad[:1]}', ctx.loc(fn))
    # sealing
    fn = ctx.fn(WC + 'record_sealed_segment')
    def cx(**kw):
        return struct(ctx, S.CX, **kw)
    def after(it, o, r, name): return it.deepval(o.st, it.rd(o.st, S.f(S.CX, it.deepval(o.st, it.rd(o.st, r)), name)))
    def go(fn, c, q, **args):
        st = State(); it = Interp(ctx.F, CQ())
        r = it.tmp(st, 0, 'cx', c)
        it, outs = ctx.run(fn, q, args={'self': r, **args}, st=st)
        return it, outs, r
    def hstate(it, o, r):
        h = after(it, o, r, 'state')
        return S.f(S.SH, h[3][0], 'state')
    for have in ((), (1,), (2,), (1, 2), (1, 2, 3)):
        it, outs, r = go(fn, cx(state=some(S.handle(S.state([S.bnd(i, 0, 0) for i in have], some(S.bnd(2))))), state_dirty=FALSE), CQ(exact=True), bounds=S.bnd(2))
        bad = []
        for o in outs:
            s = hstate(it, o, r)
            b = S.f(S.ST, s, 'sealed_segments')
            if sorted(S.seqs(b)) != sorted(set(have) | {2}): bad.append(f'sealed {S.seqs(b)}')
            if path(S.bnd(2)) not in [path(x) for x in b[1]]: bad.append('the sealed range is not recorded')
            if S.f(S.ST, s, 'active_segment') != NONE: bad.append('the sealed segment is still recorded as active')
            if path(S.f(S.ST, s, 'last_segment_seq')) != path(some(('c', 2))): bad.append(f'last segment {path(S.f(S.ST, s, "last_segment_seq"))}')
            if path(after(it, o, r, 'state_dirty')) != '1': bad.append('not marked for persisting')
        ctx.ob(K, f'seal:{have}', outs and not bad, f'sealing segment 2 with {have} recorded: {bad[:1]}', ctx.loc(fn))
    # growing the active range
    fn = ctx.fn(WC + 'touch_active_segment')
    for prev in (None, (30, 30), (30, 34)):
        for hs in (True, False):
            it, outs, r = go(fn, cx(segment_seq=('c', 3), active_segment=NONE if prev is None else some(S.bnd(3, *prev)), state=some(S.handle(S.state([], NONE))) if hs else NONE, state_dirty=FALSE), CQ(exact=True, calls=[(r'wal_segment_file_id$', lambda it, st, c: [(st, arg('BFID' + path(it.rd(st, c.args[0]))))])]), seq=('c', 35))
            want = path(some(S.bnd(3, prev[0] if prev else 35, 35)))
            bad = []
            for o in outs:
                if path(after(it, o, r, 'active_segment')) != want: bad.append(path(after(it, o, r, 'active_segment')))
                if hs and path(S.f(S.ST, hstate(it, o, r), 'active_segment')) != want: bad.append('recorded ' + path(S.f(S.ST, hstate(it, o, r), 'active_segment')))
                if hs and path(after(it, o, r, 'state_dirty')) != '1': bad.append('not marked for persisting')
            ctx.ob(K, f'grow:{prev}:{hs}', outs and not bad, f'frame 35 after {prev}: the active range is {bad[:1]}, expected {want}', ctx.loc(fn))
    # progress
    fn = ctx.fn(WC + 'record_frame_progress')
    TSA = ctx.adt('mvcc::Timestamp')
    for old, ts in ((None, None), (None, 8), (7, None), (7, 9)):
        s0 = struct(ctx, S.ST, sealed_segments=('a', ()), active_segment=NONE, last_segment_seq=some(('c', 4)), last_frame_seq=some(('c', 11)), last_commit_ts=NONE if old is None else some(('c', old)))
        it, outs, r = go(fn, cx(state=some(S.handle(s0)), state_dirty=FALSE), CQ(exact=True), seq=('c', 12), commit_ts=NONE if ts is None else some(('e', TSA, 0, (('c', ts),))))
        bad = []
        for o in outs:
            s = hstate(it, o, r)
            g = tuple(path(S.f(S.ST, s, n)) for n in ('last_frame_seq', 'last_commit_ts', 'last_segment_seq')) + (path(after(it, o, r, 'state_dirty')),)
            x = ts if ts is not None else old
            w = (path(some(('c', 12))), path(NONE if x is None else some(('c', x))), path(some(('c', 4))), '1')
            if g != w: bad.append((g, w))
        ctx.ob(K, f'progress:{old}:{ts}', outs and not bad, f'frame 12 with commit timestamp {ts}: (frame, commit, segment, dirty), expected {bad[:1]}', ctx.loc(fn))
    # retention
    fn = ctx.fn(WC + 'enforce_retention_limit')
    def rm(it, st, nm, a, site, t):
        p = re.search(r'PATH\d+', ' '.join(path(x) for x in a)).group(0)
        st.setg('rm', st.g('rm', ()) + (p,))
        return [(st, err(arg('RMERR')) if st.g('rmfail') == p else ok(UNIT))]
    H = [(r'DynFs.*::remove$', lambda it, st, c: [(st, mk(('call', 'RM', tuple(it.deepval(st, a) for a in c.args))))])]
    import itertools
    for sizes in [()] + list(itertools.product((10, 30), repeat=1)) + list(itertools.product((10, 30), repeat=2)) + [(10, 10, 10), (30, 10, 20)]:
        for active in (0, 15):
            total = sum(sizes) + active
            for limit in sorted({None, 0, 9, 14, 15, 20, 25, total - 1, total, total + 1}, key=lambda x: -1 if x is None else x):
                if limit is not None and limit < 0: continue
                for fail in ((False, True) if len(sizes) == 2 else (False,)):
                    st = State(); it = Interp(ctx.F, CQ())
                    if fail: st.setg('rmfail', 'PATH1')
                    r = it.tmp(st, 0, 'cx', cx(completed_segments=('a', tuple(S.meta(i + 1, b) for i, b in enumerate(sizes))), segment_bytes=('c', active), cfg=struct(ctx, S.WCFG, retention_bytes=NONE if limit is None else some(('c', limit))), storage=struct(ctx, ctx.adt('storage::WalStorage'), fs=arg('FS'), root=arg('ROOT')),
                            state=some(S.handle(S.state([S.bnd(i + 1) for i in range(len(sizes))]))), state_dirty=FALSE))
                    it, outs = ctx.run(fn, CQ(exact=True, calls=H, awaits=[(r'^RM$', rm)]), args={'self': r}, st=st)
                    gone, left = [], total
                    for i, b in enumerate(sizes):
                        if limit is not None and left > limit: gone.append(i + 1); left -= b
                    bad = []
                    for o in outs:
                        for s, vi, w in it.split(o.st, it.rd(o.st, o.v), RESULT):
                            o2 = Outcome(s, o.v)
                            g = s.g('rm', ())
                            if fail and gone:
                                if vi != 1 or g != ('PATH1',): bad.append(f'a failed removal is ignored ({g})')
                                continue
                            kept = [x[3][0][3][ctx.fieldix(S.SD, 'seq')][1] for x in after(it, o2, r, 'completed_segments')[1]]
                            ss = S.seqs(S.f(S.ST, hstate(it, o2, r), 'sealed_segments'))
                            rest = [i + 1 for i in range(len(sizes)) if i + 1 not in gone]
                            if g != tuple(f'PATH{i}' for i in gone) or kept != rest or ss != rest or vi != 0: bad.append(f'removed {g}, kept {kept}, recorded {ss}, expected to remove {gone}')
                            if gone and path(after(it, o2, r, 'state_dirty')) != '1': bad.append('not marked for persisting')
                    ctx.ob(K, f'retain:{sizes}:{active}:{limit}:{fail}', outs and not bad, f'sealed sizes {sizes}, {active} active bytes, limit {limit}: {bad[:1]}', ctx.loc(fn))

@rule('W07', 'W02', 'W06', 'W01', 'W04', 'W08')
def rotation_exact(ctx):
    """rotation and shutdown step by step: the segment being replaced is flushed, fsynced and closed (never its successor), the new one is opened under the next number, the sealed one joins the end of the list, and every failing step is reported"""
    K = 'rotation_exact'
    S = Seg(ctx)
    SEG, SP, RO, TSA = (ctx.adt(n) for n in ('storage::WalSegment', 'wal::WalSyncPolicy', 'writer::RotationOutcome', 'mvcc::Timestamp'))
    SV = ctx.adt('writer::SyncVariant')
    def which(it, st, a):
        for x in a:
            m = re.search(r'\b(OLD|NEW|THIRD)(FILE|PATH)\b', path(it.deepval(st, x)))
            if m: return m.group(1)
        return '?'
    def ev(kind, okv):
        def h(it, st, nm, a, site, t):
            e = (kind, a[0][1] if a and a[0][0] == 's' else '')
            st.setg('ev', st.g('ev', ()) + (e,))
            return [(st, err(arg('FAIL')))] if st.g('failat') == len(st.g('ev')) - 1 else [(st, ok(okv(e) if callable(okv) else okv))]
        return h
    def calls():
        f = lambda nm, w=True: lambda it, st, c: [(st, mk(('call', nm, ((('s', which(it, st, c.args)) if w else ('s', path(it.deepval(st, c.args[-1])))),))))]
        return [(r'Dyn(Write|Read|File)?.*::flush$|::Write::flush$|^<.*>::flush$', f('FLUSH')), (r'::close$', f('CLOSE')), (r'Dyn\w+::size$|Read::size$', f('SIZE')),
                (r'::perform_sync$', f('SYNC')), (r'::open_segment$', f('OPENSEG', False)), (r'::load_bounds_from_storage$', f('LOADB')), (r'WalStateHandle::persist$', lambda it, st, c: [(st, mk(('call', 'PERSIST', ())))])]
    def aws(size):
        return [(r'^FLUSH$', ev('flush', UNIT)), (r'^CLOSE$', ev('close', UNIT)), (r'^SIZE$', ev('size', ('c', size))), (r'^SYNC$', ev('sync', UNIT)),
                (r'^OPENSEG$', ev('open', struct(ctx, SEG, path=arg('NEWPATH'), file=arg('NEWFILE')))), (r'^LOADB$', ev('load', S.bnd(7, tag='L'))), (r'^PERSIST$', ev('persist', UNIT))]
    pol = {v: enum(ctx, SP, v, *x) for v, x in (('Always', ()), ('IntervalBytes', (('c', 100),)), ('IntervalTime', (arg('DUR'),)), ('Disabled', ()))}
    def cx(policy, known, size, dirty=FALSE, hs=True):
        return struct(ctx, S.CX, segment=struct(ctx, SEG, path=arg('OLDPATH'), file=arg('OLDFILE')), segment_seq=('c', 7), segment_bytes=('c', 40), next_segment_seq=('c', 8),
                      completed_segments=('a', (S.meta(1, 10), S.meta(2, 10))), active_segment=some(S.bnd(7)) if known else NONE, state=some(S.handle(S.state([S.bnd(1), S.bnd(2)], some(S.bnd(7)) if known else NONE))) if hs else NONE, state_dirty=dirty,
                      cfg=struct(ctx, S.WCFG, retention_bytes=NONE, segment_max_age=NONE, sync=pol[policy]))
    def go(name, policy, known, size, failat, dirty=FALSE, hs=True):
        fn = ctx.fn(WC + name)
        st = State(); it = Interp(ctx.F, CQ())
        if failat is not None: st.setg('failat', failat)
        r = it.tmp(st, 0, 'cx', cx(policy, known, size, dirty, hs))
        it, outs = ctx.run(fn, CQ(exact=True, calls=calls(), awaits=aws(size)), args={'self': r}, st=st)
        out = []
        for o in outs:
            for s, vi, w in it.split(o.st, it.rd(o.st, o.v), RESULT):
                c = it.deepval(s, it.rd(s, r))
                g = lambda n, c=c: it.deepval(s, it.rd(s, S.f(S.CX, c, n)))
                out.append((s.g('ev', ()), vi, it.deepval(s, w[3][0]) if w[3] else None, g))
        return fn, out
    def durable(evs, policy):
        """the old segment's bytes reach the disk before it is closed"""
        bad = []
        ix = lambda e: evs.index(e) if e in evs else None
        f, s_, c = ix(('flush', 'OLD')), ix(('sync', 'OLD')), ix(('close', 'OLD'))
        if f is None: bad.append('the old segment is not flushed')
        if policy != 'Disabled' and (s_ is None or f is None or s_ < f): bad.append('the old segment is not fsynced after the flush')
        if evs.count(('close', 'OLD')) != 1: bad.append(f'the old segment is closed {evs.count(("close", "OLD"))} times')
        if c is not None and any(x is not None and x > c for x in (f, s_ if policy != 'Disabled' else None)): bad.append('closed before it was flushed and synced')
        if ('close', 'NEW') in evs: bad.append('the new segment is closed')
        return bad
    for policy in pol:
        for known in (True, False):
            for size in (0, 12):
                fn, base = go('rotate_active_segment', policy, known, size, None)
                bad = []
                n = 0
                for evs, vi, w, g in base:
                    n = max(n, len(evs))
                    if vi != 0: bad.append('a rotation without failures fails'); continue
                    bad += durable(evs, policy)
                    if [e[1] for e in evs if e[0] == 'open'] != ['8']: bad.append(f'opened segments {[e[1] for e in evs if e[0] == "open"]}, expected 8')
                    seg = g('segment')
                    if path(S.f(SEG, seg, 'path')) != 'NEWPATH' or path(S.f(SEG, seg, 'file')) != 'NEWFILE': bad.append(f'the active segment is {path(seg)[:80]}')
                    got = tuple(path(g(x)) for x in ('segment_seq', 'segment_bytes', 'next_segment_seq', 'active_segment', 'state_dirty'))
                    if got != ('8', str(size), '9', path(NONE), '1'): bad.append(f'(number, bytes, next number, active range, dirty) = {got}')
                    comp = [(x[3][0][3][ctx.fieldix(S.SD, 'seq')][1], path(S.f(S.SD, x[3][0], 'path')), path(S.f(S.SD, x[3][0], 'bytes')), re.search(r'[LB]FID\d', path(S.f(S.SM, x, 'bounds'))).group(0)) for x in g('completed_segments')[1]]
                    want = [(1, 'PATH1', '10', 'BFID1'), (2, 'PATH2', '10', 'BFID2'), (7, 'OLDPATH', '40', 'BFID7' if known else 'LFID7')]
                    if comp != want: bad.append(f'sealed segments {comp}')
                    h = S.f(S.SH, g('state')[3][0], 'state')
                    if sorted(S.seqs(S.f(S.ST, h, 'sealed_segments'))) != [1, 2, 7]: bad.append('the recorded sealed segments differ')
                    if S.f(S.ST, h, 'active_segment') != NONE: bad.append('the sealed segment is still recorded as active')
                    if path(S.f(RO, w, 'performed')) != '1': bad.append('the rotation is reported as not performed')
                    if path(S.f(RO, w, 'sync_performed')) != ('0' if ('sync', 'OLD') not in evs else '1'): bad.append('the sync report is wrong')
                ctx.ob(K, f'rotate:{policy}:{known}:{size}', base and not bad, f'rotation of segment 7 (policy {policy}, range {"known" if known else "read back"}, new segment of {size} bytes): {bad[:1]}', ctx.loc(fn))
                if size: continue
                for k in range(n):
                    fn, outs = go('rotate_active_segment', policy, known, size, k)
                    bad = []
                    for evs, vi, w, g in outs:
                        # (the size of a segment that does not exist yet in an object store is zero)
                        if vi != 1 and not (len(evs) > k and evs[k][0] == 'size'): bad.append(f'the failure of {evs[k] if len(evs) > k else "a step"} is ignored')
                        if vi != 1: continue
                        if len(evs) <= k: continue
                        pair = (path(S.f(SEG, g('segment'), 'path')), path(g('segment_seq')))
                        if pair not in (('OLDPATH', '7'), ('NEWPATH', '8')): bad.append(f'after the failure the writer appends to {pair}')
                    ctx.ob(K, f'rotate-fail:{policy}:{known}:{k}', outs and not bad, f'rotation whose step {k} fails: {bad[:1]}', ctx.loc(fn))
        for dirty in (TRUE, FALSE):
            for hs in (True, False):
                fn, base = go('flush_and_sync_for_shutdown', policy, True, 0, None, dirty, hs)
                bad, n = [], 0
                for evs, vi, w, g in base:
                    n = max(n, len(evs))
                    if vi != 0: bad.append('a shutdown without failures fails'); continue
                    bad += durable(evs, policy)
                    if dirty == TRUE and hs and evs.count(('persist', '')) < 1: bad.append('the pending state is not persisted')
                    if dirty == TRUE and hs and path(g('state_dirty')) != '0': bad.append('the state stays marked as pending')
                    if path(w) != ('1' if ('sync', 'OLD') in evs else '0'): bad.append('the sync report is wrong')
                ctx.ob(K, f'shutdown:{policy}:{path(dirty)}:{hs}', base and not bad, f'shutdown (policy {policy}, state pending: {path(dirty)}): {bad[:1]}', ctx.loc(fn))
                for k in range(n):
                    fn, outs = go('flush_and_sync_for_shutdown', policy, True, 0, k, dirty, hs)
                    bad = [evs for evs, vi, w, g in outs if vi != 1]
                    ctx.ob(K, f'shutdown-fail:{policy}:{path(dirty)}:{hs}:{k}', outs and not bad, f'the failure of step {k} of the shutdown is ignored: {bad[:1]}', ctx.loc(fn))

# ------------------------------------------------------------------ one command through the writer, on concrete states and a concrete clock
NOW = 1000
class Drive:
    """the writer's step functions evaluated on concrete contexts; every I/O step is an event that may fail; instants and durations are numbers"""
    def __init__(s, ctx):
        s.ctx, s.S = ctx, Seg(ctx)
        s.SEG, s.SP, s.RO, s.TSA, s.TD, s.FR_, s.FT = (ctx.adt(n) for n in ('storage::WalSegment', 'wal::WalSyncPolicy', 'writer::RotationOutcome', 'mvcc::Timestamp', 'writer::TimerDirective', 'wal::frame::Frame', 'wal::frame::FrameType'))
        s.pol = lambda p, x: enum(ctx, s.SP, p, *(() if x is None else (('c', x),)))
    def frame(s, ty, pl): return struct(s.ctx, s.FR_, frame_type=enum(s.ctx, s.FT, ty), payload=('a', tuple(('c', b) for b in pl)))
    def context(s, bytes=40, frame=76, unsynced=0, active=(70, 75), handle=True, dirty=False, sync=('Always', None), max_bytes=0, max_age=None, flush=0, last_flush=NOW, rot=None, dl=None, sealed=(1, 2), retention=None, lastc=None):
        ctx, S = s.ctx, s.S
        opt = lambda x: NONE if x is None else some(('c', x))
        a = NONE if active is None else some(S.bnd(7, *active))
        st = struct(ctx, S.ST, sealed_segments=('a', tuple(S.bnd(i) for i in sealed)), active_segment=a, last_segment_seq=NONE, last_frame_seq=opt(frame - 1 if frame > 1 else None), last_commit_ts=opt(lastc))
        return struct(ctx, S.CX, segment=struct(ctx, s.SEG, path=arg('OLDPATH'), file=arg('OLDFILE')), segment_seq=('c', 7), segment_bytes=('c', bytes), next_segment_seq=('c', 8), next_frame_seq=('c', frame),
                      bytes_since_sync=('c', unsynced), completed_segments=('a', tuple(S.meta(i, 10) for i in sealed)), active_segment=a, state=some(S.handle(st)) if handle else NONE, state_dirty=TRUE if dirty else FALSE,
                      cfg=struct(ctx, S.WCFG, retention_bytes=opt(retention), segment_max_age=opt(max_age), segment_max_bytes=('c', max_bytes), flush_interval=('c', flush), sync=s.pol(*sync)),
                      last_flush=('c', last_flush), last_sync=('c', 1), segment_opened_at=('c', 1), rotation_deadline=opt(rot), next_sync_deadline=opt(dl), scheduled_deadline=opt(dl))
    def ev(s, kind, okv):
        def h(it, st, nm, a, site, t):
            e = (kind, a[0][1] if a and a[0][0] == 's' else '') + ((tuple(a[1][1]),) if kind == 'write' else ())
            if kind == 'persist': e = (kind, path(a[0]))
            st.setg('ev', st.g('ev', ()) + (e,))
            bad = st.g('failat') == len(st.g('ev')) - 1
            r = err(arg('FAIL')) if bad else ok(okv)
            return [(st, ('t', (r, arg('BUF'))) if kind == 'write' else r)]
        return h
    def hooks(s, cmds=None):
        def which(it, st, a):
            for x in a:
                m = re.search(r'\b(OLD|NEW|THIRD)(FILE|PATH)\b', path(it.deepval(st, x)))
                if m: return m.group(1)
            return '?'
        f = lambda nm, w=True: lambda it, st, c: [(st, mk(('call', nm, ((('s', which(it, st, c.args)) if w else ('s', path(it.deepval(st, c.args[-1])))),))))]
        def write(it, st, c):
            v = it.deepval(st, it.rd(st, c.args[-1]))
            if v[0] != 'a' or any(x[0] != 'c' for x in v[1]): raise Missing('the bytes written to the log are not known')
            return [(st, mk(('call', 'WRITE', (('s', which(it, st, c.args[:1])), ('a', v[1])))))]
        def persist(it, st, c):
            return [(st, mk(('call', 'PERSIST', (it.deepval(st, s.S.f(s.S.SH, it.deepval(st, it.rd(st, c.args[0])), 'state')),))))]
        num = lambda it, st, v: it.deepval(st, it.rd(st, v))
        def elapsed(it, st, c):
            v = num(it, st, c.args[0])
            return [(st, ('c', max(0, NOW - v[1])))] if v[0] == 'c' else None
        def sub(it, st, c):
            a, b = num(it, st, c.args[0]), num(it, st, c.args[1])
            if a[0] != 'c' or b[0] != 'c': return None
            if 'checked' in c.short: return [(st, some(('c', a[1] - b[1])) if a[1] >= b[1] else NONE)]
            return [(st, ('c', max(0, a[1] - b[1])))]
        def add(it, st, c):
            a, b = num(it, st, c.args[0]), num(it, st, c.args[1])
            if a[0] != 'c' or b[0] != 'c': return None
            if c.short == 'checked_add': return [(st, some(('c', a[1] + b[1])) if st.g('ovf') is None else NONE)]
            return [(st, ('c', a[1] + b[1]))]
        def zero(it, st, c):
            a = num(it, st, c.args[0])
            return [(st, TRUE if a[1] == 0 else FALSE)] if a[0] == 'c' else None
        def sleep(it, st, c):
            st.setg('slept', st.g('slept', ()) + (path(num(it, st, c.args[-1])),))
            return [(st, mk(('sleep', num(it, st, c.args[-1]))))]
        noop = lambda it, st, c: [(st, mk(('call', 'NOOP', ())))]
        H = [(r'(Dyn)?Write::write_all$|Dyn\w*::write_all$', write), (r'Dyn(Write|Read|File)?.*::flush$|::Write::flush$|^<.*>::flush$', f('FLUSH')), (r'::close$', f('CLOSE')), (r'Dyn\w+::size$|Read::size$', f('SIZE')),
             (r'::perform_sync$', f('SYNC')), (r'::open_segment$', f('OPENSEG', False)), (r'::load_bounds_from_storage$', f('LOADB')), (r'WalStateHandle::persist$', persist), (r'WalStorage::remove_segment$', f('REMOVE', False)),
             (r'WriterContext::<E>::(record_bytes_written|record_sync|update_queue_depth_metric)$', noop),
             (r'(Timer|Executor|WriterContext::<E>|Instant)::now$', lambda it, st, c: [(st, ('c', NOW))]), (r'Instant::elapsed$', elapsed), (r'Instant::(saturating_|checked_)?duration_since$|Instant::checked_sub$|Duration::(saturating|checked)_sub$|^core::ops::arith::Sub::sub$', sub), (r'(Instant|Duration)::(checked|saturating)_add$|^core::ops::arith::Add::add$', add), (r'Duration::is_zero$', zero),
             (r'Timer::sleep$', sleep), (r'FutureExt::fuse$', pure())]
        if cmds is not None: H.append((r'frame::encode_command$', cmds))
        from rules.wal_frame import frame_hooks
        return H + frame_hooks()[:1]
    def awaits(s, size=0):
        ctx = s.ctx
        return [('^WRITE$', s.ev('write', UNIT)), ('^FLUSH$', s.ev('flush', UNIT)), ('^CLOSE$', s.ev('close', UNIT)), ('^SIZE$', s.ev('size', ('c', size))), ('^SYNC$', s.ev('sync', UNIT)), ('^REMOVE$', s.ev('remove', UNIT)),
                ('^OPENSEG$', s.ev('open', struct(ctx, s.SEG, path=arg('NEWPATH'), file=arg('NEWFILE')))), ('^LOADB$', s.ev('load', s.S.bnd(7, tag='L'))), ('^PERSIST$', s.ev('persist', UNIT)), ('^NOOP$', lambda it, st, *x: [(st, UNIT)])]
    def run(s, name, cx, more=(), cmds=None, failat=None, plain=False, ovf=None):
        """[(events, 0 for success, value, field reader, state)]"""
        import exact
        fn = s.ctx.fn(WC + name)
        st = State(); it = Interp(s.ctx.F, CQ(exact=True))
        if failat is not None: st.setg('failat', failat)
        if ovf: st.setg('ovf', 1)
        r = it.tmp(st, 0, 'cx', cx)
        old, exact.LIM = exact.LIM, 600
        try: it, outs = s.ctx.run(fn, CQ(exact=True, calls=s.hooks(cmds), awaits=s.awaits(), max_states=600), args=dict({'self': r}, **dict(more)), st=st)
        finally: exact.LIM = old
        out = []
        for o in outs:
            for x, vi, w in ([(o.st, 0, None)] if plain else it.split(o.st, it.rd(o.st, o.v), RESULT)):
                v = it.deepval(x, it.rd(x, o.v if plain else w[3][0]))
                c = it.deepval(x, it.rd(x, r))
                g = lambda n, c=c, x=x: it.deepval(x, it.rd(x, s.S.f(s.S.CX, c, n)))
                out.append((x.g('ev', ()), vi, v, g, x))
        return fn, out
    def encoded(s, frames, seq):
        """the bytes of the frames, by the encoder itself"""
        import exact
        from rules.wal_frame import frame_hooks
        old, exact.LIM = exact.LIM, 600
        res = []
        try:
            for i, f in enumerate(frames):
                it, outs = s.ctx.run(s.ctx.fn('crate::wal::frame::Frame::into_bytes'), CQ(exact=True, calls=frame_hooks()), args=[f, ('c', seq + i)])
                v = it.deepval(outs[0].st, outs[0].v)
                if len(outs) != 1 or v[0] != 'a': raise Missing('the bytes of a frame')
                res.append(tuple(v[1]))
        finally: exact.LIM = old
        return res

@rule('W01', 'W02', 'W07', 'W04', 'W09', 'W08')
def append_exact(ctx):
    """one command through the writer: its frames are written once, in order, under the next sequence numbers, to the active segment; the policy's flush and sync, the acknowledgement, the segment's range, the durable progress and rotation all follow; every failing step fails the append"""
    K = 'append_exact'
    D = Drive(ctx); S = D.S
    C, HO, AK, SO = (ctx.adt(n) for n in ('wal::WalCommand', 'writer::HandleOutcome', 'wal::WalAck', 'writer::RotationOutcome'))
    def cmd(var, **f):
        for i, v in enumerate(ctx.F.adts[C]['v']):
            if v['n'] == var: return ('e', C, i, tuple(f[x[0]] for x in v['f']))
        raise Missing('WalCommand::' + var)
    ts = lambda n: ('e', D.TSA, 0, (('c', n),))
    import struct as ST_
    le = lambda n: list(ST_.pack('<Q', n))
    CM = {'begin': (cmd('TxnBegin', provisional_id=('c', 3)), None), 'commit': (cmd('TxnCommit', provisional_id=('c', 3), commit_ts=ts(9)), 9), 'abort': (cmd('TxnAbort', provisional_id=('c', 3)), None)}
    enc = ctx.fn('crate::wal::frame::encode_command')
    real = {}
    from rules.wal_frame import frun, outcomes
    for k, (c, _) in CM.items():
        it, outs = frun(ctx, enc, [c])
        got = outcomes(it, outs)
        if len(got) != 1 or got[0][0] != 'ok' or got[0][1][0] != 'a': raise Missing('the frames of a marker command')
        real[k] = list(got[0][1][1])
    F1, F2 = D.frame('TxnAppend', [1, 2, 3]), D.frame('TxnCommit', [4])
    stub = {'two': [F1, F2], 'one': [F1], 'empty-payload': [D.frame('SealMarker', [])], 'none': []}
    fld = lambda adt, v, n: S.f(adt, v, n)
    def check(key, what, cmdk, failat=None, **kw):
        frames = real.get(cmdk, stub.get(cmdk))
        cmds = None
        if cmdk in stub or cmdk == 'fails': cmds = lambda it, st, c: [(st, err(arg('ENCERR')) if cmdk == 'fails' else ok(('a', tuple(stub[cmdk]))))]
        command, cts = CM.get(cmdk, (cmd('TxnAbort', provisional_id=('c', 3)), None))
        b0, f0, u0 = kw.get('bytes', 40), kw.get('frame', 76), kw.get('unsynced', 0)
        fn, outs = D.run('handle_enqueue', D.context(**kw), more={'command': command, 'enqueued_at': ('c', 990)}, cmds=cmds, failat=failat)
        pol, px = kw.get('sync', ('Always', None))
        bad, n = [], 0
        enc_ = D.encoded(frames, f0) if frames else []
        W = sum(map(len, enc_))
        for evs, vi, v, g, s in outs:
            n = max(n, len(evs))
            if not frames:
                if vi == 0: bad.append('a command without frames succeeds')
                if any(e[0] == 'write' for e in evs): bad.append('something is written')
                continue
            wr = [e for e in evs if e[0] == 'write']
            nf = int(path(g('next_frame_seq'))) if path(g('next_frame_seq')).isdigit() else -1
            for i, e in enumerate(wr):
                if e[1] != 'OLD' or i >= len(enc_) or e[2] != enc_[i]: bad.append(f'write {i} is not frame {i} under sequence {f0 + i} in the active segment')
            if nf < f0 + len(wr): bad.append(f'after {len(wr)} writes starting at {f0} the next sequence number is {nf}')
            if failat is not None:
                if len(evs) > failat and vi == 0 and evs[failat][0] != 'size': bad.append(f'the failure of {evs[failat][0]} is ignored')
                continue
            if vi != 0: bad.append('fails without a failing step'); continue
            if len(wr) != len(enc_): bad.append(f'{len(wr)} of {len(enc_)} frames are written')
            mx = kw.get('max_bytes', 0)
            rot = mx > 0 and b0 + W >= mx
            if any(e[0] == 'open' for e in evs) != rot: bad.append(f'a segment of {b0 + W} bytes with limit {mx} is {"not " if rot else ""}rotated')
            names = [e[0] for e in evs]
            li = max(i for i, e in enumerate(evs) if e[0] == 'write')
            flushdue = kw.get('flush', 0) == 0 or NOW - kw.get('last_flush', NOW) >= kw['flush']
            if flushdue and ('flush', 'OLD') not in evs[li:]: bad.append('the written bytes are not flushed')
            u = u0 + W
            if rot and pol != 'Disabled': u = 0
            want_sync = pol == 'Always' or pol == 'IntervalBytes' and u >= px
            after = [e for e in evs[li:] if e[0] == 'sync']
            if want_sync or rot and pol != 'Disabled':
                if ('sync', 'OLD') not in after: bad.append('the written bytes are not synced')
                u = 0
            elif after and pol == 'Disabled': u = 0
            got_u = path(g('bytes_since_sync'))
            if not after and got_u != str(u): bad.append(f'{u} unsynced bytes are counted as {got_u}')
            if after and ('sync', 'OLD') in after and got_u != '0' and not rot: bad.append(f'after a sync {got_u} bytes count as unsynced')
            last = f0 + len(enc_) - 1
            a = fld(HO, v, 'ack')
            got = tuple(path(fld(AK, a, x)) for x in ('first_seq', 'last_seq', 'bytes_flushed'))
            if got != (str(f0), str(last), str(W)): bad.append(f'acknowledged (first, last, bytes) = {got}, expected {(f0, last, W)}')
            if nf != last + 1: bad.append(f'next sequence number {nf}, expected {last + 1}')
            if (path(fld(HO, v, 'sync_performed')) == '1') != bool(after): bad.append('the sync report is wrong')
            td = fld(HO, v, 'timer_directive')
            if pol == 'IntervalTime' and u > 0 and td != enum(ctx, D.TD, 'Schedule', ('c', px)): bad.append(f'unsynced bytes under the time policy are answered with {path(td)} instead of arming the timer')
            act = kw.get('active', (70, 75))
            want_b = None if rot else (7, act[0] if act else f0, last)
            def bview(x):
                if x == NONE: return None
                x = x[3][0]
                return tuple(int(path(fld(S.SB, x, y))) for y in ('seq', 'first_frame', 'last_frame'))
            if bview(g('active_segment')) != want_b: bad.append(f'range of the active segment {bview(g("active_segment"))}, expected {want_b}')
            if not rot and path(g('segment_bytes')) != str(b0 + W): bad.append(f'segment size {path(g("segment_bytes"))}, expected {b0 + W}')
            if kw.get('handle', True):
                h = fld(S.SH, g('state')[3][0], 'state')
                if path(fld(S.ST, h, 'last_frame_seq')) != path(some(('c', last))): bad.append(f'recorded frame progress {path(fld(S.ST, h, "last_frame_seq"))}, expected {last}')
                wc = cts if cts is not None else kw.get('lastc')
                lc = fld(S.ST, h, 'last_commit_ts')
                if (re.findall(r'\{(\d+)', path(lc)) or [None])[-1] != (None if wc is None else str(wc)): bad.append(f'recorded commit timestamp {path(fld(S.ST, h, "last_commit_ts"))}, expected {wc}')
                if bview(fld(S.ST, h, 'active_segment')) != want_b: bad.append(f'recorded active segment {bview(fld(S.ST, h, "active_segment"))}, expected {want_b}')
                ps = [e for e in evs if e[0] == 'persist']
                if not ps or ps[-1][1] != path(h): bad.append('the recorded state is not the one persisted')
                if path(g('state_dirty')) != '0': bad.append('the state stays marked as pending')
            if kw.get('max_age') is not None and not rot:
                wr_ = kw.get('rot') if b0 else NOW + kw['max_age']
                if path(g('rotation_deadline')) != path(NONE if wr_ is None else some(('c', wr_))): bad.append(f'the age limit of the segment is {path(g("rotation_deadline"))}, expected {wr_}')
            if rot:
                m = [(x[3][0][3][ctx.fieldix(S.SD, 'seq')][1], path(S.f(S.SD, x[3][0], 'bytes')), bview(some(S.f(S.SM, x, 'bounds')))) for x in g('completed_segments')[1]][-1:]
                if m != [(7, str(b0 + W), (7, act[0] if act else f0, last))]: bad.append(f'the sealed segment is listed as {m}')
                if path(g('segment_seq')) != '8': bad.append('the new segment has another number')
        ctx.ob(K, key, outs and not bad, f'{what}: {bad[:2]}', ctx.loc(fn))
        return n
    P = [('Always', None), ('IntervalBytes', 100), ('IntervalTime', 50), ('Disabled', None)]
    sizes = {k: sum(len(x) for x in D.encoded(real.get(k, stub.get(k)), 76)) for k in ('begin', 'commit', 'abort', 'two', 'one')}
    for k in ('begin', 'commit', 'abort', 'two', 'one', 'empty-payload', 'none', 'fails'):
        for p in P: check(f'{k}:{p[0]}', f'{k} under {p[0]}', k, sync=p)
        check(f'{k}:first', f'{k} as the first frame of a log', k, bytes=0, frame=1, active=None, lastc=None)
        check(f'{k}:no-state', f'{k} without a recorded state', k, handle=False)
        check(f'{k}:after-commit', f'{k} after a commit at 8', k, lastc=8)
    for k in ('commit', 'two'):
        w = sizes[k]
        for t in (w - 1, w, w + 1, w + 10, w + 11, w + 9):
            for u in (0, 10): check(f'{k}:bytes:{t}:{u}', f'{w} bytes on top of {u} unsynced under a byte interval of {t}', k, sync=('IntervalBytes', t), unsynced=u)
        for p in P:
            for u in (0, 10):
                for m in (40 + w - 1, 40 + w, 40 + w + 1, 1): check(f'{k}:rotate:{p[0]}:{u}:{m - w}', f'{w} bytes into a 40-byte segment limited to {m} under {p[0]}', k, sync=p, unsynced=u, max_bytes=m)
        for fl, lf in ((100, NOW - 100), (100, NOW - 99), (100, NOW - 101), (0, NOW)):
            for p in P: check(f'{k}:flush:{fl}:{NOW - lf}:{p[0]}', f'flush interval {fl}, last flush {NOW - lf} ago', k, flush=fl, last_flush=lf, sync=p)
        for b, rt in ((0, None), (40, None), (40, 1030), (0, 900)):
            check(f'{k}:age:{b}:{rt}', f'a {b}-byte segment with age limit 50', k, bytes=b, max_age=50, rot=rt, active=None if not b else (70, 75))
    for k in ('commit', 'two'):
        for p in P + [('IntervalBytes', 5)]:
            for m in (0, 1):
                n = check(f'{k}:nofail:{p}:{m}', f'{k} under {p[0]}', k, sync=p, max_bytes=m, unsynced=10)
                for i in range(n): check(f'{k}:fail:{p}:{m}:{i}', f'{k} under {p[0]} with step {i} failing', k, failat=i, sync=p, max_bytes=m, unsynced=10)
    ctx.need(K, 150)

@rule('W01', 'W07', 'W09', 'W08')
def timer_exact(ctx):
    """the interval and age timers on a concrete clock: armed no later than the earliest deadline; on expiry unsynced bytes are synced and an aged segment is rotated; failures are reported"""
    K = 'timer_exact'
    D = Drive(ctx); S = D.S
    TT, SO = ctx.adt('writer::TimerTickOutcome'), ctx.adt('writer::SyncOutcome')
    opt = lambda x: NONE if x is None else some(('c', x))
    P = [('Always', None), ('IntervalBytes', 100), ('IntervalTime', 50), ('Disabled', None)]
    def tick(key, failat=None, **kw):
        fn, outs = D.run('handle_timer_elapsed', D.context(**kw), failat=failat)
        rot, dl, u, b = kw.get('rot'), kw.get('dl'), kw.get('unsynced', 0), kw.get('bytes', 40)
        pol = kw.get('sync', ('Always', None))[0]
        due = rot is not None and rot <= NOW
        bad, n = [], 0
        for evs, vi, v, g, s in outs:
            n = max(n, len(evs))
            if failat is not None:
                if len(evs) > failat and vi == 0 and evs[failat][0] != 'size': bad.append(f'the failure of {evs[failat][0]} is ignored')
                continue
            if vi != 0: bad.append('fails without a failing step'); continue
            if ('open', '8') in evs and not (due and b): bad.append('rotates before the age limit')
            if due and b and ('open', '8') not in evs: bad.append('an aged segment is not rotated')
            if due and b and kw.get('handle', True) and (path(g('state_dirty')) != '0' or not any(e[0] == 'persist' for e in evs)): bad.append('the rotation is not recorded')
            sd = dl is not None and dl <= NOW
            if sd and u and ('sync', 'OLD') not in evs and not (due and b and pol == 'Disabled' and ('sync', 'NEW') in evs): bad.append('unsynced bytes are not synced at the deadline')
            syn = any(e[0] == 'sync' for e in evs)
            gu = path(g('bytes_since_sync'))
            if gu != ('0' if syn else str(u)): bad.append(f'{gu} bytes count as unsynced')
            if sd and g('next_sync_deadline') != NONE: bad.append('the passed deadline stays armed')
            if not sd and g('next_sync_deadline') != opt(dl): bad.append(f'the pending deadline {dl} becomes {path(g("next_sync_deadline"))}')
            if due and not (g('rotation_deadline') == NONE): bad.append('the passed age limit stays armed')
            if not due and g('rotation_deadline') != opt(rot): bad.append(f'the age limit {rot} becomes {path(g("rotation_deadline"))}')
            if (path(S.f(TT, v, 'sync_performed')) == '1') != syn: bad.append('the sync report is wrong')
        ctx.ob(K, key, outs and not bad, f'timer at {NOW} with {kw}: {bad[:2]}', ctx.loc(fn))
        return n
    TS_ = (None, 999, 1000, 1001)
    for p in P:
        for rot in TS_:
            for dl in TS_:
                for u in (0, 60):
                    for b in (0, 40):
                        if b == 0 and u: continue
                        n = tick(f'tick:{p[0]}:{rot}:{dl}:{u}:{b}', sync=p, rot=rot, dl=dl, unsynced=u, bytes=b)
                        if rot in (None, 999) and dl in (None, 1000) and u:
                            for i in range(n): tick(f'tick-fail:{p[0]}:{rot}:{dl}:{u}:{b}:{i}', failat=i, sync=p, rot=rot, dl=dl, unsynced=u, bytes=b)
    # what a directive arms
    ap = ctx.fn(WC + 'apply_timer_directive')
    slot = [p_[0] for p_ in []]
    for d in (('None',), ('Cancel',), ('Schedule', 0), ('Schedule', 50), ('Schedule', 70)):
        for dl in (None, 990, 1000, 1020, 1050, 1060):
            for rot in (None, 980, 1010, 1040, 1200):
                for ovf in (False, True):
                    if ovf and d != ('Schedule', 50): continue
                    st = State()
                    it0 = Interp(ctx.F, CQ(exact=True))
                    fn = ap
                    import exact
                    if ovf: st.setg('ovf', 1)
                    r = it0.tmp(st, 0, 'cx', D.context(dl=dl, rot=rot)); sl = it0.tmp(st, 0, 'slot', arg('OLDSLOT'))
                    it, outs = ctx.run(ap, CQ(exact=True, calls=D.hooks(), awaits=D.awaits()), args={'self': r, 'directive': enum(ctx, D.TD, d[0], *[('c', x) for x in d[1:]]), 'timer_slot': sl}, st=st)
                    want = dl if d[0] == 'None' else None if d[0] == 'Cancel' else min([x for x in (dl, NOW + (0 if ovf else d[1])) if x is not None])
                    nxt = min([x for x in (want, rot) if x is not None], default=None)
                    bad = []
                    for o in outs:
                        c = it.deepval(o.st, it.rd(o.st, r)); g = lambda n: it.deepval(o.st, it.rd(o.st, S.f(S.CX, c, n)))
                        if g('next_sync_deadline') != opt(want): bad.append(f'sync deadline {path(g("next_sync_deadline"))}, expected {want}')
                        if g('rotation_deadline') != opt(rot): bad.append('the age limit changed')
                        if g('scheduled_deadline') != opt(nxt): bad.append(f'the timer is armed for {path(g("scheduled_deadline"))}, expected {nxt}')
                        sv = path(it.deepval(o.st, it.rd(o.st, sl)))
                        if nxt is None and sv != path(NONE) or nxt is not None and f'sleep({max(0, nxt - NOW)})' not in sv: bad.append(f'the timer is {sv}, expected {nxt} (now {NOW})')
                    ctx.ob(K, f'arm:{d}:{dl}:{rot}:{ovf}', outs and not bad, f'directive {d} with sync deadline {dl} and age limit {rot}: {bad[:1]}', ctx.loc(ap))
    # explicit rotation
    for b in (0, 40):
        for p in P[:1] + P[3:]:
            def req(failat=None):
                fn, outs = D.run('handle_rotation_request', D.context(bytes=b, sync=p, active=(70, 75) if b else None), failat=failat)
                bad, n = [], 0
                for evs, vi, v, g, s in outs:
                    n = max(n, len(evs))
                    if failat is not None:
                        if len(evs) > failat and vi == 0 and evs[failat][0] != 'size': bad.append(f'the failure of {evs[failat][0]} is ignored')
                        continue
                    if vi != 0: bad.append('fails'); continue
                    if (('open', '8') in evs) != bool(b): bad.append('rotated' if not b else 'not rotated')
                    if (path(S.f(D.RO, v, 'performed')) == '1') != bool(b): bad.append('the report is wrong')
                    if b and (path(g('state_dirty')) != '0' or not any(e[0] == 'persist' for e in evs)): bad.append('the rotation is not recorded')
                ctx.ob(K, f'request:{b}:{p[0]}:{failat}', outs and not bad, f'explicit rotation of a {b}-byte segment under {p[0]}{"" if failat is None else f" with step {failat} failing"}: {bad[:1]}', ctx.loc(fn))
                return n
            for i in range(req()): req(i)
    # the snapshot lists every segment
    sn = ctx.fn(WC + 'snapshot')
    WS = ctx.adt('wal::WalSnapshot')
    for sealed in ((), (1,), (1, 2, 5)):
        for act in (None, (70, 75)):
            st = State(); it0 = Interp(ctx.F, CQ(exact=True))
            r = it0.tmp(st, 0, 'cx', D.context(sealed=sealed, active=act))
            it, outs = ctx.run(sn, CQ(exact=True), args=[r], st=st)
            vs = [it.deepval(o.st, o.v) for o in outs]
            ctx.ob(K, f'snapshot:{sealed}:{act}', vs and all(S.f(WS, v, 'sealed_segments') == ('a', tuple(S.bnd(i) for i in sealed)) and S.f(WS, v, 'active_segment') == (NONE if act is None else some(S.bnd(7, *act))) for v in vs), f'the snapshot of segments {sealed} and active {act} is {[path(v)[:150] for v in vs[:1]]}', ctx.loc(sn))
    # bounds read back from a segment file
    lb = ctx.fn(WC + 'load_bounds_from_storage')
    FB = ctx.adt('storage::SegmentFrameBounds')
    fid = ctx.fn('crate::wal::wal_segment_file_id', opt=True)
    for kind in ('some', 'none', 'fails'):
        H = [(r'::segment_frame_bounds$', lambda it, st, c: [(st, mk(('call', 'SFB', (it.deepval(st, it.rd(st, c.args[-1])),))))]), (r'wal_segment_file_id$', pure())]
        def sfb(it, st, nm, a, site, t):
            st.setg('p', path(a[0]))
            return [(st, err(arg('E')) if kind == 'fails' else ok(NONE if kind == 'none' else some(struct(ctx, FB, first_seq=('c', 31), last_seq=('c', 44)))))]
        st = State(); it0 = Interp(ctx.F, CQ(exact=True))
        it, outs = ctx.run(lb, CQ(exact=True, calls=H, awaits=[('^SFB$', sfb)]), args=[arg('STORAGE'), it0.tmp(st, 0, 'd', S.desc(6, 100))], st=st)
        bad = []
        for o in outs:
            for s, vi, w in it.split(o.st, it.rd(o.st, o.v), RESULT):
                if s.g('p') != 'PATH6': bad.append(f'reads {s.g("p")}')
                if kind != 'some':
                    if vi == 0: bad.append('succeeds')
                    continue
                b = it.deepval(s, it.rd(s, w[3][0])) if vi == 0 else None
                got = None if b is None else tuple(path(S.f(S.SB, b, x)) for x in ('seq', 'file_id', 'first_frame', 'last_frame'))
                if got != ('6', 'wal_segment_file_id(6)', '31', '44'): bad.append(f'range {got}')
        ctx.ob(K, f'bounds:{kind}', outs and not bad, f'the range of segment 6 read back ({kind}): {bad[:1]}', ctx.loc(lb))
    ctx.need(K, 150)

@rule('W01', 'W07')
def sync_exact(ctx):
    """a sync opens the active segment's own file and syncs it, reports every failure, and refuses backends it cannot sync"""
    K = 'sync_exact'
    fn = ctx.fn('crate::wal::writer::perform_sync')
    SV = ctx.adt('writer::SyncVariant')
    c = [k for k in ctx.F.adts if k.endswith('::FileSystemTag')]
    tags = [v['n'] for v in ctx.F.adts[c[0]]['v']]
    def res(what, v):
        def h(it, st, c2):
            st.setg('ev', st.g('ev', ()) + ((what, path(it.deepval(st, it.rd(st, c2.args[-1])))),))
            return [(st, err(arg('E' + what)) if st.g('fail') == what else ok(v(it, st, c2) if callable(v) else v))]
        return h
    H = [(r'path_to_local$', res('local', lambda it, st, c2: mk(('local', it.deepval(st, it.rd(st, c2.args[0])))))), (r'OpenOptions::open$|std::fs::File::(open|create)$', res('open', arg('STDFILE'))), (r'std::fs::File::sync_(all|data)$', res('sync', UNIT)),
         (r'OpenOptions::(new|write|read|append)$|std::fs::File::options$', pure())]
    for var in ('Data', 'All'):
        for i, t in enumerate(tags):
            for fail in (None, 'local', 'open', 'sync'):
                if t != 'Local' and fail: continue
                st = State(); it0 = Interp(ctx.F, CQ(exact=True))
                if fail: st.setg('fail', fail)
                it, outs = ctx.run(fn, CQ(exact=True, calls=H), args={'fs_tag': ('e', c[0], i, ()), 'segment_path': it0.tmp(st, 0, 'p', arg('SEGPATH')), 'variant': enum(ctx, SV, var)}, st=st)
                bad = []
                for o in outs:
                    for s, vi, w in it.split(o.st, it.rd(o.st, o.v), RESULT):
                        evs = s.g('ev', ())
                        if t == 'Local':
                            if fail and vi == 0: bad.append(f'the failure of {fail} is ignored')
                            if not fail and (vi != 0 or not any(e[0] == 'sync' for e in evs) or [e[1] for e in evs if e[0] == 'open'] != ['local(SEGPATH)']): bad.append(f'steps {evs}, {"error" if vi else "success"}')
                        elif t in ('Memory', 'S3'):
                            if vi != 0: bad.append('refused')
                        elif vi == 0 and not any(e[0] == 'sync' for e in evs): bad.append('reports success without syncing')
                ctx.ob(K, f'{var}:{t}:{fail}', outs and not bad, f'sync of a {t} segment (failing: {fail}): {bad[:1]}', ctx.loc(fn))
    for name in ('sync_all', 'sync_data'):
        f2 = ctx.fn(WC + name)
        D = Drive(ctx)
        for failat in (None, 0):
            f2, outs = D.run(name, D.context(), failat=failat)
            ctx.ob(K, f'{name}:{failat}', outs and all(('sync', 'OLD') in evs and vi == (failat is not None) for evs, vi, v, g, s in outs), f'{name} does {[e for e, *_ in outs[:1]]}', ctx.loc(f2))
    ctx.need(K, 10)
