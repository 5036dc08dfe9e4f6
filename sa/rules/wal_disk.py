"""The log on disk: replay, listing, tail inspection, pruning and segment bookkeeping evaluated on whole directories of concrete bytes."""
import exact
from core import *
from rules.inmem import struct
from rules.wal_frame import frame_hooks, frun, bytesv, codec, plain
from rules.wal_replay import opts

RP = 'crate::wal::replay::Replayer::'
ST = 'crate::wal::storage::'
WS = ST + 'WalStorage::'
ROOT = 'wal'
def segname(n, root=ROOT): return f'{root}/wal-{n:020d}.tonwal'
ERR = 'fusio_core::error::Error'

class Disk:
    """a file system holding concrete bytes; every operation is an event that can be made to fail"""
    def __init__(s, ctx, backend='Local'):
        s.ctx, s.backend = ctx, backend
        s.tag = ('e', 'fusio::fs::FileSystemTag', [v['n'] for v in ctx.F.adts['fusio::fs::FileSystemTag']['v']].index(backend), ())
        s.kinds = [v['n'] for v in ctx.F.adts['core::io::error::ErrorKind']['v']] if 'core::io::error::ErrorKind' in ctx.F.adts else []
        s.storage = struct(ctx, ctx.adt('wal::storage::WalStorage'), fs=arg('FS'), root=('s', ROOT))

    def ioerr(s, kind):
        for i, v in enumerate(s.ctx.F.adts[ERR]['v']):
            if v['n'] == 'Io': return ('e', ERR, i, (mk(('call', 'IOERR', (('s', kind),))),))
        raise Missing('fusio Error::Io')

    def hooks(s):
        dv = lambda it, st, v: it.deepval(st, it.rd(st, v))
        def text(it, st, v):
            v = dv(it, st, v)
            if v[0] != 's': raise Missing(f'a path that is not known: {path(v)[:120]}')
            return v[1]
        def call(nm, f):
            def h(it, st, c): return [(st, mk(('call', nm, f(it, st, c))))]
            return h
        def handle(it, st, v):
            v = dv(it, st, v)
            if v[0] == 'y' and v[1][0] == 'call' and v[1][1] == 'FILEOF': return v[1][2][0]
            raise Missing(f'a file that is not known: {path(v)[:120]}')
        def opn(it, st, c):
            o = dv(it, st, c.args[2])
            return (('s', text(it, st, c.args[1])), o)
        def parse(it, st, c):
            t = dv(it, st, c.args[0])
            return [(st, ok(t) if t[0] == 's' and t[1] and '/' not in t[1] else err(mk(('patherr',))))] if t[0] == 's' else None
        def filename(it, st, c):
            t = text(it, st, c.args[0])
            return [(st, some(('s', t.rsplit('/', 1)[-1])) if t else NONE)]
        def child(it, st, c):
            a, b = text(it, st, c.args[0]), text(it, st, c.args[1])
            return [(st, ('s', a + '/' + b if a else b))]
        def prefix(it, st, c):
            a, b = (text(it, st, x) for x in c.args[:2])
            return [(st, TRUE if not b or a == b or a.startswith(b + '/') else FALSE)]
        def cmp_(f): return lambda it, st, c: [(st, TRUE if f(text(it, st, c.args[0]), text(it, st, c.args[1])) else FALSE)]
        def same(it, st, c): return [(st, dv(it, st, c.args[0]))]
        def kind(it, st, c):
            v = dv(it, st, c.args[0])
            if v[0] == 'y' and v[1][0] == 'call' and v[1][1] == 'IOERR': return [(st, ('e', 'core::io::error::ErrorKind', s.kinds.index(v[1][2][0][1]), ()))]
            return None
        def keq(neg):
            def h(it, st, c):
                a, b = (dv(it, st, x) for x in c.args[:2])
                return [(st, TRUE if (a == b) != neg else FALSE)] if a[0] == 'e' and b[0] == 'e' else None
            return h
        def fmt(it, st, c):
            # the text of an error message never decides anything
            return [(st, v)] if (v := it.deepval(st, c.args[0]))[0] == 's' else [(st, ('s', 'TEXT'))]
        def nxt(it, st, c):
            v = dv(it, st, c.args[0])
            if v[0] == 'y' and v[1][0] == 'call' and v[1][1] == 'LISTING': return [(st, mk(('call', 'NEXT', (v[1][2][0],))))]
            return None
        P = r'fusio::path::Path'
        from rules.wal_replay import corrupt
        return [(r'Dyn\w*Fs\w*::open_options$|Fs::open_options$', call('OPEN', opn)), (r'Fs::list$', call('LIST', lambda it, st, c: (('s', text(it, st, c.args[1])),))),
                (r'Fs::remove$', call('REMOVE', lambda it, st, c: (('s', text(it, st, c.args[1])),))), (r'Fs::create_dir_all$', call('MKDIR', lambda it, st, c: (('s', text(it, st, c.args[-1])),))),
                (r'Fs::file_system$', pure(s.tag)), (r'Read::read_to_end_at$|Dyn\w+::read_to_end_at$', call('READ', lambda it, st, c: (handle(it, st, c.args[0]), dv(it, st, c.args[1]), dv(it, st, c.args[2])))),
                (r'Read::size$|Dyn\w+::size$', call('SIZE', lambda it, st, c: (handle(it, st, c.args[0]),))), (r'Write::write_all$|Dyn\w+::write_all$', call('WRITE', lambda it, st, c: (handle(it, st, c.args[0]), dv(it, st, c.args[1])))),
                (r'Write::(flush|close)$|Dyn\w+::(flush|close)$|File\w*::sync_\w+$|::sync_all$|::sync_data$', call('FLUSH', lambda it, st, c: (handle(it, st, c.args[0]),))),
                (r'StreamExt::next$', nxt), (r'fusio::path::(\w+::)*Path(Part)?(::<.*>)?::parse$', parse), (r'Default::default$', lambda it, st, c: [(st, ('s', ''))] if c.ga and it.F.ty_s(c.ga[0]).endswith('path::Path') else None), (P + r'::filename$', filename), (P + r'::child(::<.*>)?$', child), (P + r'::prefix_matches$', prefix),
                (r'io::error::Error::kind$|io::Error::kind$', kind), (r'alloc::fmt::format$', None)] + frame_hooks()[:1]

    def awaits(s):
        def ev(it, st, e, good, bad=None):
            n = len(st.g('ev', ()))
            st.setg('ev', st.g('ev', ()) + (e,))
            if st.g('failat') == n:
                st.setg('w', 'fail')
                return [(st, bad or err(s.ioerr(st.g('failkind') or 'PermissionDenied')))]
            return good(st)
        files = lambda st: dict(st.g('fs', ()))
        def put(st, name, bs):
            d = files(st)
            if bs is None: d.pop(name, None)
            else: d[name] = bs
            st.setg('fs', tuple(sorted(d.items())))
        def opn(it, st, n, a, site, t):
            name, o = a[0][1], opts(a[1])
            def good(st):
                d = files(st)
                if name not in d:
                    if o['create'] != '1': return [(st, err(s.ioerr('NotFound')))]
                    put(st, name, ())
                elif o['truncate'] == '1': put(st, name, ())
                if o['truncate'] not in '01' or o['create'] not in '01': raise Missing(f'open options {o}')
                return [(st, ok(mk(('call', 'FILEOF', (('s', name),)))))]
            return ev(it, st, ('open', name) + ((o['write'], o['create'], o['truncate']) if '1' in (o['write'], o['create'], o['truncate']) else ()), good)
        def ls(it, st, n, a, site, t):
            root = a[0][1]
            def good(st):
                hidden = st.g('hidden', ())
                got = [x for x in reversed(sorted(files(st))) if not root or x.startswith(root + '/')]
                if root: got = [x for x in got if x not in hidden]
                if root and not st.g('rootdir'): return [(st, err(s.ioerr('NotFound')))]
                st.setg('ls', st.g('ls', ()) + ((tuple(got), 0),))
                return [(st, ok(mk(('call', 'LISTING', (('c', len(st.g('ls')) - 1),)))))]
            return ev(it, st, ('list', root), good)
        def nxt(it, st, n, a, site, t):
            i = a[0][1]
            got, k = st.g('ls')[i]
            if k >= len(got): return [(st, NONE)]
            def good(st):
                st.setg('ls', tuple((g, j + 1) if x == i else (g, j) for x, (g, j) in enumerate(st.g('ls'))))
                return [(st, some(ok(struct(s.ctx, 'fusio::fs::FileMeta', path=('s', got[k]), size=('c', len(files(st).get(got[k], ())))))))]
            return ev(it, st, ('entry', got[k]), good, some(err(s.ioerr('PermissionDenied'))))
        def rd(it, st, n, a, site, t):
            buf, pos = a[1], a[2]
            if buf[0] != 'a' or pos[0] != 'c': raise Missing('a read whose buffer or position is not known')
            def good(st):
                bs = files(st)[a[0][1]][pos[1]:]
                return [(st, ('t', (ok(UNIT), ('a', buf[1] + tuple(('c', x) for x in bs)))))]
            return ev(it, st, ('read', a[0][1]), good, ('t', (err(s.ioerr('PermissionDenied')), buf)))
        def wr(it, st, n, a, site, t):
            if not plain(a[1]): raise Missing('bytes written to a segment are not known')
            def good(st):
                put(st, a[0][1], files(st)[a[0][1]] + tuple(x[1] for x in a[1][1]))
                return [(st, ('t', (ok(UNIT), a[1])))]
            return ev(it, st, ('write', a[0][1]), good, ('t', (err(s.ioerr('PermissionDenied')), a[1])))
        def size(it, st, n, a, site, t): return ev(it, st, ('size', a[0][1]), lambda st: [(st, ok(('c', len(files(st)[a[0][1]]))))])
        def rm(it, st, n, a, site, t):
            def good(st):
                if a[0][1] not in files(st): return [(st, err(s.ioerr('NotFound')))]
                put(st, a[0][1], None); return [(st, ok(UNIT))]
            return ev(it, st, ('remove', a[0][1]), good)
        unit = lambda k: lambda it, st, n, a, site, t: ev(it, st, (k, a[0][1]), lambda st: [(st, ok(UNIT))])
        return [('^OPEN$', opn), ('^LIST$', ls), ('^NEXT$', nxt), ('^READ$', rd), ('^WRITE$', wr), ('^SIZE$', size), ('^REMOVE$', rm), ('^FLUSH$', unit('flush')), ('^MKDIR$', unit('mkdir'))]

    def run(s, fn, files, args=None, failat=None, failkind=None, hidden=(), more=(), moreaw=(), root=True, setup=None):
        """[(0 for success, value, files afterwards, events, state)]"""
        ctx = s.ctx
        st = State()
        it = Interp(ctx.F, CQ(exact=True))
        st.setg('fs', tuple(sorted((k, tuple(v)) for k, v in files.items())))
        if hidden: st.setg('hidden', tuple(hidden))
        if root: st.setg('rootdir', 1)
        if failat is not None: st.setg('failat', failat)
        if failkind: st.setg('failkind', failkind)
        a = {} if 0 in args else {0: it.tmp(st, 0, 'self', s.storage)}
        for k, v in (args or {}).items(): a[k] = v(it, st) if callable(v) else v
        if setup: setup(it, st)
        old, exact.LIM = exact.LIM, 2000
        try: it, outs = ctx.run(fn, CQ(exact=True, calls=list(more) + [h for h in s.hooks() if h[1]], awaits=list(moreaw) + s.awaits(), max_states=600, max_steps=4000000), args=a, st=st)
        finally: exact.LIM = old
        res = []
        for o in outs:
            for x, vi, w in it.split(o.st, it.rd(o.st, o.v), RESULT):
                res.append((vi, it.deepval(x, it.rd(x, w[3][0])), dict(x.g('fs', ())), x.g('ev', ()), x))
        return res

class Frames:
    """frames as the code under analysis encodes them"""
    def __init__(s, ctx):
        s.ctx = ctx
        s.cmd, s.ev, s.encode, s.decode, s.enc, s.dec, s.ft = codec(ctx)
        s.FA = ctx.adt('wal::frame::Frame'); s.ib = ctx.fn('crate::wal::frame::Frame::into_bytes')
        s.TS = ctx.adt('mvcc::Timestamp'); s.memo = {}
    def event(s, kind, pid, ts=None):
        f = {'provisional_id': ('c', pid)}
        if ts is not None: f['commit_ts'] = ('e', s.TS, 0, (('c', ts),))
        return s.ev(kind, **f), s.cmd(kind, **f)
    def raw(s, kind, pl, seq):
        k = (kind, tuple(pl), seq)
        if k not in s.memo:
            it, outs = frun(s.ctx, s.ib, [struct(s.ctx, s.FA, frame_type=s.ft(kind), payload=bytesv(pl)), ('c', seq)])
            vs = [it.deepval(o.st, o.v) for o in outs]
            if len(vs) != 1 or not plain(vs[0]): raise Missing('the bytes of an encoded frame are not known')
            s.memo[k] = tuple(x[1] & 255 for x in vs[0][1])
        return s.memo[k]
    def frame(s, seq, kind, pid, ts=None):
        """(bytes, event, seq, id)"""
        e, c = s.event(kind, pid, ts)
        k = ('pl', kind, pid, ts)
        if k not in s.memo:
            got = s.encode(c)
            if len(got) != 1 or got[0][0] != 'ok' or len(got[0][1]) != 1 or not plain(got[0][1][0][1]): raise Missing(f'the payload of a {kind} frame is not known')
            s.memo[k] = [x[1] & 255 for x in got[0][1][0][1][1]]
        return s.raw(kind, s.memo[k], seq), e, seq, pid

def logs(ctx):
    """named logs: [(segment number, frames)]; a frame is (bytes, event, sequence, id)"""
    F = Frames(ctx)
    B, C, A = lambda q, p: F.frame(q, 'TxnBegin', p), lambda q, p, t=9: F.frame(q, 'TxnCommit', p, t), lambda q, p: F.frame(q, 'TxnAbort', p)
    S1, S2, S4 = (1, [B(1, 4), C(2, 4), B(3, 3)]), (2, [C(4, 3, 11), B(5, 9), A(6, 9), B(7, 2)]), (4, [B(8, 1), C(9, 1, 12)])
    out = {'none': [], 'empty': [(2, [])], 'one': [S2], 'single-frame': [(3, [B(5, 6)])], 'three': [S1, S2, S4], 'two': [S2, S4], 'empty-first': [(2, []), S4], 'empty-middle': [S1, (2, []), S4], 'empty-last': [S1, S2, (4, [])],
           'id-first': [(1, [B(1, 77)]), S2], 'wide': [(9, [B(255, 256)]), (10, [C(256, 256, 300), B(257, 255)])]}
    def tails(frames, seq=50):
        """what a crash may leave behind after the last complete frame, and damage a crash cannot explain"""
        nx = F.frame(seq, 'TxnCommit', 99, 77)[0]
        hdr = len(nx) - 16
        torn = {f'cut{n}': nx[:n] for n in (1, 4, hdr - 1, hdr, hdr + 1, len(nx) - 1)}
        bad = {'magic': (0,) * (hdr + 4), 'flipped': nx[:-1] + (nx[-1] ^ 1,), 'flipped-then-more': nx[:-1] + (nx[-1] ^ 1,) + nx}
        return torn, bad
    return F, out, tails
def files_of(log, tail=()):
    d = {segname(n): sum((f[0] for f in fr), ()) for n, fr in log}
    if log and tail: d[segname(log[-1][0])] += tuple(tail)
    return d
FOREIGN = {f'{ROOT}/state.json': (1, 2, 3), f'{ROOT}/wal-0000000000000000003.tonwal': (4,), f'{ROOT}/wal-000000000000000000003.tonwal': (4,), f'{ROOT}/wal-00000000000000000003.tmp': (5,), f'{ROOT}/xwal-00000000000000000003.tonwal': (5,), f'{ROOT}/wal-0000000000000000000x.tonwal': (6,), 'other/wal-00000000000000000003.tonwal': (7,)}
def changed(before, after): return sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
def brief(log): return [(n, [f[2] for f in fr]) for n, fr in log]

def state_hooks(ctx, known, fail):
    """the persisted writer state, naming the newest segment known to it"""
    SH, ST_ = ctx.adt('wal::state::WalStateHandle'), ctx.adt('wal::state::WalState')
    v = struct(ctx, SH, state=struct(ctx, ST_, last_segment_seq=NONE if known is None else some(('c', known))))
    return ([(r'WalStateHandle::load$', lambda it, st, c: [(st, mk(('call', 'STATE', (it.deepval(st, c.args[-1]),))))])],
            [('^STATE$', lambda it, st, n, a, site, t: [(st, err(mk(('staterr',))) if fail or a[0] != ('s', ROOT) else ok(v))])])

@rule('W05', 'W06')
def replay_disk(ctx):
    """replaying directories of concrete segment files: every complete frame at or above the floor, in order; a torn end ends the replay, everything else is an error"""
    K = 'replay_disk'
    fn = ctx.fn(RP + 'scan_with_floor')
    F, L, tails = logs(ctx)
    D = Disk(ctx)
    RA, CF, RF, RM = ctx.adt('wal::replay::Replayer'), ctx.adt('wal::WalConfig'), ctx.adt('WalSegmentRef'), ctx.adt('wal::WalRecoveryMode')
    modes = [v['n'] for v in ctx.F.adts[RM]['v']]
    def go(files, floor=None, mode='PointInTime', **kw):
        self_ = lambda it, st: it.tmp(st, 0, 'rp', struct(ctx, RA, cfg=struct(ctx, CF, recovery=('e', RM, modes.index(mode), ()), state_store=NONE), storage=D.storage))
        fl = lambda it, st: NONE if floor is None else some(it.tmp(st, 0, 'fl', struct(ctx, RF, seq=('c', floor[0]), first_frame=('c', floor[1]), last_frame=('c', floor[1] + 3), file_id=arg('FID'))))
        return D.run(fn, files, {0: self_, 1: fl}, **kw)
    def want(log, floor): return ('a', tuple(f[1] for n, fr in log for f in fr if not floor or n > floor[0] or n == floor[0] and f[2] >= floor[1]))
    def show(r): return 'an error' if r[0] else f'{len(r[1][1])} events' if r[1][0] == 'a' else path(r[1])[:80]
    def ck(key, log, files, floor, mode='PointInTime', fails=False, what=''):
        res = go(files, floor, mode)
        w = want(log, floor)
        bad = [r for r in res if (r[0] == 1) != fails or not fails and r[1] != w or changed(files, r[2])]
        ctx.ob(K, key, res and not bad, f'replaying {brief(log)}{what} from floor {floor}' + (f' gives {show(bad[0])}, expected {"an error" if fails else str(len(w[1])) + " events"}' + (f' and changes {changed(files, bad[0][2])}' if changed(files, bad[0][2]) else '') if bad else ' never ends'), ctx.loc(fn))
        return res
    floors = [None, (1, 1), (1, 3), (2, 4), (2, 6), (2, 7), (2, 8), (3, 8), (4, 9), (4, 10), (5, 11), (2, 1)]
    for name, log in L.items():
        for floor in floors if name in ('three', 'empty-middle', 'one', 'empty-last') else floors[:1] + floors[4:5]:
            ck(f'{name}:{floor}'.replace(' ', ''), log, dict(files_of(log), **FOREIGN), floor)
    for name in ('one', 'three', 'empty', 'empty-last'):
        log = L[name]
        torn, bad = tails(log[-1][1])
        for floor in (None, (2, 6)):
            for t, b in torn.items(): ck(f'torn:{name}:{floor}:{t}'.replace(' ', ''), log, files_of(log, b), floor, what=f' ending in {len(b)} bytes of a frame')
            for t, b in bad.items(): ck(f'damaged:{name}:{floor}:{t}'.replace(' ', ''), log, files_of(log, b), floor, fails=True, what=f' followed by damage ({t})')
    # damage in the middle, with good frames after it
    log = L['three']
    for i, pos in ((0, 2), (0, -1), (1, 30), (2, 0), (2, -2)):
        f = files_of(log); nm = segname(log[i][0]); b = list(f[nm]); b[pos] ^= 0x10; f[nm] = tuple(b)
        ck(f'flipped:{i}:{pos}', log, f, None, fails=True, what=f' with byte {pos} of segment {log[i][0]} damaged')
    # what lies wholly below the floor is not read at all
    f = files_of(log); f[segname(1)] = (1,) * 40
    ck('below-floor-damaged', log, f, (2, 4), what=' with damage below the floor')
    # a frame of a kind nothing decodes
    log = L['one']
    for kind, pl in (('TypedAppend', [0] * 16), ('TxnAppend', [0] * 16), ('TxnBegin', [1, 2, 3])):
        f = files_of(log, F.raw(kind, pl, 60)); ck(f'undecodable:{kind}', log, f, None, fails=True, what=f' followed by a {kind} frame that cannot be decoded')
        f = files_of(log, F.raw(kind, pl, 60) + log[0][1][0][0]); ck(f'undecodable-then-more:{kind}', log, f, None, fails=True, what=f' followed by a {kind} frame that cannot be decoded and more')
    for m in modes:
        res = go(files_of(L['three']), None, m)
        ctx.ob(K, f'mode:{m}', res and all(r[0] or r[1] == want(L['three'], None) for r in res), f'in recovery mode {m} a sound log replays as {[show(r) for r in res]}', ctx.loc(fn))
    # no directory yet
    res = go({}, None, root=False)
    ctx.ob(K, 'no-directory', res and all(r[0] == 0 and r[1] == ('a', ()) for r in res), f'a log that does not exist replays as {[show(r) for r in res]}', ctx.loc(fn))
    # the recorded newest segment is looked for when an object store's listing lags
    S = Disk(ctx, 'S3')
    for known, full in ((4, True), (2, False), (None, False)):
        for failat in (None, 'state'):
            more, aw = state_hooks(ctx, known, failat)
            rp = lambda it, st: it.tmp(st, 0, 'rp', struct(ctx, RA, cfg=struct(ctx, CF, recovery=('e', RM, modes.index('PointInTime'), ()), state_store=some(arg('STORE'))), storage=S.storage))
            res = S.run(fn, files_of(L['three']), {0: rp, 1: NONE}, hidden=(segname(4),), more=more, moreaw=aw)
            w = want(L['three'] if full else L['three'][:2], None)
            ctx.ob(K, f'lagging:{known}:{failat}', res and all(r[0] == 1 if failat else r[0] == 0 and r[1] == w for r in res), f'with segment 4 missing from a lagging listing, segment {known} recorded{", and the record unreadable" if failat else ""}, replay gives {[show(r) for r in res][:1]}', ctx.loc(fn))
    files = files_of(L['three'])
    for k, e, res in [(k, e, go(files, None, failat=k)) for k, e in enumerate(go(files)[0][3])]:
        ctx.ob(K, f'fails:{k}', res and all(r[0] == 1 for r in res), f'replay succeeds although {" ".join(e[:2])} fails', ctx.loc(fn))
    ctx.need(K, 100)

SDF = ('seq', 'path', 'bytes')
def descs(ctx, v):
    SD = ctx.adt('wal::storage::SegmentDescriptor')
    if v[0] != 'a': raise Missing(f'a list of segments that is not known: {path(v)[:120]}')
    return [desc(ctx, x) for x in v[1]]
def desc(ctx, x):
    SD = ctx.adt('wal::storage::SegmentDescriptor')
    return tuple(x[3][ctx.fieldix(SD, n)][1] for n in SDF)
def wanted(files, root=ROOT):
    out = []
    for k, b in files.items():
        m = re.fullmatch(re.escape(root) + r'/wal-(\d{20})\.tonwal', k)
        if m: out.append((int(m.group(1)), k, len(b)))
    return sorted(out)

@rule('W05', 'W06', 'W07')
def listing_disk(ctx):
    """listing concrete directories: every segment file once, by number, with its size; foreign files ignored; a listing that fails is an error, a missing directory an empty log"""
    K = 'listing_disk'
    fn = ctx.fn(WS + 'list_segments_with_hint')
    F, L, tails = logs(ctx)
    for be in ('Local', 'Memory', 'S3'):
        D = Disk(ctx, be)
        def go(files, hint=None, **kw): return D.run(fn, files, {1: NONE if hint is None else some(('c', hint))}, **kw)
        for name in ('none', 'one', 'three', 'empty-last', 'wide'):
            for fo in ({}, FOREIGN):
                for hint in (None, 4, 77):
                    files = dict(files_of(L[name]), **fo)
                    res = go(files, hint)
                    bad = [r for r in res if r[0] or descs(ctx, r[1]) != wanted(files) or changed(files, r[2])]
                    ctx.ob(K, f'{be}:{name}:{len(fo)}:{hint}', res and not bad, f'listing {sorted(files)} ({be}, expecting segment {hint}) gives {"an error" if bad and bad[0][0] else bad and descs(ctx, bad[0][1])}', ctx.loc(fn))
        files = dict(files_of(L['three']), **FOREIGN)
        # an object store whose prefix listing lags: the recorded newest segment triggers a listing of everything
        for hid in ((segname(4),), (segname(2), segname(4))):
            for hint in (None, 2, 4):
                res = go(files, hint, hidden=hid)
                full = be == 'S3' and hint is not None and segname(hint) in hid
                w = [x for x in wanted(files) if full or x[1] not in hid]
                bad = [r for r in res if r[0] or descs(ctx, r[1]) != w]
                ctx.ob(K, f'lagging:{be}:{len(hid)}:{hint}', res and not bad, f'a {be} listing that misses {hid}, expecting segment {hint}, gives {"an error" if bad and bad[0][0] else bad and descs(ctx, bad[0][1])}', ctx.loc(fn))
                for k, e in enumerate(res[0][3] if res else ()):
                    r2 = go(files, hint, hidden=hid, failat=k)
                    ctx.ob(K, f'fails:{be}:{len(hid)}:{hint}:{k}', r2 and all(r[0] == 1 for r in r2), f'the listing succeeds although {" ".join(e[:2])} fails', ctx.loc(fn))
        res = go({}, root=False)
        ctx.ob(K, f'no-directory:{be}', res and all(r[0] == 0 and r[1] == ('a', ()) for r in res), 'a log that does not exist yet is not listed as empty', ctx.loc(fn))
    ctx.need(K, 60)

@rule('W06')
def prune_disk(ctx):
    """pruning concrete directories: exactly the segment files numbered below the floor go, nothing else is touched, a dry run and a failure are reported as such"""
    K = 'prune_disk'
    F, L, tails = logs(ctx)
    pb, pw = ctx.fn(WS + 'prune_below'), ctx.fn('crate::wal::manifest_ext::prune_wal_segments')
    CF, RF = ctx.adt('wal::WalConfig'), ctx.adt('WalSegmentRef')
    D = Disk(ctx)
    def cfg(dry): return lambda it, st: it.tmp(st, 0, 'cfg', struct(ctx, CF, prune_dry_run=TRUE if dry else FALSE, segment_backend=arg('FS'), dir=('s', ROOT)))
    def ref(n): return lambda it, st: it.tmp(st, 0, 'ref', struct(ctx, RF, seq=('c', n), first_frame=('c', 10), last_frame=('c', 20), file_id=arg('FID')))
    def ck(key, f, files, floor, dry, **kw):
        res = D.run(pb, files, {1: ('c', floor)}, **kw) if f is pb else D.run(f, files, {0: cfg(dry), 1: ref(floor)}, **kw)
        gone = [p for n, p, b in wanted(files) if n < floor]
        bad = [r for r in res if r[0] or r[1] != ('c', len(gone)) or changed(files, r[2]) != ([] if dry else sorted(gone))]
        ctx.ob(K, key, res and not bad, f'pruning {sorted(files)} to floor {floor}{" (dry run)" if dry else ""} ' + (('fails' if bad[0][0] else f'reports {path(bad[0][1])}') + f' and changes {changed(files, bad[0][2])}' if bad else 'never ends'), ctx.loc(f))
        return res
    for name in ('none', 'one', 'three', 'empty-middle', 'empty-last', 'wide'):
        files = dict(files_of(L[name]), **FOREIGN)
        for floor in (0, 1, 2, 3, 4, 5, 9, 10, 11):
            ck(f'storage:{name}:{floor}', pb, files, floor, False)
            for dry in (False, True): ck(f'manifest:{name}:{floor}:{dry}', pw, files, floor, dry)
    files = files_of(L['three'])
    for f, dry in ((pb, False), (pw, False), (pw, True)):
        clean = ck(f'clean:{f["key"].rsplit("::", 1)[-1]}:{dry}', f, files, 4, dry)
        for k, e in enumerate(clean[0][3] if clean else ()):
            res = D.run(pb, files, {1: ('c', 4)}, failat=k) if f is pb else D.run(f, files, {0: cfg(dry), 1: ref(4)}, failat=k)
            keep = [p for n, p, b in wanted(files) if n >= 4]
            ctx.ob(K, f'fails:{f["key"].rsplit("::", 1)[-1]}:{dry}:{k}', res and all(r[0] == 1 and not set(changed(files, r[2])) & set(keep) for r in res), f'pruning reports success although {" ".join(e[:2])} fails', ctx.loc(f))
    ctx.need(K, 60)

@rule('W05', 'W07', 'W06')
def open_disk(ctx):
    """opening a segment by number opens exactly that file for appending, creating it when new and never cutting an existing one; removing removes exactly the file named"""
    K = 'open_disk'
    F, L, tails = logs(ctx)
    op, rm = ctx.fn(WS + 'open_segment'), ctx.fn(WS + 'remove_segment')
    SG = ctx.adt('wal::storage::WalSegment')
    D = Disk(ctx)
    for name in ('none', 'three'):
        files = files_of(L[name])
        for n in (1, 2, 3, 4, 12, 12345678901234567890):
            res = D.run(op, files, {1: ('c', n)})
            after = dict(files); after.setdefault(segname(n), ())
            bad = [r for r in res if r[0] or r[2] != after or r[1][3][ctx.fieldix(SG, 'path')] != ('s', segname(n)) or path(r[1][3][ctx.fieldix(SG, 'file')]) != path(mk(('call', 'FILEOF', (('s', segname(n)),)))) or not any(e[0] == 'open' and len(e) > 2 and e[2] == '1' for e in r[3])]
            ctx.ob(K, f'open:{name}:{n}', res and not bad, f'opening segment {n} ' + (('fails' if bad[0][0] else f'gives {path(bad[0][1])[:120]}') + f' by {bad[0][3]}' if bad else 'never ends'), ctx.loc(op))
            for k, e in enumerate(res[0][3] if res else ()):
                r2 = D.run(op, files, {1: ('c', n)}, failat=k)
                ctx.ob(K, f'open-fails:{name}:{n}:{k}', r2 and all(r[0] == 1 for r in r2), f'opening segment {n} succeeds although {" ".join(e[:2])} fails', ctx.loc(op))
    files = dict(files_of(L['three']), **FOREIGN)
    for p in sorted(files):
        res = D.run(rm, files, {1: ('s', p)})
        ctx.ob(K, f'remove:{p}', res and all(r[0] == 0 and changed(files, r[2]) == [p] for r in res), f'removing {p} changes {[changed(files, r[2]) for r in res]}', ctx.loc(rm))
    res = D.run(rm, files, {1: ('s', segname(1))}, failat=0)
    ctx.ob(K, 'remove-fails', res and all(r[0] == 1 for r in res), 'a segment that cannot be removed is reported as removed', ctx.loc(rm))

@rule('W05', 'W02', 'W07', 'W10', 'W06')
def tail_disk(ctx):
    """inspecting the tail of concrete logs: newest segment, older segments, last frame number and highest transaction id over every complete frame; only an incomplete end is cut off, and only when no writer can be appending"""
    K = 'tail_disk'
    F, L, tails = logs(ctx)
    rep, live = ctx.fn(WS + 'tail_metadata_with_hint'), ctx.fn(WS + 'live_tail_metadata_with_hint')
    TM = ctx.adt('wal::storage::TailMetadata')
    D = Disk(ctx)
    opt = lambda v: None if v == NONE else v[3][0][1] if v[0] == 'e' and v[3][0][0] == 'c' else path(v)
    def go(fn, files, hint=None, **kw): return D.run(fn, files, {1: NONE if hint is None else some(('c', hint))}, **kw)
    def view(v):
        if v == NONE: return None
        g = lambda n: v[3][0][3][ctx.fieldix(TM, n)]
        return desc(ctx, g('active')), tuple(descs(ctx, g('completed'))), opt(g('last_frame_seq')), opt(g('last_provisional_id'))
    def want(log, more=()):
        if not log: return None
        d = [(n, segname(n), sum(len(f[0]) for f in fr)) for n, fr in log]
        fs = [f for n, fr in log for f in fr]
        return d[-1], tuple(d[:-1]), max((f[2] for f in fs), default=None), max((f[3] for f in fs), default=None)
    def ck(key, log, files, fails=False, what=''):
        # complete frames of the files, cut where a crash left an incomplete one
        for fn, cut in ((rep, True), (live, False)):
            res = go(fn, files)
            after = dict(files)
            if cut and log and not fails: after[segname(log[-1][0])] = sum((f[0] for f in log[-1][1]), ())
            w = want(log)
            bad = [r for r in res if (r[0] == 1) != fails or not fails and (view(r[1]) != w or r[2] != after) or fails and r[2] != files or any(e[0] in ('write', 'remove') or e[0] == 'open' and len(e) > 2 for e in r[3]) and not cut or files == after and any(e[0] in ('write', 'remove') for e in r[3])]
            nm = fn['key'].rsplit('::', 1)[-1]
            ctx.ob(K, f'{key}:{nm}', res and not bad, f'{nm} on {brief(log)}{what} ' + (f'gives {"an error" if bad[0][0] else view(bad[0][1])}, expected {"an error" if fails else w}; files changed: {changed(files, bad[0][2])}, should change: {changed(files, after)}' if bad else 'never ends'), ctx.loc(fn))
    for name, log in L.items():
        ck(name, log, dict(files_of(log), **FOREIGN))
        if name not in ('one', 'three', 'empty', 'empty-last', 'id-first'): continue
        torn, bad = tails(log[-1][1])
        for t, b in torn.items(): ck(f'torn:{name}:{t}', log, files_of(log, b), what=f' ending in {len(b)} bytes of a frame')
        for t, b in bad.items(): ck(f'damaged:{name}:{t}', log, files_of(log, b), fails=True, what=f' followed by damage ({t})')
    # transaction ids are recovered whatever kind of frame carries them
    for kind in ('TxnBegin', 'TxnCommit', 'TxnAbort', 'TxnAppend'):
        for at in (0, 1):
            pl = [0] * 8 + [1] * 8 if kind == 'TxnAppend' else None
            mkf = lambda q, p: (F.raw(kind, list(p.to_bytes(8, 'little')) + [0] * 8, q), None, q, p) if pl else F.frame(q, kind, p, 5 if kind == 'TxnCommit' else None)
            base = [F.frame(1, 'TxnBegin', 3), F.frame(2, 'TxnAbort', 3)]
            for pid in (2, 3, 4, 0x0100000000000000):
                fr = [mkf(9, pid)] + base if not at else base + [mkf(9, pid)]
                log = [(1, fr)]
                # frame numbers ascend in a sound log
                fr2 = [(f[0], f[1], i + 1, f[3]) for i, f in enumerate(fr)]
                fr2 = [((mkf(i + 1, pid) if f[3] == pid and (i == (0 if not at else 2)) else F.frame(i + 1, 'TxnBegin', 3))) for i, f in enumerate(fr2)]
                ck(f'ids:{kind}:{at}:{pid}', [(1, fr2)], files_of([(1, fr2)]))
                ck(f'ids-old:{kind}:{at}:{pid}', [(1, fr2), (2, [F.frame(7, 'TxnBegin', 1)])], files_of([(1, fr2), (2, [F.frame(7, 'TxnBegin', 1)])]))
    # a seal marker carries no id
    sm = (F.raw('SealMarker', [], 8), None, 8, 0)
    log = [(1, [F.frame(7, 'TxnBegin', 3), sm])]
    ck('seal', log, files_of(log))
    # damage in older segments
    log = L['three']
    for i, pos in ((0, 2), (1, 30)):
        f = files_of(log); nm = segname(log[i][0]); b = list(f[nm]); b[pos] ^= 0x10; f[nm] = tuple(b)
        ck(f'flipped:{i}:{pos}', log, f, fails=True, what=f' with byte {pos} of segment {log[i][0]} damaged')
    for fn in (rep, live):
        nm = fn['key'].rsplit('::', 1)[-1]
        torn, _ = tails(log[-1][1])
        files = files_of(log, torn['cut4'])
        clean = go(fn, files)
        for k, e in enumerate(clean[0][3] if clean else ()):
            res = go(fn, files, failat=k)
            ctx.ob(K, f'fails:{nm}:{k}', res and all(r[0] == 1 for r in res), f'{nm} succeeds although {" ".join(e[:2])} fails', ctx.loc(fn))
            keep = {segname(n): sum((x[0] for x in fr), ()) for n, fr in log[:-1]}
            ctx.ob(K, f'fails-intact:{nm}:{k}', all(all(r[2].get(p) == b for p, b in keep.items()) for r in res), f'a failure of {" ".join(e[:2])} damages a completed segment', ctx.loc(fn))
        S = Disk(ctx, 'S3')
        for hint, hid in ((4, (segname(4),)), (2, ())):
            res = S.run(fn, files_of(log), {1: some(('c', hint))}, hidden=hid)
            ctx.ob(K, f'hint:{nm}:{hint}', res and all(r[0] == 0 and view(r[1]) == want(log) for r in res), f'{nm} of a lagging listing gives {[("error" if r[0] else view(r[1])) for r in res][:1]}', ctx.loc(fn))
        res = go(fn, {}, root=False)
        ctx.ob(K, f'no-directory:{nm}', res and all(r[0] == 0 and r[1] == NONE for r in res), f'{nm} of a log that does not exist', ctx.loc(fn))
    ctx.need(K, 100)

@rule('W06', 'W07', 'W08', 'W01')
def needed_disk(ctx):
    """the segments recorded as needed, over concrete logs and every pair of floors: number, identity and exact frame range of each segment that still matters; the log is never changed, whatever a writer is appending"""
    K = 'needed_disk'
    fn = ctx.fn('crate::wal::manifest_ext::collect_wal_segment_refs')
    fid = ctx.fn('crate::wal::wal_segment_file_id')
    fb, fw = ctx.fn(WS + 'segment_frame_bounds'), ctx.fn(WS + 'segment_frame_bounds_within')
    F, L, tails = logs(ctx)
    CF, RF, SB = ctx.adt('wal::WalConfig'), ctx.adt('WalSegmentRef'), ctx.adt('wal::storage::SegmentFrameBounds')
    D = Disk(ctx)
    ids = {}
    def ident(n):
        if n not in ids:
            it, outs = ctx.run(fid, CQ(exact=True), args=[('c', n)])
            ids[n] = path(it.deepval(outs[0].st, outs[0].v)) if len(outs) == 1 else None
        return ids[n]
    def cfg(it, st): return it.tmp(st, 0, 'cfg', struct(ctx, CF, state_store=NONE, segment_backend=arg('FS'), dir=('s', ROOT)))
    def go(files, mf, lf, **kw):
        m = lambda it, st: NONE if mf is None else some(it.tmp(st, 0, 'mf', struct(ctx, RF, seq=('c', mf), file_id=arg('FID'), first_frame=('c', 1), last_frame=('c', 2))))
        return D.run(fn, files, {0: cfg, 1: m, 2: NONE if lf is None else some(('c', lf))}, **kw)
    def view(v):
        g = lambda x, n: x[3][ctx.fieldix(RF, n)]
        if v[0] != 'a': raise Missing(f'the segments recorded are not known: {path(v)[:100]}')
        return [(g(x, 'seq')[1], path(g(x, 'file_id')), g(x, 'first_frame')[1], g(x, 'last_frame')[1]) for x in v[1]]
    def want(log, mf, lf): return [(n, ident(n), fr[0][2], fr[-1][2]) for n, fr in log if fr and (lf is not None and fr[-1][2] >= lf or mf is None or n > mf)]
    for name, log in L.items():
        torn, bad_ = tails(log[-1][1]) if log else ({}, {})
        for mf in (None, 1, 2, 4):
            for lf in (None, 1, 3, 4, 7, 8, 9, 10):
                if name not in ('three', 'empty-middle', 'empty-last') and (mf, lf) not in ((None, None), (2, 7), (1, 3), (4, 9)): continue
                for t in (None, 'cut4', 'cut1', list(torn)[-1]) if log and (mf, lf) in ((None, None), (2, 7), (2, None)) else (None,):
                    files = dict(files_of(log, torn[t] if t else ()), **FOREIGN)
                    res = go(files, mf, lf)
                    w = want(log, mf, lf)
                    bad = [r for r in res if r[0] or view(r[1]) != w or r[2] != files or any(e[0] in ('write', 'remove', 'mkdir') or e[0] == 'open' and len(e) > 2 for e in r[3])]
                    ctx.ob(K, f'{name}:{mf}:{lf}:{t}', res and not bad, f'segments {brief(log)}{" with an unfinished append" if t else ""}, recorded floor {mf}, live floor {lf}: ' + (f'recorded {"an error" if bad[0][0] else view(bad[0][1])}, needed {w}; operations on the log: {[e for e in bad[0][3] if e[0] in ("write", "remove", "mkdir") or e[0] == "open" and len(e) > 2]}' if bad else 'never ends'), ctx.loc(fn))
    log = L['three']
    files = files_of(log)
    for k, e in enumerate(next((r[3] for r in go(files, None, None)), ())):
        res = go(files, None, None, failat=k)
        ctx.ob(K, f'fails:{k}', res and all(r[0] == 1 for r in res), f'the needed segments are reported although {" ".join(e[:2])} fails', ctx.loc(fn))
    S = Disk(ctx, 'S3')
    for known, full in ((4, True), (2, False), (None, False)):
        for failat in (None, 'state'):
            more, aw = state_hooks(ctx, known, failat)
            c2 = lambda it, st: it.tmp(st, 0, 'cfg', struct(ctx, CF, state_store=some(arg('STORE')), segment_backend=arg('FS'), dir=('s', ROOT)))
            res = S.run(fn, files, {0: c2, 1: NONE, 2: NONE}, hidden=(segname(4),), more=more, moreaw=aw)
            w = want(log if full else log[:2], None, None)
            ctx.ob(K, f'lagging:{known}:{failat}', res and all(r[0] == 1 if failat else r[0] == 0 and view(r[1]) == w for r in res), f'with segment 4 missing from a lagging listing, segment {known} recorded{", and the record unreadable" if failat else ""}: needed {[("error" if r[0] else view(r[1])) for r in res][:1]}', ctx.loc(fn))
    for i, pos in ((0, 2), (1, 30)):
        f = files_of(log); nm = segname(log[i][0]); b = list(f[nm]); b[pos] ^= 0x10; f[nm] = tuple(b)
        res = go(f, None, None)
        ctx.ob(K, f'flipped:{i}:{pos}', res and all(r[0] == 1 for r in res), f'a damaged segment {log[i][0]} goes unnoticed', ctx.loc(fn))
    ns = (0, 1, 2, 255, 256, 257, 65536, 2**32, 2**63, 2**64 - 1)
    ctx.ob(K, 'identity', len({ident(n) for n in ns}) == len(ns) and None not in {ident(n) for n in ns}, f'distinct segment numbers share an identity: {[ident(n) for n in ns][:4]}', ctx.loc(fid))
    # ranges of single files
    bv = lambda v: None if v == NONE else tuple(v[3][0][3][ctx.fieldix(SB, n)][1] for n in ('first_seq', 'last_seq'))
    for name in ('one', 'three', 'empty', 'wide', 'single-frame'):
        for n, fr in L[name]:
            p = segname(n); files = files_of(L[name])
            w = (fr[0][2], fr[-1][2]) if fr else None
            res = D.run(fb, files, {1: ('s', p)})
            ctx.ob(K, f'range:{name}:{n}', res and all(r[0] == 0 and bv(r[1]) == w and r[2] == files for r in res), f'segment {n} holding frames {[f[2] for f in fr]} is said to hold {[("error" if r[0] else bv(r[1])) for r in res]}', ctx.loc(fb))
            for k in range(len(res[0][3]) if res else 0):
                r2 = D.run(fb, files, {1: ('s', p)}, failat=k)
                ctx.ob(K, f'range-fails:{name}:{n}:{k}', r2 and all(r[0] == 1 for r in r2), f'the range of segment {n} is reported although {" ".join(res[0][3][k][:2])} fails', ctx.loc(fb))
            off = 0
            for i, x in enumerate(fr):
                off += len(x[0])
                res = D.run(fw, files, {1: ('s', p), 2: ('c', off)})
                ctx.ob(K, f'range-within:{name}:{n}:{i}', res and all(r[0] == 0 and bv(r[1]) == (fr[0][2], x[2]) for r in res), f'the first {i + 1} frames of segment {n} are said to be {[("error" if r[0] else bv(r[1])) for r in res]}', ctx.loc(fw))
            for cut in (1, 7) if fr else ():
                f = dict(files); f[p] = f[p][:-cut]
                res = D.run(fb, f, {1: ('s', p)})
                ctx.ob(K, f'range-torn:{name}:{n}:{cut}', res and all(r[0] == 1 for r in res), f'a segment cut {cut} bytes short has range {[bv(r[1]) for r in res if not r[0]]}', ctx.loc(fb))
    ctx.need(K, 80)
