"""WAL frame format: encode/decode agreement, rejection of damage, payload round trip."""
from core import *
import arrow as AW
import exact
from models import places
from rules.inmem import struct

FR = 'crate::wal::frame::'
U64 = (1 << 64) - 1
_T = [0] * 256
for _i in range(256):
    _c = _i
    for _ in range(8): _c = (_c >> 1) ^ (0x82F63B78 if _c & 1 else 0)
    _T[_i] = _c
def crc32c(bs, crc=0):
    crc ^= 0xFFFFFFFF
    for b in bs: crc = (crc >> 8) ^ _T[(crc ^ b) & 255]
    return crc ^ 0xFFFFFFFF

IPC = 'ipc.writer'
def frame_hooks(fault=None):
    """the checksum computed on concrete bytes; Arrow IPC streams as a sequence of schema, batch and end messages"""
    def crc(it, st, c):
        v = it.deepval(st, it.rd(st, c.args[-1]))
        if v[0] != 'a' or any(x[0] != 'c' for x in v[1]): raise Missing('crc32c over bytes that are not known')
        z = 0
        if c.short == 'crc32c_append':
            z = it.deepval(st, c.args[0])
            if z[0] != 'c': raise Missing('crc32c_append state')
            z = z[1]
        return [(st, ('c', crc32c([x[1] & 255 for x in v[1]], z)))]
    def outs(st, what, v):
        if fault != what: return [(st, ok(v))]
        st.setg('fault', 1)
        return [(st, err(mk(('ipcerr', what))))]
    def put(it, st, wr, msg):
        """append a message to the stream a writer writes to"""
        wv = it.rd(st, wr)
        tgt = wv[3][0]
        k = 0
        while tgt[0] == 'r' and k < 4:
            v = it.rd(st, tgt)
            if v[0] != 'r': break
            tgt = v; k += 1
        if tgt[0] == 'r':
            cur = it.deepval(st, it.rd(st, tgt))
            if cur[0] != 'a': raise Missing('an IPC stream written to an unknown buffer')
            for cell, proj in places(it, st, tgt)[:1]: it.store(st, cell, proj, ('a', cur[1] + (msg,)))
        else:
            cur = it.deepval(st, tgt)
            if cur[0] != 'a': raise Missing('an IPC stream written to an unknown buffer')
            nv = ('e', IPC, 0, (('a', cur[1] + (msg,)),) + wv[3][1:])
            if wr[0] != 'r': return nv
            for cell, proj in places(it, st, wr)[:1]: it.store(st, cell, proj, nv)
        return None
    def new(it, st, c):
        sch = it.deepval(st, it.rd(st, c.args[1]))
        w = ('e', IPC, 0, (c.args[0],))
        w = put(it, st, w, mk(('ipc', 'schema', sch))) or w
        return outs(st, 'new', w)
    def write(it, st, c):
        b = it.deepval(st, it.rd(st, c.args[1]))
        put(it, st, c.args[0], mk(('ipc', 'batch', b)))
        return outs(st, 'write', UNIT)
    def fin(it, st, c):
        put(it, st, c.args[0], mk(('ipc', 'end')))
        return outs(st, 'finish', UNIT)
    def into(it, st, c):
        w = it.rd(st, c.args[0])
        return [(st, ok(w[3][0]))]
    def getref(it, st, c):
        w = it.rd(st, c.args[0])
        return [(st, w[3][0])] if w[3][0][0] == 'r' else None
    def rd(it, st, c):
        v = it.deepval(st, it.rd(st, c.args[0]))
        if v[0] != 'a': raise Missing('an IPC stream read from unknown bytes')
        items, bad = [], False
        ms = [x[1] if x[0] == 'y' and x[1][0] == 'ipc' else None for x in v[1]]
        if not ms or ms[0] is None or ms[0][1] != 'schema': return [(st, err(mk(('ipcerr', 'schema'))))]
        for m in ms[1:]:
            if m is None or m[1] == 'schema': items.append(err(mk(('ipcerr', 'read')))); break
            if m[1] == 'end': break
            items.append(ok(m[2]))
        return [(st, ok(('it', 'xlist', tuple(items))))]
    def cursor(it, st, c): return [(st, c.args[0])]
    return [(r'crc32c::(crc32c|crc32c_append|hw::\w+|sw::\w+)$', crc), (r'StreamWriter::<W>::try_new(_with_options|_buffered)?$', new), (r'StreamWriter::<W>::write$', write), (r'StreamWriter::<W>::finish$', fin),
            (r'StreamWriter::<W>::into_inner$', into), (r'StreamWriter::<W>::get_(ref|mut)$', getref), (r'StreamReader::<.*>::try_new(_buffered|_unbuffered)?$', rd), (r'io::cursor::Cursor::<T>::(new|into_inner)$|io::Cursor::<T>::(new|into_inner)$', cursor)]

def tmpq(ctx, st, tag, v): return Interp(ctx.F, CQ(exact=True)).tmp(st, 0, ('x', tag), v)
def frun(ctx, fn, args, st=None, fault=None):
    old, exact.LIM = exact.LIM, 600  # a frame is a few dozen bytes
    try: return ctx.run(fn, CQ(exact=True, calls=frame_hooks(fault) + AW.hooks(), max_states=400), args=args, st=st or State())
    finally: exact.LIM = old
def bytesv(bs): return ('a', tuple(b if isinstance(b, tuple) else ('c', b) for b in bs))
def plain(v): return v[0] == 'a' and all(x[0] == 'c' for x in v[1])
def outcomes(it, outs):
    res = []
    for o in outs:
        for s, vi, w in it.split(o.st, o.v, RESULT): res.append(('ok', it.deepval(s, it.rd(s, w[3][0]))) if vi == 0 else ('err', None))
    return res

@rule('W03')
def frame_types(ctx):
    """frame type codes are unique and decode to the type they encode"""
    K = 'frame_types'
    A = ctx.adt('wal::frame::FrameType')
    enc = ctx.fn(FR + 'FrameType::as_u16')
    dec = ctx.impl('TryFrom', 'FrameType', 'try_from')
    codes = {}
    for i, v in enumerate(ctx.F.adts[A]['v']):
        it, outs = ctx.run(enc, args=[('e', A, i, ())])
        ps = sorted({p for o in outs for p in altpaths(it, o.st, o.v)})
        ctx.ob(K, f'code:{v["n"]}', len(ps) == 1 and ps[0].isdigit(), f'{v["n"]} encodes as {ps}', ctx.loc(enc))
        if len(ps) != 1 or not ps[0].isdigit(): continue
        codes.setdefault(ps[0], []).append(v['n'])
        it, outs = ctx.run(dec, args=[('c', int(ps[0]))])
        r = results(it, outs)
        got = sorted({path(f[0]) for s, f in r.get('Ok', [])})
        ctx.ob(K, f'decode:{v["n"]}', got == [f'FrameType#{i}'] and not r.get('Err'), f'code {ps[0]} of {v["n"]} decodes to {got}', ctx.loc(dec))
    for c, ns in codes.items(): ctx.ob(K, f'unique:{"+".join(ns)}', len(ns) == 1, f'types {ns} share code {c}', ctx.loc(enc))
    it, outs = ctx.run(dec, args=[('c', 4711)])
    ctx.ob(K, 'unknown', not results(it, outs).get('Ok'), 'an unknown frame type code is accepted', ctx.loc(dec))
    ctx.need(K, 12)

PAYLOADS = ([], [0], [7], [255, 0], [3, 1, 4, 1, 5])
SEQS = (1, 2, 255, 256, 0x0102030405060708, U64)

@rule('W03', 'W05')
def frame_header(ctx):
    """a frame header decodes to what was encoded, and any damaged header or payload is rejected (the encoder and the decoder evaluated on whole frames)"""
    K = 'frame_header'
    enc, dec = ctx.fn(FR + 'Frame::into_bytes'), ctx.fn(FR + 'FrameHeader::decode_from')
    hd = ctx.fn(FR + 'Frame::header')
    T, FA, H = ctx.adt('wal::frame::FrameType'), ctx.adt('wal::frame::Frame'), ctx.adt('wal::frame::FrameHeader')
    types = [('e', T, i, ()) for i in range(len(ctx.F.adts[T]['v']))]
    fx = [f[0] for f in ctx.F.adts[H]['v'][0]['f']]
    nm = lambda t: ctx.F.adts[T]['v'][t[2]]['n']
    def encode(t, seq, pl):
        it, outs = frun(ctx, enc, [struct(ctx, FA, frame_type=t, payload=bytesv(pl)), ('c', seq)])
        vs = [it.deepval(o.st, o.v) for o in outs]
        if len(vs) == 1 and not plain(vs[0]): raise Missing(f'the bytes of an encoded frame are not known: {path(vs[0])[:200]}')
        return [x[1] & 255 for x in vs[0][1]] if len(vs) == 1 else None
    def decode(bs):
        st = State()
        it, outs = frun(ctx, dec, [tmpq(ctx, st, 'in', bytesv(bs))], st)
        got = outcomes(it, outs)
        for k, v in got:
            if k != 'ok': continue
            h, rest = v[1]
            ns = [h[3][fx.index(n)] for n in fx if n != 'frame_type']
            if h[3][fx.index('frame_type')][0] != 'e' or any(n[0] != 'c' for n in ns) or not plain(rest): raise Missing(f'a decoded header is not known: {path(v)[:200]}')
        return got
    def view(v): return v[1][0][3][fx.index('frame_type')], v[1][0][3][fx.index('seq')][1], v[1][0][3][fx.index('len')][1], [x[1] for x in v[1][1][1]]
    def refused(key, bs, why):
        got = decode(bs)
        ctx.ob(K, key, got and all(k == 'err' for k, _ in got), why + (' is decoded as ' + str([view(v) for k, v in got if k == 'ok'][:1]) if got else ' makes the decoder stop'), ctx.loc(dec))
    def same(key, bs, t, seq, n, tail, why):
        got = decode(bs)
        ctx.ob(K, key, got and all(k == 'ok' and view(v) == (t, seq, n, tail) for k, v in got), f'{why} is decoded as {[k if k == "err" else view(v) for k, v in got][:2]}', ctx.loc(dec))
    frames = {}
    for t in types:
        for pl in PAYLOADS:
            for seq in SEQS if len(pl) == 2 or t is types[0] and not pl else (1, 0x0102030405060708):
                b = encode(t, seq, pl)
                if not ctx.ob(K, f'encode:{nm(t)}:{seq}:{pl}', b is not None, f'encoding a {nm(t)} frame with payload {pl} and sequence {seq} never finishes', ctx.loc(enc)): continue
                frames[t, seq, tuple(pl)] = b
                ctx.ob(K, f'payload-last:{nm(t)}:{seq}:{pl}', b[len(b) - len(pl):] == list(pl), f'a frame with payload {pl} ends with {b[-8:]}', ctx.loc(enc))
                for tail in ([], [9], [0] * 30) if seq == 1 else ([8, 7],):
                    same(f'decode:{nm(t)}:{seq}:{pl}:{tail}', b + tail, t, seq, len(pl), tail, f'a {nm(t)} frame with payload {pl}, sequence {seq} followed by {tail}')
    # a header computed for a payload describes that payload
    for t in types[:2]:
        st = State()
        it, outs = frun(ctx, hd, [tmpq(ctx, st, 'f', struct(ctx, FA, frame_type=t, payload=bytesv([1, 2, 3]))), ('c', 6)], st)
        vs = [it.deepval(o.st, o.v) for o in outs]
        want = {'frame_type': t, 'seq': ('c', 6), 'len': ('c', 3), 'crc32c': ('c', crc32c([1, 2, 3]))}
        ctx.ob(K, f'header:{nm(t)}', vs and all(v[3][fx.index(k)] == w for v in vs for k, w in want.items() if k in fx), f'the header of a three-byte {nm(t)} frame is {[path(v) for v in vs[:1]]}', ctx.loc(hd))
    # consecutive frames are read one after another
    for (t1, p1), (t2, p2) in (((types[1], (3, 1, 4, 1, 5)), (types[2], (255, 0))), ((types[0], ()), (types[1], (7,)))):
        a, b = frames.get((t1, 1, p1)), frames.get((t2, 0x0102030405060708, p2))
        if a and b: same(f'consecutive:{nm(t1)}:{nm(t2)}', a + b, t1, 1, len(p1), b, 'the first of two consecutive frames')
    # damage
    smp = [(k, frames[k]) for k in ((types[1], 0x0102030405060708, (3, 1, 4, 1, 5)), (types[2], 1, (255, 0)), (types[4], 1, ())) if k in frames]
    for (t, seq, pl), b in smp:
        for n in range(len(b)): refused(f'truncated:{nm(t)}:{n}', b[:n], f'a {nm(t)} frame of {len(b)} bytes cut after {n} bytes')
        o1, o2 = encode(t, seq ^ U64 or 1, list(pl)), encode(types[(t[2] + 1) % len(types)], seq, list(pl))
        if o1 is None or o2 is None or len(o1) != len(b) or len(o2) != len(b): continue
        sq = [i for i in range(len(b)) if o1[i] != b[i]]
        ty = [i for i in range(len(b)) if o2[i] != b[i]]
        ty = sorted({j for i in ty for j in (i - 1, i, i + 1) if 0 <= j < len(b)})
        ctx.ob(K, f'sequence-written:{nm(t)}', len(sq) == 8, f'changing every bit of the sequence changes the bytes {sq}', ctx.loc(enc))
        zero = list(b)
        for i in sq: zero[i] = 0
        refused(f'sequence-zero:{nm(t)}', zero, f'a {nm(t)} frame with the reserved sequence 0')
        for i in range(len(b)):
            for m in (1, 0x80, 0xff):
                d = list(b); d[i] ^= m
                if i in sq:
                    got = decode(d)
                    ctx.ob(K, f'sequence-byte:{nm(t)}:{i}:{m}', got and all(k == 'err' or view(v)[0] == t and view(v)[1] != seq for k, v in got), f'a {nm(t)} frame whose sequence byte {i} changed is read as the original', ctx.loc(dec))
                elif i in ty:
                    got = decode(d)
                    ctx.ob(K, f'type-byte:{nm(t)}:{i}:{m}', got and all(k == 'err' or view(v)[0] != t for k, v in got), f'a {nm(t)} frame whose header byte {i} changed is read as the original', ctx.loc(dec))
                else: refused(f'flipped:{nm(t)}:{i}:{m}', d, f'a {nm(t)} frame with byte {i} damaged')
        # damage that is hidden by more bytes following
        d = list(b) + [0] * 16
        if pl:
            d[len(b) - 1] ^= 4
            refused(f'payload-damaged-with-tail:{nm(t)}', d, f'a {nm(t)} frame with a damaged payload and bytes following')
    refused('empty', [], 'an empty buffer')
    refused('zeros', [0] * 64, 'a run of zero bytes')
    ctx.need(K, 300)

IDS = (0, 1, 0x0102030405060708, U64)

def codec(ctx):
    C, E, T = ctx.adt('wal::WalCommand'), ctx.adt('wal::frame::WalEvent'), ctx.adt('wal::frame::FrameType')
    FA = ctx.adt('wal::frame::Frame')
    enc, dec = ctx.fn(FR + 'encode_command'), ctx.fn(FR + 'decode_frame')
    def cmd(var, **f):
        for i, v in enumerate(ctx.F.adts[C]['v']):
            if v['n'] == var: return ('e', C, i, tuple(f[x[0]] for x in v['f']))
        raise Missing('WalCommand::' + var)
    def ev(var, **f):
        for i, v in enumerate(ctx.F.adts[E]['v']):
            if v['n'] == var: return ('e', E, i, tuple(f[x[0]] for x in v['f']))
        raise Missing('WalEvent::' + var)
    ff = [f[0] for f in ctx.F.adts[FA]['v'][0]['f']]
    def encode(c, fault=None):
        """[('ok', [(frame type, payload)]) | ('err', None)]"""
        it, outs = frun(ctx, enc, [c], fault=fault)
        res = []
        for k, v in outcomes(it, outs):
            if k == 'err': res.append((k, None)); continue
            if v[0] != 'a' or any(x[0] != 'e' or x[3][ff.index('payload')][0] != 'a' for x in v[1]): raise Missing(f'the frames of a command are not known: {path(v)[:200]}')
            res.append((k, [(x[3][ff.index('frame_type')], x[3][ff.index('payload')]) for x in v[1]]))
        return res
    def decode(t, pl):
        st = State()
        it, outs = frun(ctx, dec, [t, tmpq(ctx, st, 'pl', pl)], st)
        return outcomes(it, outs)
    return cmd, ev, encode, decode, enc, dec, lambda n: ('e', T, [v['n'] for v in ctx.F.adts[T]['v']].index(n), ())

@rule('W04', 'W03')
def marker_frames(ctx):
    """begin, commit and abort commands become one frame of their type whose payload decodes to the same identifiers; payloads of any other shape are refused"""
    K = 'marker_frames'
    cmd, ev, encode, decode, enc, dec, ft = codec(ctx)
    TS = ctx.adt('mvcc::Timestamp')
    ts = lambda n: ('e', TS, 0, (('c', n),))
    cases = [(v, {'provisional_id': ('c', i)}) for v in ('TxnBegin', 'TxnAbort') for i in IDS]
    cases += [('TxnCommit', {'provisional_id': ('c', i), 'commit_ts': ts(j)}) for i in IDS for j in (0, 5, 0x1112131415161718, U64)]
    for var, f in cases:
        key = f'{var}:{[path(x) for x in f.values()]}'
        got = encode(cmd(var, **f))
        if not ctx.ob(K, f'encode:{key}', got and all(k == 'ok' and len(fr) == 1 and fr[0][0] == ft(var) for k, fr in got), f'{key} is encoded as {[(k, fr and [path(t) for t, _ in fr]) for k, fr in got[:1]]}', ctx.loc(enc)): continue
        pl = got[0][1][0][1]
        want = ('ok', ev(var, **f))
        d = decode(ft(var), pl)
        ctx.ob(K, f'decode:{key}', d and all(x == want for x in d), f'{key} is recovered as {[(k, v and path(v)) for k, v in d[:1]]}', ctx.loc(dec))
        if f['provisional_id'] != ('c', 1): continue
        for what, q in [(f'cut to {n} bytes', pl[1][:n]) for n in range(len(pl[1]))] + [('extended', pl[1] + (('c', 0),)), ('repeated', pl[1] * 2)]:
            d = decode(ft(var), ('a', q))
            ctx.ob(K, f'refuse:{key}:{what}', d and all(k == 'err' for k, _ in d), f'a {var} payload {what} is recovered as {[(k, v and path(v)) for k, v in d[:1]] or "a panic"}', ctx.loc(dec))
    d = decode(ft('SealMarker'), ('a', ()))
    ctx.ob(K, 'seal', d and all(x == ('ok', ev('SealMarker')) for x in d), f'an empty seal marker is recovered as {d[:1]}', ctx.loc(dec))
    for q in ((0,), (1, 2, 3, 4, 5, 6, 7, 8)):
        d = decode(ft('SealMarker'), bytesv(q))
        ctx.ob(K, f'seal-payload:{q}', d and all(k == 'err' for k, _ in d), f'a seal marker with payload {q} is recovered as {d[:1]}', ctx.loc(dec))
    for q in ((), (0,) * 8, (0,) * 16, (0,) * 24):
        d = decode(ft('TypedAppend'), bytesv(q))
        ctx.ob(K, f'typed:{len(q)}', d and all(k == 'err' for k, _ in d), f'a frame of the reserved typed kind is recovered as {d[:1]}', ctx.loc(dec))
    ctx.need(K, 60)

@rule('W04', 'W03')
def append_frames(ctx):
    """an append command becomes one append frame that decodes to the same id, kind, rows and commit timestamps; any other shape of payload and every serialisation failure is an error"""
    K = 'append_frames'
    cmd, ev, encode, decode, enc, dec, ft = codec(ctx)
    TS, DP = ctx.adt('mvcc::Timestamp'), ctx.adt('wal::DynBatchPayload')
    AE, DE = ctx.adt('wal::frame::DynAppendEvent'), ctx.adt('wal::frame::DynDeleteEvent')
    CT = lambda vs: AW.A('UInt64', [('c', v) for v in vs])
    def pay(var, **f):
        for i, v in enumerate(ctx.F.adts[DP]['v']):
            if v['n'] == var: return ('e', DP, i, tuple(f[x[0]] for x in v['f']))
        raise Missing('DynBatchPayload::' + var)
    def batch(names, vs):
        fs = [AW.FLD(x, 'UInt64' if x == '_commit_ts' else 'Utf8', x == 'v') for x in names]
        return AW.B(AW.S(fs), [CT(vs) if x == '_commit_ts' else AW.A('Utf8', [NONE if x == 'v' and i == 1 else arg(f'{x}{i}') for i in range(len(vs))]) for x in names])
    hint = lambda vs: some(('e', TS, 0, (('c', vs[0]),))) if vs else NONE
    def show(got): return [(k, v and path(v)[:300]) for k, v in got[:1]]
    payloads = {}
    for pid in IDS:
        for vs in ((), (5,), (5, 5), (0,), (U64, U64, U64)) if pid == 1 else ((7, 7),):
            cases = [('Row', names, pay('Row', batch=batch(names, vs), commit_ts_column=CT(vs)), ev('DynAppend', provisional_id=('c', pid), payload=struct(ctx, AE, batch=batch(names, vs), commit_ts_hint=hint(vs), commit_ts_column=CT(vs)))) for names in (['a'], ['a', 'v'])]
            cases += [('Delete', names, pay('Delete', batch=batch(names, vs)), ev('DynDelete', provisional_id=('c', pid), payload=struct(ctx, DE, batch=batch(names, vs), commit_ts_hint=hint(vs)))) for names in (['a', '_commit_ts'], ['_commit_ts', 'a', 'b'])]
            for kind, names, p, want in cases:
                key = f'{kind}:{pid}:{names}:{vs}'
                got = encode(cmd('TxnAppend', provisional_id=('c', pid), payload=p))
                if not ctx.ob(K, f'encode:{key}', got and all(k == 'ok' and len(fr) == 1 and fr[0][0] == ft('TxnAppend') for k, fr in got), f'{key} is encoded as {[(k, fr and [path(t) for t, _ in fr]) for k, fr in got[:1]]}', ctx.loc(enc)): continue
                pl = got[0][1][0][1]
                d = decode(ft('TxnAppend'), pl)
                ctx.ob(K, f'decode:{key}', d and all(x == ('ok', want) for x in d), f'{key} is recovered as {show(d)}', ctx.loc(dec))
                if vs == (5, 5) and len(names) == 2: payloads[kind] = pl[1]
                if pid == 1 and vs == (5, 5):
                    for f in ('new', 'write', 'finish'):
                        g = encode(cmd('TxnAppend', provisional_id=('c', pid), payload=p), f)
                        ctx.ob(K, f'fails:{key}:{f}', g and all(k == 'err' for k, _ in g), f'a failure to serialise ({f}) is not reported', ctx.loc(enc))
    # commands that cannot be logged are refused
    for what, p in (('short', pay('Row', batch=batch(['a'], (5, 5)), commit_ts_column=CT((5,)))), ('varying', pay('Row', batch=batch(['a'], (5, 5)), commit_ts_column=CT((5, 6)))), ('taken', pay('Row', batch=batch(['a', '_commit_ts'], (5, 5)), commit_ts_column=CT((5, 5))))):
        g = encode(cmd('TxnAppend', provisional_id=('c', 1), payload=p))
        ctx.ob(K, f'unloggable:{what}', g and all(k == 'err' for k, _ in g), f'an append with an unusable commit column ({what}) is encoded', ctx.loc(enc))
    def refused(key, q, why):
        d = decode(ft('TxnAppend'), ('a', tuple(q)))
        ctx.ob(K, 'refuse:' + key, d and all(k == 'err' for k, _ in d), f'{why} is recovered as {show(d) or "a panic"}', ctx.loc(dec))
    for kind, pl in payloads.items():
        n = len([x for x in pl if x[0] == 'c'])
        if [x[0] == 'c' for x in pl] != [True] * n + [False] * (len(pl) - n): raise Missing('the layout of an append payload is not known')
        pre, body = pl[:n], pl[n:]
        for i in range(n + 1): refused(f'cut:{kind}:{i}', pre[:i], f'a {kind} payload cut after {i} bytes')
        bt = [x for x in body if x[1][1] == 'batch']
        refused(f'no-batch:{kind}', pre + tuple(x for x in body if x[1][1] != 'batch'), f'a {kind} payload without a record batch')
        refused(f'two-batches:{kind}', pre + body[:-1] + tuple(bt) + body[-1:], f'a {kind} payload with two record batches')
        refused(f'damaged:{kind}', pre + (('c', 0),) + body, f'a {kind} payload whose batch is damaged')
        refused(f'second-damaged:{kind}', pre + body[:-1] + (('c', 0),), f'a {kind} payload damaged after its batch')
        refused(f'first-damaged:{kind}', pre + body[:1] + (('c', 0),) + body[1:], f'a {kind} payload whose first message is damaged')
        other = payloads.get('Delete' if kind == 'Row' else 'Row')
        diff = [i for i in range(min(n, len(other or ()))) if other[i] != pre[i]]
        ctx.ob(K, f'kind-written:{kind}', len(diff) == 1, f'row and delete payloads differ in the prefix bytes {diff}', ctx.loc(enc))
        for i in diff:
            for b in (2, 3, 77, 255):
                refused(f'unknown-kind:{kind}:{b}', pre[:i] + (('c', b),) + pre[i + 1:] + body, f'an append payload of unknown row kind {b}')
        # the mode byte: changing it must not give the same event back
        for i in range(8, n):
            if i in diff: continue
            dd = [decode(ft('TxnAppend'), ('a', pre[:i] + (('c', b),) + pre[i + 1:] + body)) for b in (1, 2, 255)]
            if any(k == 'err' for d in dd for k, _ in d): ctx.ob(K, f'unknown-mode:{kind}:{i}', all(d and all(k == 'err' for k, _ in d) for d in dd), f'an append payload with prefix byte {i} changed is recovered as {show(dd[0])}', ctx.loc(dec))
        nm = sum(any(k == 'err' for k, _ in decode(ft('TxnAppend'), ('a', pre[:i] + (('c', 9),) + pre[i + 1:] + body))) for i in range(8, n) if i not in diff)
        ctx.ob(K, f'mode-checked:{kind}', nm >= 1, 'the payload mode of an append is not checked', ctx.loc(dec))
    # bodies with unusable commit columns
    if 'Row' in payloads:
        pre = tuple(x for x in payloads['Row'] if x[0] == 'c')
        for what, names, vs in (('no-column', ['a', 'v'], (5, 5)), ('varying', ['a', '_commit_ts'], (5, 6))):
            for kind in payloads:
                pre = tuple(x for x in payloads[kind] if x[0] == 'c')
                b = batch(names, vs)
                refused(f'{what}:{kind}', pre + (mk(('ipc', 'schema', arg('sch'))), mk(('ipc', 'batch', b)), mk(('ipc', 'end'))), f'a {kind} payload whose commit column is unusable ({what})')
    ctx.need(K, 60)

@rule('W04', 'W03')
def commit_column(ctx):
    """the commit-timestamp column is attached to every logged row and separated again without touching the user columns; unusable columns are refused"""
    W = AW
    K = 'commit_column'
    ap, sp, dh = ctx.fn('crate::wal::append_commit_column'), ctx.fn('crate::wal::split_commit_column'), ctx.fn(FR + 'extract_delete_commit_hint')
    TS = ctx.adt('mvcc::Timestamp')
    CT = lambda vs, ty='UInt64': W.A(ty, [NONE if v is None else ('c', v) for v in vs])
    def cols_of(names, n): return [W.FLD(x, 'UInt64' if x == '_commit_ts' else 'Boolean' if x == '_tombstone' else 'Utf8', x == 'v') for x in names], [W.A('UInt64' if x == '_commit_ts' else 'Boolean' if x == '_tombstone' else 'Utf8', [NONE if x == 'v' and i == 1 else ('c', 5) if x == '_commit_ts' else TRUE if x == '_tombstone' else arg(f'{x}{i}') for i in range(n)]) for x in names]
    def run(fn, args, st, H=()): return ctx.run(fn, CQ(exact=True, calls=list(H) + W.hooks(), max_states=200), args=args, st=st)
    def tmp(st, tag, v): return Interp(ctx.F, CQ(exact=True)).tmp(st, 0, ('x', tag), v)
    def outcome(it, outs):
        res = []
        for o in outs:
            for s, vi, w in it.split(o.st, o.v, RESULT): res.append(('ok', it.deepval(s, it.rd(s, w[3][0]))) if vi == 0 else ('err', None))
        return res
    stamps = [(5,), (0,), (5, 5), (5, 5, 5), (5, 6), (6, 5, 5), (5, 5, 6), (5, 6, 5), (None,), (5, None), (None, 5), (5, 5, None), ((1 << 64) - 1, (1 << 64) - 1)]
    for names in (['a', 'v'], ['a'], ['_commit_ts', 'a'], ['a', '_commit_ts'], ['_tombstone', 'a'], ['a', '_tombstone', 'v'], ['a', 'v', '_tombstone'], ['a', '_commit', 'v'], ['a', 'v', '_commit_ts2']):
        for vs in stamps + [()]:
            for n in sorted({len(vs), len(vs) + 1, max(0, len(vs) - 1)}):
                for ty in ('UInt64', 'Int64'):
                    if ty == 'Int64' and n != len(vs): continue
                    fs, cs = cols_of(names, n)
                    st = State()
                    it, outs = run(ap, [tmp(st, 'b', W.B(W.S(fs), cs)), tmp(st, 'c', CT(vs, ty))], st)
                    good = n == len(vs) and ty == 'UInt64' and None not in vs and len(set(vs)) <= 1 and not {'_commit_ts', '_tombstone'} & set(names)
                    want = [('ok', W.B(W.S(fs + [W.FLD('_commit_ts', 'UInt64', False)]), cs + [CT(vs)]))] if good else [('err', None)]
                    got = outcome(it, outs)
                    ctx.ob(K, f'append:{names}:{n}:{vs}:{ty}', got and all(g == want[0] for g in got), f'attaching {ty} commit timestamps {vs} to {n} rows with columns {names} gives {[(k, v and path(v)[:300]) for k, v in got[:1]]}', ctx.loc(ap))
    for names in (['_commit_ts', 'a', 'v'], ['a', '_commit_ts', 'v'], ['a', 'v', '_commit_ts'], ['a', '_commit_ts'], ['a', 'v'], ['a', '_commit_ts2', '_commit', 'v', '_commit_ts']):
        for vs in stamps + [()]:
            for ty in ('UInt64', 'Int64'):
                fs, cs = cols_of(names, len(vs))
                if '_commit_ts' in names:
                    k = names.index('_commit_ts'); cs[k] = CT(vs, ty); fs[k] = W.FLD('_commit_ts', ty, True)
                elif ty == 'Int64' or None in vs: continue
                good = '_commit_ts' in names and ty == 'UInt64' and None not in vs and len(set(vs)) <= 1
                hint = NONE if not vs else some(('e', TS, 0, (('c', vs[0]),)))
                b = W.B(W.S(fs), cs)
                st = State()
                it, outs = run(sp, [b], st)
                got = outcome(it, outs)
                want = ('ok', ('t', (W.B(W.S([f for f, x in zip(fs, names) if x != '_commit_ts']), [c for c, x in zip(cs, names) if x != '_commit_ts']), hint, CT(vs)))) if good else ('err', None)
                ctx.ob(K, f'split:{names}:{vs}:{ty}', got and all((g[0], g[1] and g[1]) == want for g in got), f'separating {ty} commit timestamps {vs} from columns {names} gives {[(k, v and path(v)[:300]) for k, v in got[:1]]}', ctx.loc(sp))
                st = State()
                it, outs = run(dh, [tmp(st, 'b', b)], st)
                got = outcome(it, outs)
                want = ('ok', hint) if good else ('err', None)
                ctx.ob(K, f'delete-hint:{names}:{vs}:{ty}', got and all(g == want for g in got), f'the commit timestamp of a logged delete with columns {names} and {ty} timestamps {vs} is read as {[(k, v and path(v)[:100]) for k, v in got[:1]]}', ctx.loc(dh))

