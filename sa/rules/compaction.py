"""Compaction: planning, input resolution, outcome and its manifest edits, WAL references, GC plans, scheduling."""
from core import *
from rules.inmem import struct, enum, RankQ, conc_atomic
from rules.manifest import sid, fields, seg, sst, vstate, TS, edit, FidQ
import itertools, random

P = path
PL = 'crate::compaction::planner::'
OR = 'crate::compaction::orchestrator::'

def stats(ctx, lo=None, hi=None, nbytes=0, rows=0, tomb=0, tmin=None, tmax=None):
    o = lambda v: NONE if v is None else some(v)
    return struct(ctx, ctx.adt('sstable::SsTableStats'), rows=('c', rows), bytes=('c', nbytes), tombstones=('c', tomb), min_key=o(None if lo is None else arg(f'K{lo}')), max_key=o(None if hi is None else arg(f'K{hi}')),
                  min_commit_ts=o(None if tmin is None else TS(ctx, tmin)), max_commit_ts=o(None if tmax is None else TS(ctx, tmax)))
def lfile(ctx, f):
    """f = (id, None) or (id, lo, hi, bytes)"""
    return struct(ctx, ctx.adt('planner::LevelFile'), sst_id=sid(ctx, f[0]), stats=NONE if f[1:] == (None,) else some(stats(ctx, f[1], f[2], f[3])))
def snapshot(ctx, levels):
    LI = ctx.adt('planner::LevelInfo')
    return struct(ctx, ctx.adt('planner::CompactionSnapshot'), levels=('a', tuple(struct(ctx, LI, level=('c', l), files=('a', tuple(lfile(ctx, f) for f in fs))) for l, fs in levels)))
DEF = dict(l0_trigger=3, l0_max_inputs=4, l0_max_bytes=None, level_thresholds=(2, 3), level_max_bytes=(), max_inputs_per_task=3, max_task_bytes=None)
def planner(ctx, **over):
    c = {**DEF, **over}
    o = lambda v: NONE if v is None else some(('c', v))
    cfg = struct(ctx, ctx.adt('planner::LeveledPlannerConfig'), l0_trigger=('c', c['l0_trigger']), l0_max_inputs=('c', c['l0_max_inputs']), l0_max_bytes=o(c['l0_max_bytes']), level_thresholds=('a', tuple(('c', x) for x in c['level_thresholds'])),
                 level_max_bytes=('a', tuple(o(x) for x in c['level_max_bytes'])), max_inputs_per_task=('c', c['max_inputs_per_task']), max_task_bytes=o(c['max_task_bytes']))
    return c, struct(ctx, ctx.adt('planner::LeveledCompactionPlanner'), cfg=cfg)

def has(f): return len(f) > 2
def oracle_plan(levels, c, min_level=0):
    """(source, target, [(level, id)], key range | None) | None"""
    L = dict(levels)
    nb = lambda fs: sum(f[3] for f in fs if has(f))
    def run(fs, take):
        o, sel, b = sorted(fs, key=lambda f: f[1]) if all(has(f) for f in fs) else list(fs), [], 0
        for f in o:
            if len(sel) >= take: break
            x = f[3] if has(f) else 0
            if c['max_task_bytes'] is not None and sel and b + x > c['max_task_bytes']: break
            b += x; sel.append(f)
        return sel
    def rng(fs):
        if any(not has(f) for f in fs): return None
        return (min(f[1] for f in fs), max(f[2] for f in fs))
    if min_level == 0 and 0 in L:
        fs = L[0]
        if len(fs) >= c['l0_trigger'] or c['l0_max_bytes'] is not None and nb(fs) >= c['l0_max_bytes']:
            sel = run(fs, max(1, min(c['l0_max_inputs'], len(fs))))
            return 0, 1, [(0, f[0]) for f in sel], rng(sel)
    for l, fs in levels:
        if l < max(1, min_level): continue
        if l - 1 >= len(c['level_thresholds']): continue
        cap = c['level_max_bytes'][l - 1] if l - 1 < len(c['level_max_bytes']) else None
        if len(fs) <= c['level_thresholds'][l - 1] and not (cap is not None and nb(fs) >= cap): continue
        sel = run(fs, max(1, min(c['max_inputs_per_task'], len(fs))))
        if not sel: continue
        r = rng(sel)
        over = [f for f in L.get(l + 1, ()) if r is not None and has(f) and f[1] <= r[1] and f[2] >= r[0]]
        return l, l + 1, [(l, f[0]) for f in sel] + [(l + 1, f[0]) for f in over], rng(sel + over)
    return None

def parse_task(ctx, v):
    if v == NONE: return None
    t = fields(ctx, v[3][0])
    n = lambda x: x[1] if x[0] == 'c' else P(x)
    inp = []
    for i in t['input'][1]:
        g = fields(ctx, i)
        inp.append((n(g['level']), n(g['sst_id'][3][0])))
    kr = t['key_range']
    if kr[0] != 'e': k = 'range ' + P(kr)
    elif kr[2] == 0: k = None
    else: k = tuple(int(re.fullmatch(r'K(\d+)', P(x)).group(1)) if re.fullmatch(r'K(\d+)', P(x)) else P(x) for x in kr[3][0][1])
    return n(t['source_level']), n(t['target_level']), inp, k

def plan_cases():
    out = []
    F = lambda i, lo, hi, b=10: (i, lo, hi, b)
    l0 = [F(1, 5, 9), F(2, 1, 3), F(3, 4, 6), F(4, 0, 2), F(5, 7, 8)]
    for n in range(1, 6): out.append(([(0, l0[:n])], {}))
    for n in (1, 3, 5):
        for cap in (0, 1, 2, 4, 9): out.append(([(0, l0[:n])], {'l0_max_inputs': cap}))
    for cap in (0, 9, 10, 20, 21): out.append(([(0, l0[:2])], {'l0_max_bytes': cap}))
    for b in (0, 5, 10, 19, 20, 30): out.append(([(0, l0)], {'max_task_bytes': b}))
    l1 = [F(11, 10, 19), F(12, 0, 5), F(13, 6, 9), F(14, 20, 29)]
    for n in range(1, 5):
        for nxt in ([], [F(21, 0, 0), F(22, 5, 6), F(23, 19, 20), F(24, 30, 40)], [F(21, 5, 5), F(22, 20, 20)], [(21, None), F(22, 0, 40)]):
            out.append(([(1, l1[:n])] + ([(2, nxt)] if nxt else []), {}))
            out.append(([(1, l1[:n])] + ([(2, nxt)] if nxt else []), {'max_inputs_per_task': 2}))
    # ranges that touch or miss the selected range by one
    for lo, hi in ((0, 3), (0, 4), (9, 12), (10, 12), (5, 6), (0, 20), (4, 9), (11, 20)):
        out.append(([(1, [F(11, 4, 6), F(12, 7, 9), F(13, 30, 31)]), (2, [F(21, lo, hi)])], {'max_inputs_per_task': 2}))
    for lv in (1, 2, 3):
        out.append(([(lv, l1)], {}))
        out.append(([(lv, l1[:1])], {'level_max_bytes': (None, 10)}))
        out.append(([(lv, l1[:1])], {'level_max_bytes': (11, 9, 1)}))
    out.append(([(0, l0[:2]), (1, l1), (2, l1)], {}))
    out.append(([(0, l0), (1, l1), (2, l1)], {}))
    out.append(([(1, l1[:2]), (2, [F(i, i, i) for i in range(31, 36)]), (3, [F(i, i - 10, i - 10) for i in range(41, 45)])], {}))
    out.append(([(0, [(1, None), (2, None), (3, None)])], {}))
    out.append(([(1, [(1, None), (2, None), (3, None)]), (2, [F(4, 0, 9)])], {}))
    out.append(([], {}))
    r = random.Random(7)
    for _ in range(60):
        lv, i = [], 0
        for l in sorted(r.sample(range(4), r.randint(1, 3))):
            fs = []
            for _ in range(r.randint(1, 5)):
                i += 1; lo = r.randint(0, 9); fs.append(F(i, lo, lo + r.randint(0, 4), r.randint(0, 12)))
            lv.append((l, fs))
        out.append((lv, {'l0_trigger': r.randint(1, 5), 'l0_max_inputs': r.randint(1, 5), 'l0_max_bytes': r.choice([None, 15, 30]), 'level_thresholds': tuple(r.randint(0, 4) for _ in range(r.randint(0, 3))),
                         'level_max_bytes': tuple(r.choice([None, 10, 25]) for _ in range(r.randint(0, 3))), 'max_inputs_per_task': r.randint(1, 4), 'max_task_bytes': r.choice([None, 8, 20])}))
    return out

@rule('P01')
def plan(ctx):
    """the plan for a layout: triggered exactly at the thresholds, inputs the files of the chosen level in key order within the limits plus all overlapping files of the next level, range covering them"""
    K = 'plan'
    kind = ctx.adt('planner::CompactionPlannerKind')
    f = ctx.impl('CompactionPlanner', 'CompactionPlannerKind', 'plan')
    g = ctx.impl('CompactionPlanner', 'CompactionPlannerKind', 'plan_with_min_level')
    for ci, (levels, over) in enumerate(plan_cases()):
        c, pl = planner(ctx, **over)
        me = enum(ctx, kind, 'Leveled', pl)
        for ml in (None, 0, 1, 2):
            if ml is not None and ci % 3 != ml: continue
            want = oracle_plan(levels, c, ml or 0)
            a = {'self': me, 'snapshot': snapshot(ctx, levels)}
            if ml is not None: a['min_level'] = ('c', ml)
            it, outs = ctx.run(f if ml is None else g, RankQ(exact=True, max_states=400), args=a)
            got = []
            for o in outs:
                for s, vi, w in it.split(o.st, it.rd(o.st, o.v), OPTION): got.append(parse_task(ctx, it.deepval(s, w)))
            def norm(t): return t and (t[0], t[1], sorted(t[2]), t[3])
            bad = [t for t in got if norm(t) != norm(want)]
            ctx.ob(K, f'{ci}:{ml}', got and not bad, f'layout {levels}, config {over}, from level {ml}: planned {bad[:1]}, expected {want}', ctx.loc(f))

@rule('P01')
def plan_layout(ctx):
    """the layout planned on is the version's: every file, at its level, with its statistics"""
    K = 'plan_layout'
    f = ctx.impl('From', 'CompactionSnapshot', 'from')
    S = lambda ctx, i, lo: struct(ctx, ctx.adt('domain::SstEntry'), data_path=arg(f'D{i}'), delete_path=NONE, sst_id=sid(ctx, i), stats=NONE if lo is None else some(stats(ctx, lo, lo + 1, i)), wal_segments=NONE)
    for li, levels in enumerate([(), (((1, 3), (2, None)),), ((), ((1, 3),)), (((1, 3),), (), ((4, 5), (5, 6)))]):
        st0 = struct(ctx, ctx.adt('domain::VersionState'), table_id=arg('TBL'), commit_timestamp=TS(ctx, 3), ssts=('a', tuple(('a', tuple(S(ctx, *x) for x in l)) for l in levels)), wal_segments=('a', ()), wal_floor=NONE, tombstone_watermark=NONE)
        it, outs = ctx.run(f, CQ(exact=True), args=[st0])
        want = sorted((l, i, None if lo is None else P(stats(ctx, lo, lo + 1, i))) for l, fs in enumerate(levels) for i, lo in fs)
        bad = []
        for o in outs:
            v = it.deepval(o.st, it.rd(o.st, o.v))
            got = []
            for L in fields(ctx, v)['levels'][1]:
                g = fields(ctx, L)
                for x in g['files'][1]:
                    h = fields(ctx, x)
                    got.append((g['level'][1], h['sst_id'][3][0][1], None if h['stats'] == NONE else P(h['stats'][3][0])))
            if sorted(got, key=str) != sorted(want, key=str): bad.append(got)
        ctx.ob(K, str(li), outs and not bad, f'version {levels}: layout {bad[:1]}', ctx.loc(f))
    # a version is planned with the layout above; an empty one gives no task
    for fn, extra in (('plan_from_version', {}), ('plan_from_version_with_min_level', {'min_level': ('c', 2)})):
        f = ctx.fn(OR + fn)
        for empty in (True, False):
            st0 = vstate(ctx, 3, ((), ()) if empty else ((), (1,)))
            def ph(it, st, c):
                st.setg('planned', (c.short, P(it.deepval(st, c.args[2])) if len(c.args) > 2 else None, len(re.findall('LevelFile', P(it.deepval(st, c.args[1])))))); return [(st, some(arg('TASK')))]
            it, outs = ctx.run(f, CQ(exact=True, calls=[(r'CompactionPlanner::plan(_with_min_level)?$', ph)]), args={'version': st0, **extra})
            bad = []
            for o in outs:
                v = P(it.deepval(o.st, o.v))
                if empty and v != P(NONE): bad.append(v)
                if not empty and (v != P(some(arg('TASK'))) or o.st.g('planned') != (('plan_with_min_level', '2', 1) if extra else ('plan', None, 1))): bad.append((v, o.st.g('planned')))
            ctx.ob(K, f'{fn}:{empty}', outs and not bad, f'{fn} on {"an empty" if empty else "a"} version: {bad[:1]}', ctx.loc(f))


# ---- outcome and its edits ----------------------------------------------------------------------------------------------
def desc(ctx, i, level, st=NONE, wal=None, data=True, dele=False, mvcc=NONE):
    D = ctx.adt('sstable::SsTableDescriptor')
    return struct(ctx, D, id=sid(ctx, i), level=('c', level), stats=st, wal_ids=NONE if wal is None else some(('a', tuple(arg(x) for x in wal))), data_path=some(arg(f'D{i}')) if data else NONE,
                  mvcc_path=mvcc, delete_path=some(arg(f'X{i}')) if dele else NONE)
def segs(ctx, *xs): return ('a', tuple(seg(ctx, *(x if isinstance(x, tuple) else (x,))) for x in xs))
def outcome(ctx, **over):
    d = dict(add_ssts=('a', ()), remove_ssts=('a', ()), target_level=('c', 1), wal_segments=NONE, tombstone_watermark=NONE, outputs=('a', ()), obsolete_sst_ids=('a', ()), wal_floor=NONE, obsolete_wal_segments=('a', ()))
    return struct(ctx, ctx.adt('executor::CompactionOutcome'), **{**d, **over})
def vname(ctx, v): return ctx.F.adts[v[1]]['v'][v[2]]['n']
def lst(v): return [P(x) for x in v[1]] if v[0] == 'a' else P(v)

@rule('P02')
def edits(ctx):
    """the manifest edits of an outcome: each input removed once at its level, the outputs added at the target level, the remaining WAL set, the tombstone watermark, nothing else"""
    K = 'edits'
    f = ctx.fn('crate::compaction::executor::CompactionOutcome::to_version_edits')
    rems = [(), ((1, 0),), ((2, 0), (1, 0)), ((2, 0), (1, 0), (7, 1)), ((3, 1), (4, 2), (5, 2), (6, 1))]
    for ri, rem in enumerate(rems):
        for ob in ((), tuple(i for i, _ in rem), (99,) + tuple(i for i, _ in rem[:1])):
            for adds in ((), (20,), (20, 21)):
                for ws, fl in ((None, None), ((), None), ((3, 4), None), (None, 5), ((3,), 5)):
                    if (ri + len(ob) + len(adds)) % 2 and ws is None and fl is None: continue
                    for wm in (None, 0, 17):
                        if wm == 0 and ri: continue
                        o = outcome(ctx, target_level=('c', 3), add_ssts=('a', tuple(sst(ctx, i) for i in adds)), remove_ssts=('a', tuple(desc(ctx, i, l) for i, l in rem)), obsolete_sst_ids=('a', tuple(sid(ctx, i) for i in ob)),
                                    wal_segments=NONE if ws is None else some(segs(ctx, *ws)), wal_floor=NONE if fl is None else some(seg(ctx, fl)), tombstone_watermark=NONE if wm is None else some(('c', wm)))
                        want = {('remove', l, tuple(sorted(i for i, m in rem if m == l))) for _, l in rem}
                        if adds: want.add(('add', 3, tuple(P(sst(ctx, i)) for i in adds)))
                        if ws is not None: want.add(('wal', tuple(P(seg(ctx, i)) for i in ws)))
                        elif fl is not None: want.add(('wal', (P(seg(ctx, fl)),)))
                        if wm is not None: want.add(('wm', wm))
                        it, outs = ctx.run(f, CQ(exact=True), args=[o])
                        bad = []
                        for x in outs:
                            v = it.deepval(x.st, it.rd(x.st, x.v))
                            got = []
                            for e in v[1]:
                                n = vname(ctx, e)
                                if n == 'RemoveSsts': got.append(('remove', e[3][0][1], tuple(sorted(y[3][0][1] for y in e[3][1][1]))))
                                elif n == 'AddSsts': got.append(('add', e[3][0][1], tuple(lst(e[3][1]))))
                                elif n == 'SetWalSegments': got.append(('wal', tuple(lst(e[3][0]))))
                                elif n == 'SetTombstoneWatermark': got.append(('wm', e[3][0][1]))
                                else: got.append((n,))
                            if len(got) != len(set(got)) or set(got) != want: bad.append(got)
                        ctx.ob(K, f'{ri}:{ob}:{adds}:{ws}:{fl}:{wm}', outs and not bad, f'removing {rem} (obsolete {ob}), adding {adds} at 3, WAL {ws} floor {fl}, watermark {wm}: edits {bad[:1]}, expected {sorted(want, key=str)}', ctx.loc(f))

@rule('P02')
def outputs(ctx):
    """an outcome built from finished outputs: one entry per output with its identity, statistics, WAL ids and paths; watermark the newest commit; an output without a data file is refused"""
    K = 'outputs'
    f = ctx.fn('crate::compaction::executor::CompactionOutcome::from_outputs')
    T = lambda n: some(stats(ctx, 1, 2, n or 0, 1, 0, None if n is None else 1, n))
    cases = [[], [dict(i=1, st=T(5), wal=('F1',))], [dict(i=1, st=T(5), dele=True), dict(i=2, st=T(9), wal=('F2', 'F3'))], [dict(i=1, st=T(9)), dict(i=2, st=T(5), dele=True)], [dict(i=1, st=T(0))], [dict(i=1, st=T(None)), dict(i=2)],
             [dict(i=1), dict(i=2, st=T(4)), dict(i=3, st=T(4))], [dict(i=1, st=T(3), data=False)], [dict(i=1, st=T(3)), dict(i=2, st=T(8), data=False)]]
    for ci, c in enumerate(cases):
        outs_ = ('a', tuple(desc(ctx, x['i'], 1, x.get('st', NONE), x.get('wal'), x.get('data', True), x.get('dele', False)) for x in c))
        rem = ('a', (desc(ctx, 40, 0), desc(ctx, 41, 1)))
        for ws in (NONE, some(segs(ctx, 3))):
            it, outs = ctx.run(f, CQ(exact=True), args={'outputs': outs_, 'remove_ssts': rem, 'target_level': ('c', 6), 'wal_segments': ws})
            good = all(x.get('data', True) for x in c)
            tss = [fields(ctx, x['st'][3][0])['max_commit_ts'][3][0][3][0][1] for x in c if 'st' in x and fields(ctx, x['st'][3][0])['max_commit_ts'] != NONE]
            ent = [struct(ctx, ctx.adt('domain::SstEntry'), data_path=arg(f"D{x['i']}"), delete_path=some(arg(f"X{x['i']}")) if x.get('dele') else NONE, sst_id=sid(ctx, x['i']), stats=x.get('st', NONE),
                          wal_segments=NONE if x.get('wal') is None else some(('a', tuple(arg(y) for y in x['wal'])))) for x in c]
            want = outcome(ctx, add_ssts=('a', tuple(ent)), remove_ssts=rem, target_level=('c', 6), wal_segments=ws, outputs=outs_, tombstone_watermark=some(('c', max(tss))) if tss else NONE)
            bad = []
            for o in outs:
                for s, vi, w in it.split(o.st, it.rd(o.st, o.v), RESULT):
                    if (vi == 0) != good: bad.append('accepted' if vi == 0 else 'refused')
                    elif good and P(it.deepval(s, w[3][0])) != P(want): bad.append({k: P(v)[:200] for k, v in fields(ctx, it.deepval(s, w[3][0])).items() if P(v) != P(fields(ctx, want)[k])})
            ctx.ob(K, f'{ci}:{ws == NONE}', outs and not bad, f'outcome of {c}: {bad[:1]}', ctx.loc(f))

def entry(ctx, i, wal=None, st=NONE, dele=False):
    return struct(ctx, ctx.adt('domain::SstEntry'), data_path=arg(f'D{i}'), delete_path=some(arg(f'X{i}')) if dele else NONE, sst_id=sid(ctx, i), stats=st, wal_segments=NONE if wal is None else some(('a', tuple(arg(x) for x in wal))))
def version(ctx, levels, wal=(), floor=NONE):
    return struct(ctx, ctx.adt('domain::VersionState'), table_id=arg('TBL'), commit_timestamp=TS(ctx, 3), ssts=('a', tuple(('a', tuple(entry(ctx, *x) for x in l)) for l in levels)), wal_segments=segs(ctx, *wal), wal_floor=floor, tombstone_watermark=NONE)
def task(ctx, inputs):
    CI = ctx.adt('planner::CompactionInput')
    return struct(ctx, ctx.adt('planner::CompactionTask'), source_level=('c', 0), target_level=('c', 1), input=('a', tuple(struct(ctx, CI, level=('c', l), sst_id=sid(ctx, i)) for l, i in inputs)), key_range=NONE)

@rule('P03')
def inputs(ctx):
    """the inputs of a task are read from the version at the level they were planned at, complete and in order; a task naming a file that is not there is refused"""
    K = 'inputs'
    f = ctx.fn(OR + 'resolve_inputs')
    S5 = some(stats(ctx, 1, 2, 5))
    levels = (((1, ('F1',), S5, True), (2,)), ((3, ('F1', 'F2'), NONE, False), (1, (), S5)), ())
    by = {(l, e[0]): e for l, es in enumerate(levels) for e in es}
    for t in [(), ((0, 1),), ((0, 2),), ((0, 2), (0, 1), (1, 3)), ((1, 1), (0, 1)), ((1, 2),), ((0, 3),), ((2, 1),), ((3, 1),), ((0, 1), (7, 1)), ((0, 1), (1, 9)), ((0, 9), (0, 1))]:
        good = all(x in by for x in t)
        it, outs = ctx.run(f, CQ(exact=True), args={'version': version(ctx, levels), 'task': task(ctx, t)})
        want = None
        if good:
            want = []
            for l, i in t:
                e = (by[(l, i)] + (None, NONE, False)[len(by[(l, i)]) - 1:])
                want.append(P(desc(ctx, i, l, e[2], e[1], True, e[3])))
        bad = []
        for o in outs:
            for s, vi, w in it.split(o.st, it.rd(o.st, o.v), RESULT):
                if (vi == 0) != good: bad.append('accepted' if vi == 0 else 'refused')
                elif good and lst(it.deepval(s, w[3][0])) != want: bad.append([x[:300] for x, y in itertools.zip_longest(lst(it.deepval(s, w[3][0])), want, fillvalue='-') if x != y])
        ctx.ob(K, str(t), outs and not bad, f'inputs {t} of {[[e[0] for e in l] for l in levels]}: {bad[:1]}', ctx.loc(f))

def wal_cases():
    """(levels, removed ids, added wal lists, existing segments)"""
    for ex in ((), (1,), (1, 2), (1, 2, 3), (2, 3, 5), (1, 4, 5, 6), (1, 3, 7)):
        names = [f'F{x}' for x in ex]
        subs = [tuple(c) for n in range(len(names) + 1) for c in itertools.combinations(names, n)]
        for sub in subs:
            yield ((((1, ()), (2, sub)), ()), (1,), ((),), ex)
            yield ((((1, tuple(names)),),), (1,), (sub,), ex)
            yield ((((1, tuple(names)), (5, sub[:1])), ((6, sub[1:2]),)), (1,), (sub[2:], ()), ex)
    yield ((((1, ('F1',)), (2, None)),), (1,), (('F1',),), (1, 2))
    yield ((((1, None), (2, ('F2',))),), (1,), (('F2',),), (1, 2))
    yield ((((1, ('F1',)), (2, ('F2',))),), (1,), (None,), (1, 2))
    yield ((((1, ('F1',)), (2, ('F2',))),), (1,), (('F2',), None), (1, 2))
    yield ((((1, ('F1', 'FQ')), (2, ('FQ',))),), (1,), (('FQ',),), (1, 2))
    yield ((((1, ('F1',)),),), (), (), (1, 2))
    yield ((((1, ('F1',)),), ((1, ('F2',)),)), (1,), (), (1, 2))
def oracle_wal(levels, removed, added, ex):
    """the WAL list after the compaction (None: unchanged)"""
    live = [e for l in levels for e in l if e[0] not in removed]
    if any(e[1] is None for e in live) or any(a is None for a in added): return None
    ref = {x for e in live for x in e[1]} | {x for a in added for x in a}
    if not ex: return None
    kept = [x for x in ex if f'F{x}' in ref]
    if kept == list(ex): return None
    if not kept: return []
    if any(b > a + 1 for a, b in zip(ex, ex[1:])):
        return list(ex[:ex.index(kept[0])]) + kept if ex.index(kept[0]) > 0 else list(ex)
    return kept

@rule('P03')
def wal_refs(ctx):
    """the WAL segments still listed after a compaction are those a remaining or new file refers to (every one, if any file's references are unknown or segments are missing in front of a gap)"""
    K = 'wal_refs'
    f = ctx.fn(OR + 'wal_segments_after_compaction')
    for ci, (levels, removed, added, ex) in enumerate(wal_cases()):
        w = oracle_wal(levels, removed, added, ex)
        it, outs = ctx.run(f, FidQ(exact=True), args={'version': version(ctx, levels, ex), 'removed_ssts': ('a', tuple(desc(ctx, i, 0) for i in removed)), 'added_ssts': ('a', tuple(desc(ctx, 80 + i, 1, wal=a) for i, a in enumerate(added)))})
        want = P(NONE if w is None else some(segs(ctx, *w)))
        bad = [v for o in outs for v in [P(it.deepval(o.st, o.v))] if v != want]
        ctx.ob(K, str(ci), outs and not bad, f'WAL {ex}, files {levels}, removed {removed}, added {added}: kept {[re.findall("F[0-9]+", x) for x in bad[:1]] or bad[:1]}, expected {w}', ctx.loc(f))

@rule('P03')
def reconcile(ctx):
    """reconciling: the outcome lists the kept segments, the obsolete ones are exactly the dropped ones, the floor stays or is the first kept segment"""
    K = 'reconcile'
    f = ctx.fn(OR + 'reconcile_wal_segments')
    for ci, (levels, removed, added, ex) in enumerate(wal_cases()):
        w = oracle_wal(levels, removed, added, ex)
        final = list(ex) if w is None else w
        obs = [x for x in ex if x not in final]
        for fl in (None, 1):
            o0 = outcome(ctx, remove_ssts=('a', tuple(desc(ctx, i, 0) for i in removed)), outputs=('a', tuple(desc(ctx, 80 + i, 1, wal=a) for i, a in enumerate(added))), obsolete_sst_ids=('a', (sid(ctx, 1),)), tombstone_watermark=some(('c', 4)))
            st0 = State(); ro = Interp(ctx.F, FidQ(exact=True)).tmp(st0, ('root', 0), 'outcome', o0)
            it, outs = ctx.run(f, FidQ(exact=True), st=st0, args={'version': version(ctx, levels, ex), 'outcome': ro, 'existing_wal_segments': segs(ctx, *ex), 'wal_floor': NONE if fl is None else some(seg(ctx, fl))})
            d = fields(ctx, o0)
            want = {**{k: P(v) for k, v in d.items()}, 'wal_segments': P(some(segs(ctx, *final))), 'obsolete_wal_segments': P(segs(ctx, *obs)), 'wal_floor': P(some(seg(ctx, fl)) if fl is not None else some(seg(ctx, final[0])) if final else NONE)}
            bad = []
            for o in outs:
                g = {k: P(it.deepval(o.st, v)) for k, v in fields(ctx, it.deepval(o.st, ro)).items()}
                if g != want: bad.append({k: g[k][:200] for k in g if g[k] != want[k]})
            ctx.ob(K, f'{ci}:{fl}', outs and not bad, f'WAL {ex}, files {levels}, removed {removed}, added {added}, floor {fl}: {bad[:1]}, expected kept {final}, obsolete {obs}', ctx.loc(f))

@rule('P03')
def gc_lists(ctx):
    """the GC plan of an outcome lists exactly the replaced files with their paths and the dropped WAL segments; nothing to collect gives no plan; a replaced file without a path is an error"""
    K = 'gc_lists'
    f = ctx.fn(OR + 'gc_plan_from_outcome')
    GP, GR = ctx.adt('domain::GcPlanState'), ctx.adt('domain::GcSstRef')
    for rem in ((), ((1, 0, True, False),), ((2, 1, True, True), (1, 0, True, False)), ((1, 0, True, False), (2, 1, False, True)), ((1, 2, False, False),)):
        for ow in ((), (3,), (3, 4)):
            o0 = outcome(ctx, remove_ssts=('a', tuple(desc(ctx, i, l, data=d, dele=x) for i, l, d, x in rem)), obsolete_wal_segments=segs(ctx, *ow), outputs=('a', (desc(ctx, 50, 1),)), add_ssts=('a', (sst(ctx, 50),)), wal_segments=some(segs(ctx, 7)))
            it, outs = ctx.run(f, CQ(exact=True), args=[o0])
            good = all(d for _, _, d, _ in rem)
            want = P(NONE if not rem and not ow else some(struct(ctx, GP, obsolete_ssts=('a', tuple(struct(ctx, GR, id=sid(ctx, i), level=('c', l), data_path=arg(f'D{i}'), delete_path=some(arg(f'X{i}')) if x else NONE) for i, l, d, x in rem)), obsolete_wal_segments=segs(ctx, *ow))))
            bad = []
            for o in outs:
                for s, vi, w in it.split(o.st, it.rd(o.st, o.v), RESULT):
                    if (vi == 0) != good: bad.append('accepted' if vi == 0 else 'refused')
                    elif good and P(it.deepval(s, w[3][0])) != want: bad.append(P(it.deepval(s, w[3][0]))[:400])
            ctx.ob(K, f'{rem}:{ow}', outs and not bad, f'GC plan for removed {rem}, dropped WAL {ow}: {bad[:1]}', ctx.loc(f))


# ---- metrics ------------------------------------------------------------------------------------------------------------
MX = 'crate::compaction::metrics::CompactionMetrics::'
U64 = (1 << 64) - 1
ATOM = (r'sync::atomic::Atomic.*::(load|store|swap|fetch_\w+|compare_exchange\w*|try_update|update)$', conc_atomic)
ATOM_NEW = (r'sync::atomic::Atomic.*::new$', lambda it, st, c: [(st, it.rd(st, c.args[0]))])
IOS = lambda ctx, b, r, t, ok_=True: struct(ctx, ctx.adt('metrics::CompactionIoStats'), bytes=('c', b), rows=('c', r), tombstones=('c', t), complete=TRUE if ok_ else FALSE)
def unwrap_c(v):
    if v[0] == 'e' and len(v[3]) == 1 and v[2] == 0: return unwrap_c(v[3][0])
    return v[1] if v[0] == 'c' else P(v)

@rule('P05')
def io_stats(ctx):
    """I/O statistics add up rows, bytes and tombstones of all files that have statistics, and are complete only if all have"""
    K = 'io_stats'
    S = lambda b, r, t: some(stats(ctx, 1, 2, b, r, t))
    cases = [[], [(5, 2, 1)], [(5, 2, 1), (10, 20, 30)], [None], [None, (5, 2, 1)], [(5, 2, 1), None, (7, 7, 0)], [(0, 0, 0), (1, 0, 9)], [(U64, 1, 1), (5, U64, U64)]]
    for fn, mkf in (('from_descriptors', lambda i, s: desc(ctx, i, 1, s)), ('from_entries', lambda i, s: entry(ctx, i, None, s))):
        f = ctx.fn('crate::compaction::metrics::CompactionIoStats::' + fn)
        for ci, c in enumerate(cases):
            it, outs = ctx.run(f, CQ(exact=True), args=[('a', tuple(mkf(i, NONE if x is None else S(*x)) for i, x in enumerate(c)))])
            k = [x for x in c if x]
            want = {n: min(U64, sum(x[j] for x in k)) for j, n in enumerate(('bytes', 'rows', 'tombstones'))} | {'complete': P(TRUE if len(k) == len(c) else FALSE)}
            bad = []
            for o in outs:
                g = fields(ctx, it.deepval(o.st, it.rd(o.st, o.v)))
                g = {n: v[1] if n != 'complete' else P(v) for n, v in g.items()}
                if g != want: bad.append(g)
            ctx.ob(K, f'{fn}:{ci}', outs and not bad, f'{fn} over {c}: {bad[:1]}, expected {want}', ctx.loc(f))

def job_cases():
    J = lambda *a: dict(zip(('source_level', 'target_level', 'input_sst_count', 'output_sst_count', 'input', 'output', 'duration_ms', 'cas_retries', 'cas_aborted'), a))
    a = J(0, 1, 4, 2, (11, 12, 13, True), (21, 22, 23, True), 31, 3, False)
    b = J(5, 6, 7, 8, (41, 42, 43, False), (51, 52, 53, True), 61, 0, True)
    c = J(2, 3, 1, 9, (71, 72, 73, True), (81, 82, 83, False), U64, 5, True)
    z = J(0, 0, 0, 0, (0, 0, 0, False), (0, 0, 0, False), 0, 0, False)
    return a, b, c, z

@rule('P05')
def counters(ctx):
    """a metrics snapshot reports exactly what was recorded: each event in its own counter, job totals, the last job; counters saturate"""
    K = 'counters'
    JS = ctx.adt('metrics::CompactionJobSnapshot')
    a, b, c, z = job_cases()
    big = dict(a, input=(U64 - 5, U64, 1, True), output=(U64, U64 - 1, U64, True), cas_retries=U64)
    ev = [[], [('t', 'Kick')], [('t', 'Periodic')], [('t', 'Kick'), ('t', 'Kick'), ('t', 'Periodic')]]
    ev += [[('q', x, y)] for x in ('Planner', 'Cascade') for y in ('Full', 'Closed')] + [[('q', 'Planner', 'Full'), ('q', 'Cascade', 'Closed'), ('q', 'Planner', 'Full')]]
    ev += [[('c', x)] for x in ('Scheduled', 'BlockedCooldown', 'BlockedBudget')] + [[('b', x)] for x in ('Slowdown', 'Stall')]
    ev += [[('ok', j)] for j in (a, b, c, z)] + [[('ab', j)] for j in (a, b, c, z)]
    ev += [[('ok', a), ('ok', b)], [('ok', c), ('ab', b)], [('ab', b), ('ok', a), ('ok', c)], [('ok', big), ('ok', a)], [('ab', dict(b, cas_retries=U64)), ('ab', b)], [('ok', a), ('ok', z)], [('ok', a), ('t', 'Kick'), ('c', 'Scheduled'), ('b', 'Stall'), ('q', 'Planner', 'Closed')]]
    f = ctx.fn(MX + 'snapshot')
    names = [x[0] for x in ctx.F.adts[ctx.adt('metrics::CompactionMetricsSnapshot')]['v'][0]['f']]
    En = {'t': 'metrics::CompactionTriggerReason', 'q1': 'metrics::CompactionQueueDropContext', 'q2': 'metrics::CompactionQueueDropReason', 'c': 'metrics::CompactionCascadeDecision', 'b': 'metrics::CompactionBackpressureSignal'}
    e = lambda k, v: enum(ctx, ctx.adt(En[k]), v)
    jv = lambda j: struct(ctx, JS, **{k: IOS(ctx, *v) if isinstance(v, tuple) else (TRUE if v else FALSE) if isinstance(v, bool) else ('c', v) for k, v in j.items()})
    Q = lambda: CQ(exact=True, calls=[ATOM, ATOM_NEW])
    for ei, evs in enumerate(ev):
        want = dict.fromkeys(names, 0); want['last_job'] = None
        def add(n, d=1): want[n] = min(U64, want[n] + d)
        it, outs = ctx.run(ctx.fn(MX + 'with_logs'), Q(), args=[FALSE])
        sts = []
        for o in outs:
            s = o.st; sts.append((s, it.tmp(s, ('root', 0), 'metrics', it.deepval(s, o.v))))
        r = sts[0][1]; sts = [s for s, _ in sts]
        for x in evs:
            if x[0] == 't': fn, av = 'record_trigger', [e('t', x[1])]; add('trigger_' + x[1].lower())
            elif x[0] == 'q': fn, av = 'record_queue_drop', [e('q1', x[1]), e('q2', x[2])]; add(f'queue_drops_{x[1].lower()}_{x[2].lower()}')
            elif x[0] == 'c': fn, av = 'record_cascade', [e('c', x[1])]; add('cascades_' + re.sub(r'(?<=.)([A-Z])', r'_\1', x[1]).lower())
            elif x[0] == 'b': fn, av = 'record_backpressure', [e('b', x[1]), arg('DELAY')]; add('backpressure_' + x[1].lower())
            else:
                j = x[1]; fn = 'record_job_success' if x[0] == 'ok' else 'record_job_abort'; av = [jv(j)]
                add('cas_retries', j['cas_retries'])
                if x[0] == 'ok':
                    add('job_count'); add('duration_ms_total', j['duration_ms'])
                    for d, sfx in (('input', 'in'), ('output', 'out')):
                        if j[d][3]:
                            for n, v in zip(('bytes', 'rows', 'tombstones'), j[d]): add(f'{n}_{sfx}', v)
                else:
                    add('job_failures')
                    if j['cas_aborted']: add('cas_aborts')
                want['last_job'] = P(jv(j))
            nx = []
            for s in sts:
                _, oo = ctx.run(ctx.fn(MX + fn), Q(), args=[r] + av, st=s)
                nx += [o.st for o in oo]
            sts = nx
        bad, n = [], 0
        for s in sts:
            it, oo = ctx.run(f, Q(), args=[r], st=s)
            for o in oo:
                n += 1
                g = fields(ctx, it.deepval(o.st, it.rd(o.st, o.v)))
                got = {k: (v[1] if v[0] == 'c' else P(v)) for k, v in g.items() if k != 'last_job'}
                l = g['last_job']; got['last_job'] = None if l == NONE else P(l[3][0]) if l[0] == 'e' and l[3] else P(l)
                if got != want: bad.append({k: (got.get(k), want[k]) for k in want if got.get(k) != want[k]})
        ctx.ob(K, str(ei), n and not bad, f'after {[x[:3] if x[0] not in ("ok", "ab") else (x[0], ) for x in evs]}: (reported, recorded) {bad[:1]}', ctx.loc(f))

# ---- sizes and identities of outputs ------------------------------------------------------------------------------------
EX = 'crate::compaction::executor::LocalCompactionExecutor::'
def executor(ctx, rows=None, nbytes=None, nid=7):
    X = ctx.adt('executor::LocalCompactionExecutor')
    o = lambda v: NONE if v is None else some(('c', v))
    return struct(ctx, X, config=arg('CFG'), next_id=('c', nid), max_output_rows=o(rows), max_output_bytes=o(nbytes))

@rule('P06')
def caps(ctx):
    """output limits: the configured ones (at least 1), otherwise no row limit and 128 MiB tenfold per level up to 512 MiB"""
    K = 'caps'
    MB = 1 << 20
    for l in range(6):
        for rows, nb in ((None, None), (5, None), (None, 1 << 33), (9, 3)):
            f = ctx.fn(EX + 'output_caps_for_level')
            it, outs = ctx.run(f, CQ(exact=True), args=[executor(ctx, rows, nb), ('c', l)])
            o = lambda v: NONE if v is None else some(('c', v))
            want = P(('t', (o(rows), o(nb if nb is not None else min(512 * MB, 128 * MB * 10 ** l)))))
            bad = [v for x in outs for v in [P(it.deepval(x.st, x.v))] if v != want]
            ctx.ob(K, f'{l}:{rows}:{nb}', outs and not bad, f'output limits (rows, bytes) at level {l} with configured ({rows}, {nb}): {bad[:1]}, expected {want}', ctx.loc(f))
    for fn, fld in (('with_max_output_bytes', 'max_output_bytes'), ('with_max_output_rows', 'max_output_rows')):
        f = ctx.fn(EX + fn)
        for v in (0, 1, 2, U64):
            it, outs = ctx.run(f, CQ(exact=True), args=[executor(ctx, 41, 42), ('c', v)])
            want = P(executor(ctx, **{**{'rows': 41, 'nbytes': 42}, **{'nbytes' if 'bytes' in fn else 'rows': max(1, v)}}))
            bad = [w for x in outs for w in [P(it.deepval(x.st, x.v))] if w != want]
            ctx.ob(K, f'{fn}:{v}', outs and not bad, f'{fn}({v}): {bad[:1]}, expected {want}', ctx.loc(f))

@rule('P06')
def ids(ctx):
    """every output gets a fresh id from the shared allocator, at the requested level"""
    K = 'ids'
    f = ctx.fn(EX + 'alloc_descriptor')
    A = lambda it, st, c: conc_atomic(it, st, c)
    st = State(); it = Interp(ctx.F, CQ(exact=True, calls=[ATOM]))
    r = it.tmp(st, ('root', 0), 'alloc', ('c', 7))
    me = struct(ctx, ctx.adt('executor::LocalCompactionExecutor'), config=arg('CFG'), next_id=r, max_output_rows=NONE, max_output_bytes=NONE)
    sts, got = [(st, ())], None
    for lv in (0, 3, 1):
        nx = []
        for s, ds in sts:
            it, outs = ctx.run(f, CQ(exact=True, calls=[ATOM]), args=[me, ('c', lv)], st=s)
            for o in outs:
                d = fields(ctx, it.deepval(o.st, o.v)); nx.append((o.st, ds + ((d['id'][3][0][1] if d['id'][3][0][0] == 'c' else P(d['id']), d['level'][1]),)))
        sts = nx
    for s, ds in sts:
        i = [x for x, _ in ds]
        ctx.ob(K, 'fresh', len(set(i)) == 3 and all(isinstance(x, int) and x >= 7 for x in i) and [l for _, l in ds] == [0, 3, 1] and s is not None and it.load(s, r[1], ())[1] > max(i), f'three outputs at levels 0, 3, 1 got (id, level) {ds} from an allocator at 7', ctx.loc(f))
    ctx.need(K, 1)

# ---- scheduling ---------------------------------------------------------------------------------------------------------
SC = 'crate::compaction::scheduler::CompactionScheduler::'
CCt = 'crate::compaction::driver::CascadeControl::'
def dur(v): return ('c', v)
DUR = [(r'::duration_since$|Instant as core::ops::arith::Sub|::saturating_duration_since$', lambda it, st, c: (lambda a, b: [(st, ('c', max(0, a[1] - b[1])))] if a[0] == b[0] == 'c' else None)(it.rd(st, c.args[0]), it.rd(st, c.args[1]))),
       (r'Instant::elapsed$', lambda it, st, c: [(st, arg('ELAPSED'))])]
@rule('P04')
def cascade(ctx):
    """a follow-up compaction is allowed only while the budget of this trigger lasts and the cooldown since the last one is over; allowing one spends budget and restarts the cooldown"""
    K = 'cascade'
    A = ctx.adt('driver::CascadeControl')
    f = ctx.fn(CCt + 'try_acquire')
    for mx in (0, 1, 3):
        for rem in range(mx + 1):
            for last in (None, 100):
                for cd in (0, 5):
                    for now in (100, 104, 105, 106):
                        st = State(); it = Interp(ctx.F, CQ(exact=True))
                        me = struct(ctx, A, max_follow_ups=('c', mx), cooldown=dur(cd), remaining=('c', rem), last_cascade_at=NONE if last is None else some(('c', last)))
                        r = it.tmp(st, ('root', 0), 'cc', me)
                        it, outs = ctx.run(f, CQ(exact=True, calls=DUR), args=[r, ('c', now)], st=st)
                        d = 'BudgetExhausted' if rem == 0 else 'CooldownActive' if last is not None and now - last < cd else 'Allowed'
                        wm = me if d != 'Allowed' else struct(ctx, A, max_follow_ups=('c', mx), cooldown=dur(cd), remaining=('c', rem - 1), last_cascade_at=some(('c', now)))
                        bad = []
                        for o in outs:
                            for s, vi, w in it.split(o.st, it.rd(o.st, o.v), ctx.adt('driver::CascadeDecision')):
                                g = (ctx.F.adts[ctx.adt('driver::CascadeDecision')]['v'][vi]['n'], P(it.deepval(s, r)))
                                if g != (d, P(wm)): bad.append(g)
                        ctx.ob(K, f'{mx}:{rem}:{last}:{cd}:{now}', outs and not bad, f'follow-up at {now} (budget {rem} of {mx}, last at {last}, cooldown {cd}): {bad[:1]}, expected {d}, {P(wm)}', ctx.loc(f))
    f = ctx.fn(CCt + 'reset_budget')
    st = State(); it = Interp(ctx.F, CQ(exact=True))
    r = it.tmp(st, ('root', 0), 'cc', struct(ctx, A, max_follow_ups=('c', 4), cooldown=dur(9), remaining=('c', 1), last_cascade_at=some(('c', 100))))
    it, outs = ctx.run(f, CQ(exact=True), args=[r], st=st)
    bad = [v for o in outs for v in [P(it.deepval(o.st, r))] if v != P(struct(ctx, A, max_follow_ups=('c', 4), cooldown=dur(9), remaining=('c', 4), last_cascade_at=some(('c', 100))))]
    ctx.ob(K, 'reset', outs and not bad, f'resetting the budget gives {bad[:1]}', ctx.loc(f))
    f = ctx.fn(CCt + 'new')
    it, outs = ctx.run(f, CQ(exact=True), args=[('c', 4), dur(9)])
    bad = [v for o in outs for v in [P(it.deepval(o.st, o.v))] if v != P(struct(ctx, A, max_follow_ups=('c', 4), cooldown=dur(9), remaining=('c', 4), last_cascade_at=NONE))]
    ctx.ob(K, 'new', outs and not bad, f'a new cascade control is {bad[:1]}', ctx.loc(f))

def sched(ctx, budget): return struct(ctx, ctx.adt('scheduler::CompactionScheduler'), tx=arg('TX'), budget=('c', budget))

@rule('P04')
def admission(ctx):
    """admitting a task never waits: it is handed to the queue once with its expected head and a lease, or reported as full or closed"""
    K = 'admission'
    f = ctx.fn(SC + 'enqueue')
    for res in ('ok', 'full', 'closed'):
        def send(it, st, c):
            st.setg('sent', st.g('sent', ()) + (P(it.deepval(st, c.args[1])),))
            return [(st, ok(UNIT) if res == 'ok' else err(('s', res)))]
        H = [(r'Sender::<.*try_send$|Sender.*::try_send$', send), (r'is_disconnected$', lambda it, st, c: [(st, TRUE if it.rd(st, c.args[0]) == ('s', 'closed') else FALSE)]), (r'is_full$', lambda it, st, c: [(st, TRUE if it.rd(st, c.args[0]) == ('s', 'full') else FALSE)]),
             (r'Sender.*::(send|poll_ready|start_send|feed|close_channel)$|SinkExt::', lambda it, st, c: (st.setg('waits', c.short), None)[1]), (r'Mutex.*::lock$', lambda it, st, c: [(st, mk(('call', 'LOCK', ())))]), (r'Ulid.*::(new|generate\w*)$', lambda it, st, c: [(st, arg('ULID'))])]
        it, outs = ctx.run(f, CQ(exact=True, calls=H, awaits=[(r'^LOCK$', lambda it, st, n, a, site, t: [(st, arg('GUARD'))])]), args={'self': sched(ctx, 3), 'task': arg('TASK'), 'manifest_head': some(TS(ctx, 5)), 'owner': ('s', 'own'), 'ttl_ms': ('c', 77)})
        want = struct(ctx, ctx.adt('scheduler::ScheduledCompaction'), task=arg('TASK'), manifest_head=some(TS(ctx, 5)), lease=struct(ctx, ctx.adt('executor::CompactionLease'), id=arg('ULID'), owner=('s', 'own'), ttl_ms=('c', 77)))
        bad = []
        for o in outs:
            for s, vi, w in it.split(o.st, it.rd(o.st, o.v), RESULT):
                e = None if vi == 0 else vname(ctx, it.deepval(s, w[3][0])).lower() if w[3][0][0] == 'e' else P(w[3][0])
                if s.g('sent') != (P(want),) or s.g('waits') or e != {'ok': None}.get(res, res): bad.append((e, s.g('waits'), s.g('sent')))
        ctx.ob(K, res, outs and not bad, f'admission with the queue answering {res}: {bad[:1]}, expected one {P(want)}', ctx.loc(f))
    f = ctx.fn(SC + 'new')
    for cap, b in ((0, 0), (1, 1), (4, 0), (5, 3)):
        def chan(it, st, c): st.setg('cap', P(it.rd(st, c.args[0]))); return [(st, ('t', (arg('TX'), arg('RX'))))]
        it, outs = ctx.run(f, CQ(exact=True, calls=[(r'mpsc::channel$', chan), (r'Mutex.*::new$', lambda it, st, c: [(st, c.args[0])])]), args=[('c', cap), ('c', b)])
        bad = []
        for o in outs:
            v = it.deepval(o.st, o.v)
            g = (o.st.g('cap'), P(fields(ctx, v[1][0])['budget']))
            if g != (str(max(cap, 1) - 1), str(max(b, 1))): bad.append(g)
        ctx.ob(K, f'new:{cap}:{b}', outs and not bad, f'scheduler with capacity {cap} and budget {b}: (channel buffer, budget) {bad[:1]}', ctx.loc(f))

@rule('P04')
def drain(ctx):
    """draining takes at most the budget of queued tasks, starts each once in order and returns only when all have finished; a closed queue is reported"""
    K = 'drain'
    f = ctx.fn(SC + 'drain_with_budget')
    for budget in (1, 2, 3):
        for queued in range(5):
            for closed in (False, True):
                def take(it, st, c):
                    v = it.deepval(st, c.args[0])
                    if 'RXNEXT' not in P(v): return None
                    n = st.g('taken', 0)
                    if n < queued:
                        st.setg('taken', n + 1); return [(st, some(some(arg(f'JOB{n}'))))]
                    return [(st, some(NONE) if closed else NONE)]
                def nxt(it, st, c):
                    return [(st, mk(('call', 'RXNEXT' if 'RX' in P(it.deepval(st, c.args[0])) else 'FUNEXT', (('s', P(it.deepval(st, c.args[0]))),))))]
                def start(it, st, c):
                    j = P(it.deepval(st, c.args[1])); st.setg('started', st.g('started', ()) + (j,)); return [(st, mk(('call', 'FUT', (('s', j),))))]
                def push(it, st, c): st.setg('running', st.g('running', 0) + 1); return [(st, UNIT)]
                def fin(it, st, n, a, site, t):
                    r = st.g('running', 0)
                    if r: st.setg('running', r - 1)
                    return [(st, some(UNIT) if r else NONE)]
                def rxw(it, st, n, a, site, t): st.setg('waits', 1); return [(st, arg('LATER'))]
                H = [(r'FnMut::call_mut$', start), (r'now_or_never$', take), (r'StreamExt::next$', nxt), (r'FuturesUnordered.*::new$', lambda it, st, c: [(st, arg('FU'))]), (r'FuturesUnordered.*::push$', push)]
                it, outs = ctx.run(f, CQ(exact=True, calls=H, awaits=[(r'^RXNEXT$', rxw), (r'^FUNEXT$', fin)]), args={'self': sched(ctx, budget), 'rx': arg('RX'), 'f': arg('CALLBACK')})
                n = min(budget, queued)
                bad = []
                for o in outs:
                    for s, vi, w in it.split(o.st, it.rd(o.st, o.v), RESULT):
                        good = not (closed and queued < budget)
                        got = (s.g('taken', 0), s.g('started', ()), s.g('running', 0) if vi == 0 else 0, vi == 0, s.g('waits', 0))
                        if got[0] != n or len(got[1]) != n or any(f'JOB{i}' not in x for i, x in enumerate(got[1])) or got[2] or got[3] != good or got[4]: bad.append(got)
                ctx.ob(K, f'{budget}:{queued}:{closed}', outs and not bad, f'{queued} tasks queued ({"closed" if closed else "open"}), budget {budget}: (taken, started, unfinished, ok, waited) {bad[:1]}', ctx.loc(f))


# ---- publication of a scheduled compaction ------------------------------------------------------------------------------
def one(ctx, sfx):
    c = [b for k, b in ctx.F.bodies.items() if k.endswith(sfx) and '::tests' not in k]
    if len(c) == 1: return c[0]
    raise Missing(sfx)

def scheduled_run(ctx, heads, expected, applies, exec_ok=True, gc_ok=True, version_=True):
    """run the scheduled compaction of SST 1 (level 0) into SST 20: heads[i] = head seen by the i-th snapshot, applies[i] = outcome of the i-th publication"""
    f = one(ctx, '::run_scheduled_compaction')
    TH, TSn, OC = ctx.adt('domain::TableHead'), ctx.adt('TableSnapshot'), ctx.adt('executor::CompactionOutcome')
    V = version(ctx, (((1, ('F1',), NONE), (2, ('F2',), NONE)),), (1, 2))
    ME = ctx.adt('ManifestError')
    log = lambda st, *e: st.setg('log', st.g('log', ()) + (e,))
    def snap(it, st, n, a, site, t):
        i = st.g('nsnap', 0); st.setg('nsnap', i + 1); log(st, 'snapshot')
        h = heads[min(i, len(heads) - 1)]
        if h == 'err': return [(st, err(arg('SNAPERR')))]
        hd = struct(ctx, TH, table_id=arg('TBL'), schema_version=arg('SV'), wal_floor=NONE, last_manifest_txn=NONE if h is None else some(TS(ctx, h)))
        return [(st, ok(struct(ctx, TSn, _manifest_snapshot=arg('MS'), head=hd, latest_version=some(V) if version_ else NONE, _table_meta=arg('META'))))]
    def ex(it, st, n, a, site, t):
        i = st.g('nexec', 0); st.setg('nexec', i + 1); log(st, 'execute', P(a[0]))
        if not exec_ok: return [(st, err(arg('EXECERR')))]
        out = desc(ctx, 20 + i, 1, wal=('F1',))
        return [(st, ok(outcome(ctx, add_ssts=('a', (sst(ctx, 20 + i),)), remove_ssts=('a', (desc(ctx, 1, 0, wal=('F1',)),)), outputs=('a', (out,)), target_level=('c', 1))))]
    def app(it, st, n, a, site, t):
        i = st.g('napp', 0); st.setg('napp', i + 1)
        r = applies[min(i, len(applies) - 1)]
        log(st, 'apply', P(a[1]), tuple(sorted(vname(ctx, e) + ':' + ','.join(re.findall(r'SsTableId#0\{(\d+)\}', P(e))) for e in a[2][1])) if a[2][0] == 'a' else P(a[2]), r)
        return [(st, ok(arg('NEWHEAD')) if r == 'ok' else err(enum(ctx, ME, 'CasConflict', arg('CAS'))) if r == 'cas' else err(enum(ctx, ME, 'Invariant', ('s', 'x'))))]
    def clean(it, st, n, a, site, t): log(st, 'cleanup', tuple(re.findall(r'SsTableDescriptor#0\{SsTableId#0\{(\d+)\}', P(a[0])))); return [(st, ok(UNIT))]
    def gc(it, st, n, a, site, t): log(st, 'gc', tuple(re.findall(r'SsTableId#0\{(\d+)\}', P(a[1])))); return [(st, ok(UNIT) if gc_ok else err(arg('GCERR')))]
    fut = lambda nm, k=1: lambda it, st, c: [(st, mk(('call', nm, tuple(it.deepval(st, a) for a in c.args[k:]))))]
    H = [(r'::snapshot_latest$', fut('SNAP')), (r'CompactionExecutor::execute$', fut('EXEC')), (r'CompactionExecutor::cleanup_outputs$', fut('CLEAN')), (r'::apply_version_edits_cas$', fut('APPLY')), (r'::record_gc_plan$', fut('GC')),
         (r'::prune_wal_below_floor$', fut('PRUNE')), (r'::manifest_wal_floor$', fut('FLOOR')), (r'::wal_floor$', fut('FLOOR')), (r'::sleep_cas_backoff$', fut('SLEEP')), (r'::(record_job_success|record_job_abort)$', lambda it, st, c: (st.setg('job', st.g('job', ()) + (c.short,)), [(st, UNIT)])[1]),
         (r'Timer::now$', lambda it, st, c: [(st, arg('NOW'))])]
    A = [(r'^SNAP$', snap), (r'^EXEC$', ex), (r'^APPLY$', app), (r'^CLEAN$', clean), (r'^GC$', gc), (r'^PRUNE$', lambda it, st, *x: [(st, UNIT)]), (r'^FLOOR$', lambda it, st, *x: [(st, NONE)]), (r'^SLEEP$', lambda it, st, *x: [(st, UNIT)])]
    sc = struct(ctx, ctx.adt('scheduler::ScheduledCompaction'), task=task(ctx, ((0, 1),)), manifest_head=NONE if expected is None else some(TS(ctx, expected)), lease=arg('LEASE'))
    it, outs = ctx.run(f, FidQ(exact=True, calls=H, awaits=A), args={'scheduled': sc})
    res = []
    for o in outs:
        for s, vi, w in it.split(o.st, it.rd(o.st, o.v), RESULT):
            v = it.deepval(s, w[3][0])
            k = ('none' if v == NONE else 'done') if vi == 0 else 'cas' if v[0] == 'e' and vname(ctx, v) == 'CasConflict' else 'error'
            res.append((k, s.g('log', ()), s.g('job', ())))
    return f, res

@rule('P07')
def publish_scheduled(ctx):
    """a scheduled compaction is published once, against the head it was planned on; on a conflict or failure its outputs are removed and nothing of it is published; once published its outputs are never removed"""
    K = 'publish_scheduled'
    E = lambda i: ('AddSsts:%d' % (20 + i), 'RemoveSsts:1', 'SetWalSegments:')
    T5 = P(some(TS(ctx, 5)))
    cases = [('head moved', ([6], 5, ['ok']), lambda k, l: k == 'none' and l == ['snapshot']),
             ('no version', ([5], 5, ['ok'], True, True, False), lambda k, l: k == 'none' and l == ['snapshot']),
             ('head moved, none', ([None], 5, ['ok']), lambda k, l: k == 'none' and l == ['snapshot']),
             ('snapshot fails', (['err'], 5, ['ok']), lambda k, l: k == 'error' and l == ['snapshot']),
             ('published', ([5], 5, ['ok']), lambda k, l: k == 'done' and l == ['snapshot', 'execute', ('apply', T5, E(0), 'ok'), ('gc', ('1',))]),
             ('published without expectation', ([5], None, ['ok']), lambda k, l: k == 'done' and l == ['snapshot', 'execute', ('apply', T5, E(0), 'ok'), ('gc', ('1',))]),
             ('GC plan fails', ([5], 5, ['ok'], True, False), lambda k, l: k == 'error' and l == ['snapshot', 'execute', ('apply', T5, E(0), 'ok'), ('gc', ('1',))]),
             ('execution fails', ([5], 5, ['ok'], False), lambda k, l: k == 'error' and l == ['snapshot', 'execute']),
             ('publication fails', ([5], 5, ['inv']), lambda k, l: k == 'error' and l == ['snapshot', 'execute', ('apply', T5, E(0), 'inv'), ('cleanup', ('20',))]),
             ('conflict, then head moved', ([5, 6], 5, ['cas', 'ok']), lambda k, l: k == 'none' and l == ['snapshot', 'execute', ('apply', T5, E(0), 'cas'), ('cleanup', ('20',)), 'snapshot']),
             ('conflict, then published', ([5, 5], 5, ['cas', 'ok']), lambda k, l: k == 'done' and l == ['snapshot', 'execute', ('apply', T5, E(0), 'cas'), ('cleanup', ('20',)), 'snapshot', 'execute', ('apply', T5, E(1), 'ok'), ('gc', ('1',))]),
             ('conflict on a moving head', ([5, 6], None, ['cas', 'ok']), lambda k, l: k == 'done' and l == ['snapshot', 'execute', ('apply', T5, E(0), 'cas'), ('cleanup', ('20',)), 'snapshot', 'execute', ('apply', P(some(TS(ctx, 6))), E(1), 'ok'), ('gc', ('1',))]),
             ('conflicts forever', ([5], 5, ['cas']), lambda k, l: k == 'cas' and 0 < l.count('execute') <= 10 and [x for x in l if x not in ('snapshot', 'execute')] == [y for i in range(l.count('execute')) for y in (('apply', T5, E(i), 'cas'), ('cleanup', (str(20 + i),)))])]
    for nm, a, want in cases:
        f, res = scheduled_run(ctx, *a)
        bad = []
        for k, l, job in res:
            l2 = [e[0] if e[0] in ('snapshot', 'execute') else e for e in l]
            if any(e[0] == 'execute' and '1' not in re.findall(r'SsTableId#0\{(\d+)\}', e[1]) for e in l): bad.append('executed on other inputs')
            if not want(k, l2): bad.append((k, l2))
        ctx.ob(K, nm, res and not bad, f'{nm}: {bad[:1]}', ctx.loc(f))
publish_scheduled.whole = True

@rule('P04')
def worker_handle(ctx):
    """dropping the worker's handle asks the worker to stop and aborts it; a kick sends one kick and never waits"""
    K = 'worker_handle'
    A = ctx.adt('handle::CompactionHandle')
    CT = ctx.adt('handle::CompactionTrigger')
    drop = [b for k, b in ctx.F.bodies.items() if k.startswith('crate::<compaction::handle::CompactionHandle') and k.endswith('Drop>::drop')]
    if len(drop) != 1: raise Missing('CompactionHandle drop')
    def send(it, st, c): st.setg('log', st.g('log', ()) + (P(it.deepval(st, c.args[1])),)); return [(st, arg('SENT'))]
    H = [(r'Sender.*::try_send$', send), (r'AbortHandle::abort$', lambda it, st, c: (st.setg('log', st.g('log', ()) + ('abort',)), [(st, UNIT)])[1]), (r'Sender.*::(send|feed)$|SinkExt::', lambda it, st, c: (st.setg('log', st.g('log', ()) + ('waits',)), None)[1]),
         (r'Clone::clone$', lambda it, st, c: [(st, it.rd(st, c.args[0]))])]
    for f, nm, trig in ((drop[0], 'drop', 'Shutdown'), (ctx.fn('crate::compaction::handle::CompactionHandle::<E>::kick'), 'kick', 'Kick')):
        for ab in (True, False):
            for sender in (True, False):
                st = State(); it = Interp(ctx.F, CQ(exact=True))
                r = it.tmp(st, ('root', 0), 'h', struct(ctx, A, abort=some(arg('ABORT')) if ab else NONE, join=NONE, trigger=some(arg('TRIG')) if sender else NONE, _marker=arg('M')))
                it, outs = ctx.run(f, CQ(exact=True, calls=H), args=[r], st=st)
                want = ([P(enum(ctx, CT, trig))] if sender else []) + (['abort'] if ab and nm == 'drop' else [])
                bad = [o.st.g('log', ()) for o in outs if sorted(o.st.g('log', ())) != sorted(want)]
                ctx.ob(K, f'{nm}:{ab}:{sender}', outs and not bad, f'{nm} of a handle (abort {ab}, trigger {sender}): {bad[:1]}, expected {want}', ctx.loc(f))
