"""all.py [FACTS.json]: run every rule once (development aid); prints violations with the properties they belong to"""
import sys, os, re, json, time, glob, importlib, traceback
from multiprocessing import Pool
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
def load():
    import core
    for f in sorted(glob.glob(os.path.join(HERE, 'rules', '*.py'))): importlib.import_module('rules.' + os.path.basename(f)[:-3])
    return core
def work(a):
    fp, names = a
    core = load()
    from facts import Facts
    F = Facts(fp); base = json.load(open(os.path.join(HERE, 'baseline_sigs.json')))
    import absint
    bp = os.path.join(HERE, 'baseline_opaque.json')
    bop = json.load(open(bp)) if os.path.exists(bp) else {}
    rs = {}
    for p, l in core.RULES.items():
        for r in l: rs.setdefault(r, []).append(p)
    out = []
    for r, ps in rs.items():
        if r.__module__ + '.' + r.__name__ not in names: continue
        ctx = core.Ctx(F, ps[0], base); ctx.tier = 'quick'; ctx.scope = 'whole'; t = time.time()
        why = core.decide(ctx, r, bop)
        out.append((r.__name__, ps, len(ctx.obs), ctx.viol, time.time() - t, why, sorted(absint.OPAQUE), sorted(ctx.fns)))
    return out
if __name__ == '__main__':
    fp = sys.argv[1] if len(sys.argv) > 1 else '/verif/build/facts.json'
    core = load()
    names = sorted({r.__module__ + '.' + r.__name__ for l in core.RULES.values() for r in l})
    if os.environ.get('MODS'): names = [n for n in names if re.search(os.environ['MODS'], n)]
    n = int(os.environ.get('NP', '8'))
    known = set(re.findall(r'^finding: .*?key=(\S+)', open(os.path.join(HERE, '..', 'known-findings.txt')).read(), re.M))
    with Pool(n) as p: res = p.map(work, [(fp, set(names[i::n])) for i in range(n)])
    tot = v = 0; allopq = {}; cover = {}
    for l in res:
        for nm, ps, o, vi, t, why, opq, fns in l:
            for q in fns: cover.setdefault(q, []).append(nm)
            allopq[nm] = opq
            if why: print('U', ','.join(ps), nm, why.replace('\n', ' | ')[:int(os.environ.get('W', 220))])
            tot += o
            for x in vi:
                if f'{x[0]}/{x[1]}'.replace(' ', '_') in known: continue
                v += 1; print('V', ','.join(ps), f'{x[0]}/{x[1]}', str(x[2])[:int(os.environ.get('W', 220))], x[3][-90:])
            if t > 20: print('slow', nm, round(t, 1))
    print(f'{len(names)} rules, {tot} obligations, {v} violations')
    if '--baseline' in sys.argv: json.dump(allopq, open(os.path.join(HERE, 'baseline_opaque.json'), 'w'), indent=0, sort_keys=True)
    if os.environ.get('COVER'): json.dump(cover, open(os.environ['COVER'], 'w'))
