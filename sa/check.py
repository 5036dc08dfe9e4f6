#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property on /repo's current working tree."""
import sys, os, json, time, subprocess, hashlib, traceback, re
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get('REPO', '/repo')

def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, 'src'), os.path.join(VERIF, 'tool')):
        for d, ds, fs in sorted(os.walk(base)):
            ds[:] = sorted(x for x in ds if x != 'target')
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(open(p, 'rb').read())
    for f in ('Cargo.toml',):
        h.update(open(os.path.join(REPO, f), 'rb').read())
    return h.hexdigest()[:24]

def facts():
    import fcntl
    b = os.environ.get('VERIF_BUILD') or os.path.join(VERIF, 'build')
    os.makedirs(b, exist_ok=True)
    with open(os.path.join(b, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        out = os.path.join(b, f'facts-{tree_hash()}.json')
        scope = out + '.scope'
        if not (os.path.exists(out) and os.path.exists(scope)):
            for f in os.listdir(b):
                if f.startswith('facts-'): os.unlink(os.path.join(b, f))
            r = subprocess.run(['bash', os.path.join(VERIF, 'tool', 'extract.sh'), out], capture_output=True, text=True)
            if r.returncode != 0:
                sys.stderr.write(r.stderr[-6000:])
                print('ERROR: /repo does not type-check, nothing can be decided')
                sys.exit(2)
            open(scope, 'w').write(r.stdout.strip())
        from facts import Facts
        return Facts(out), open(scope).read().strip()

def known(prop):
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: '):
                m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
                if m and m.group(1) == prop: out[m.group(2)] = m.group(3)
    return out

def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or '--tier=thorough' in sys.argv else 'quick'
    import core
    from core import Ctx, Missing, RULES
    import importlib, glob
    for f in sorted(glob.glob(os.path.join(HERE, 'rules', '*.py'))):
        importlib.import_module('rules.' + os.path.basename(f)[:-3])
    F, scope = facts()
    base = json.load(open(os.path.join(HERE, 'baseline_sigs.json')))
    ctx = Ctx(F, prop, base)
    ctx.tier = tier
    ctx.scope = scope
    if prop not in RULES:
        print('ERROR: no rules for', prop); sys.exit(2)
    rinfo, undecided = [], []
    bop = json.load(open(os.path.join(HERE, 'baseline_opaque.json')))
    for r in RULES[prop]:
        t1 = time.time()
        n0 = len(ctx.obs)
        why = core.decide(ctx, r, bop)
        if why and not (scope == 'slice' and getattr(r, 'whole', False)): undecided.append((r.__name__, why))
        rinfo.append({'rule': r.__name__, 'doc': (r.__doc__ or '').strip().split('\n')[0], 'obligations': len(ctx.obs) - n0, 's': round(time.time() - t1, 2)})
    kn = known(prop)
    viols, finds = [], []
    seen = set()
    for rule, key, detail, where in ctx.viol:
        k = f'{rule}/{key}'.replace(' ', '_')
        if k in seen: continue
        seen.add(k)
        if k in kn: finds.append((k, kn[k]))
        else: viols.append((k, detail, where))
    rep = os.path.join(VERIF, 'evidence', f'{prop}.report.txt')
    os.makedirs(os.path.dirname(rep), exist_ok=True)
    with open(rep, 'w') as f:
        f.write(f'property {prop} on {REPO} ({scope} crate)\n')
        for k, d, w in viols: f.write(f'VIOLATION {k}\n  {d}\n  at {w}\n')
        for rule, key, okk in ctx.obs: f.write(f"{'ok  ' if okk else 'FAIL'} {rule}/{key}\n")
    for a, b in undecided: print(f'UNDECIDED: {prop} {a}: {b.splitlines()[0]}')
    for k, d in finds: print(f'KNOWN-FINDING: property={prop} {k}: {d}')
    for k, d, w in viols:
        print(f'{prop}: {k}: {d}' + (f' [{w}]' if w else ''))
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the MIR of the current working tree (abstract interpretation with value numbering; no execution, no solver). '
                           'Each obligation is one rule instance decided on all abstract paths of the listed entry points.',
            'scope': f'{scope} crate, {len(F.bodies)} bodies extracted',
            'functions_analysed': len(ctx.fns), 'call_sites': len(ctx.sites), 'abstract_steps': ctx.steps,
            'obligations': len(ctx.obs), 'discharged': sum(1 for o in ctx.obs if o[2]),
            'rules': rinfo, 'functions': sorted(ctx.fns)[:400],
            'known_findings': [k for k, _ in finds],
            'undecided': [{'rule': a, 'why': b} for a, b in undecided],
        },
        'wall_s': round(time.time() - t0, 2), 'violations': len(viols),
    }
    json.dump(ev, open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w'), indent=1)
    print(f'{prop}: {len(ctx.obs)} obligations, {len(ctx.fns)} functions, {len(ctx.sites)} call sites, {len(viols)} violations, {ev["wall_s"]} s')
    if viols:
        print(f'VIOLATION property={prop} replay={rep}')
        sys.exit(1)
    sys.exit(0)

if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    main()
