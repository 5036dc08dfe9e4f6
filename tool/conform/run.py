"""run.py: interpret small programs over std with known inputs and compare with running them (checks the models of the analyser; development aid, not part of a check)"""
import sys, os, re, json, subprocess, shutil
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H); sys.path.insert(0, os.path.join(H, '../../sa')); sys.setrecursionlimit(20000)
from snippets import PRE, S

def _p(g):
    try: return path(g)
    except Exception as e: return 'path-crash '+repr(g)[:60]
S += [x for f in sorted(os.listdir(H)) if f.endswith('.more') for x in open(os.path.join(H, f)).read().strip().split('\n') if x.strip()]
D = '/tmp/zz'
src = '#![allow(unused)]\n' + ''.join(f'pub fn z{i}() -> Vec<i64> {{ {PRE} {b} }}\n' for i, b in enumerate(S))
shutil.rmtree('/tmp/zzn', ignore_errors=True); os.makedirs('/tmp/zzn')
open('/tmp/zzn/a.rs', 'w').write(src + 'fn main() {\n' + ''.join(f'println!("{i} {{:?}}", z{i}());\n' for i in range(len(S))) + '}\n')
p = subprocess.run(['rustc', '--edition', '2024', '-A', 'warnings', '-o', '/tmp/zzn/a', '/tmp/zzn/a.rs'], capture_output=True, text=True)
if p.returncode: print(p.stderr[:3000]); sys.exit(1)
want = {int(l.split(' ', 1)[0]): json.loads(l.split(' ', 1)[1]) for l in subprocess.run(['/tmp/zzn/a'], capture_output=True, text=True).stdout.splitlines()}
if '--nobuild' not in sys.argv:
    if not os.path.isdir(D): subprocess.run(['git', 'clone', '-q', '/repo', D], check=True)
    subprocess.run(['git', '-C', D, 'checkout', '-q', '.'], check=True)
    open(D + '/src/zz.rs', 'w').write(src)
    l = open(D + '/src/lib.rs').read(); open(D + '/src/lib.rs', 'w').write(l + '\npub mod zz;\n')
    os.makedirs('/tmp/zvb', exist_ok=True)
    if not os.path.isdir('/tmp/zvb/target'): subprocess.run('cp -a /verif/build/target /verif/build/factdump /tmp/zvb/', shell=True, check=True)
    e = dict(os.environ, REPO=D, VERIF_BUILD='/tmp/zvb')
    p = subprocess.run(['bash', os.path.join(H, '../extract.sh'), '/tmp/zvb/f.json'], env=e, capture_output=True, text=True)
    if p.returncode: print(p.stdout[-2000:], p.stderr[-2000:]); sys.exit(1)
import core, absint
from core import *
from facts import Facts
F = Facts('/tmp/zvb/f.json')
good = imprecise = 0
for i, b in enumerate(S):
    absint.OPAQUE.clear()
    ctx = Ctx(F, 'conform', {}); ctx.tier = 'quick'; ctx.scope = 'whole'
    try:
        it, outs = ctx.run(ctx.fn(f'crate::zz::z{i}'), CQ(exact=True))
        got = [it.deepval(o.st, o.v) for o in outs]
    except Exception as ex: print('EXC  ', i, b[:150], type(ex).__name__, str(ex)[:80]); continue
    def val(v):
        if v[0] == 'a' and all(x[0] == 'c' and isinstance(x[1], (int, bool)) for x in v[1]): return [int(x[1]) for x in v[1]]
    vs = [val(g) for g in got]
    if len(vs) == 1 and vs[0] == want[i]: good += 1; continue
    kind = 'WRONG' if vs and all(v is not None for v in vs) and want[i] not in vs else 'impr ' if got else 'NORET'
    print(kind, i, b[:170], '| want', want[i], 'got', [v if v is not None else _p(g)[:60] for v, g in zip(vs, got)][:2], sorted(absint.OPAQUE)[:4])
print(good, 'of', len(S), 'exact')
