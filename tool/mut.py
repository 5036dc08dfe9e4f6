#!/usr/bin/env python3
"""mut.py MUTATIONS.py [substr]: apply each (file, old, new) to a scratch copy of /repo and report which rules notice (development aid)"""
import sys, subprocess, os, re, runpy, shutil
from concurrent.futures import ThreadPoolExecutor
import queue
muts = runpy.run_path(sys.argv[1])['M']
if len(sys.argv) > 2: muts = [m for m in muts if isinstance(m, tuple) and (sys.argv[2] in m[0] or sys.argv[2] in m[1]) or isinstance(m, list) and sys.argv[2] in m[0][0]+m[0][1]]
PX = os.environ.get('MUTP', '/tmp/m'); N = int(os.environ.get('MUTN', '4'))
pool = queue.Queue()
for i in range(N):
    d = f'{PX}w{i}'
    if not os.path.isdir(d): subprocess.run(['git', 'clone', '-q', '/repo', d], check=True)
    subprocess.run(f'git -C {d} checkout -q . && git -C {d} fetch -q /repo HEAD && git -C {d} checkout -q FETCH_HEAD', shell=True, check=True)
    pool.put(i)
import json
CM = json.load(open(os.environ['COVERMAP'])) if os.environ.get('COVERMAP') else None
def mods(f, s, at):
    """the rules that look at the function around position at"""
    if CM is None: return {}
    fs = re.findall(r'\bfn (\w+)', s[:at + 1])
    mod = re.sub(r'(/mod)?\.rs$', '', f).replace('/', '::')
    last = fs[-1] if fs else ''
    rs = {r for q, l in CM.items() if mod in q and re.search(r'(::|\b)%s(>|$|::)' % last, q) for r in l}
    return {'MODS': r'\.(' + '|'.join(sorted(rs)) + ')$'} if rs else {'MODS': '^none$'}
def run(m):
    es = m if isinstance(m, list) else [m]
    i = pool.get()
    try:
        d = f'{PX}w{i}'
        for e in es:
            f, old, new = e[:3]; p = f'{d}/src/{f}'
            s = open(p).read()
            k = e[3] if len(e) > 3 else 0
            parts = s.split(old)
            if len(parts) < k + 2:
                subprocess.run(f'git -C {d} checkout -q .', shell=True)
                return m, 'NOT FOUND', old[:60]
            extra = mods(f, s, len(old.join(parts[:k + 1])) + sum(map(len, new.split('\n')[:3])))
            open(p, 'w').write(old.join(parts[:k + 1]) + new + old.join(parts[k + 1:]))
        r = subprocess.run(['bash', '/verif/tool/try.sh', d], env={**os.environ, **extra, 'VB': f'{PX}vb{i}'}, capture_output=True, text=True)
        subprocess.run(f'git -C {d} checkout -q .', shell=True)
        out = r.stdout
        vs = re.findall(r'^V (\S+) (\S+?)/', out, re.M)
        tail = out.strip().splitlines()[-1:] or ['?']
        if extra.get('MODS') == '^none$': return m, 'MISSED', 'no rule looks at this function'
        if 'violations' not in tail[0]: return m, 'BROKEN', (out + r.stderr)[-400:]
        us = re.findall(r'^U (\S+) (\S+) (.*)', out, re.M)
        if us and not vs: return m, 'UNDECIDED', ' '.join(a + ':' + b + ' ' + c[:90] for a, b, c in us)
        return m, ('caught' if vs else 'MISSED'), ' '.join(sorted({a + ':' + b for a, b in vs}))
    finally: pool.put(i)
with ThreadPoolExecutor(N) as ex:
    for m, res, info in ex.map(run, muts):
        if isinstance(m, list): m = m[0]
        print(f'{res:8} {m[0]}: {m[1][:70]!r} -> {m[2][:70]!r}  {info[:200]}', flush=True)
