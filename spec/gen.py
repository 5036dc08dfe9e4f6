#!/usr/bin/env python3
import json, os, sys, glob, importlib
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path[:0] = [H, os.path.join(V, 'sa')]
from props import P
import core
for f in sorted(glob.glob(os.path.join(V, 'sa', 'rules', '*.py'))):
    if not f.endswith('__init__.py'): importlib.import_module('rules.' + os.path.basename(f)[:-3])
NOTE = ('Decides a fixed list of obligations on every abstract path of the anchored functions, from the MIR of the current tree; callees outside the crate are modelled by hand-written summaries and trusted. '
        'Loops are widened unless an obligation says how many elements it looks at; integers are symbolic. Not a proof of the whole statement: what the obligations leave out is listed in DESIGN.md.')
with open(os.path.join(V, 'properties.jsonl'), 'w') as o:
    for p in P:
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        a.update(p['anch'])
        assert len(p['title']) <= 80, p['title']
        o.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
checks, na = [], []
for p in P:
    if p['na']: na.append({'property': p['id'], 'reason': p['na']}); continue
    if p['id'] not in core.RULES: print('no rules for', p['id']); na.append({'property': p['id'], 'reason': 'no check built yet'}); continue
    checks.append({'property': p['id'], 'quick_cmd': f"python3 sa/check.py {p['id']}", 'thorough_cmd': f"python3 sa/check.py {p['id']} --thorough", 'technique': p['tech'], 'level': 'other', 'level_note': (p['note'] + ' ' if p['note'] else '') + NOTE})
for r in sorted(core.RULES):
    if r not in {p['id'] for p in P}: print('rules without property', r)
json.dump({'version': 1, 'setup_cmd': 'bash tool/setup.sh', 'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the checks read the compiler\'s MIR of the unmodified tree', 'source_commits': []},
           'checks': checks, 'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')

head = open(os.path.join(H, 'design_head.md')).read(); tail = open(os.path.join(H, 'design_tail.md')).read()
seeds = {}
try:
    for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
        m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json'))); seeds.setdefault(m['property'], []).append((d, m))
except FileNotFoundError: pass
L = [head.rstrip(), '', '## Properties and how they are decided', '',
     'For each property: the rules that decide it (each rule is a set of obligations over all abstract paths of its entry points) and what is enumerated. A rule listed under several properties is run by each of their checks.', '']
for p in P:
    L += [f"### {p['id']} {p['title']}", '']
    if p['na']: L += ['Not applicable: ' + p['na'], '']; continue
    L += [f"Technique: {p['tech']}. Quantified over {p['qtext']}. Why the tests cannot settle it: {p['why']}", '']
    for r in core.RULES.get(p['id'], []):
        L.append(f"- `{r.__module__.split('.')[-1]}.{r.__name__}`: {' '.join((r.__doc__ or '').split())}" + (' (needs the whole crate, not only the buildable slice)' if getattr(r, 'whole', False) else ''))
    if p['note']: L += ['', 'Left out: ' + p['note']]
    if p['id'] in seeds: L += ['', 'Planted bugs: ' + '; '.join(f"`{d}`" for d, m in seeds[p['id']])]
    L.append('')
L.append(tail.rstrip())
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(L) + '\n')
