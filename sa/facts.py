"""Load and pretty-print the MIR facts written by tool/factdump."""
import json, sys

class Facts:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        self.adts = d['adts']
        self.impls = d['impls']
        self.bodies = {}
        for b in d['bodies']:
            p = b['p']
            n = p; i = 1
            while n in self.bodies:
                i += 1; n = f'{p}#{i}'
            b['key'] = n
            self.bodies[n] = b
        # (trait, name) -> [(self type idx, fn path)]
        self.trait_impls = {}
        for im in self.impls:
            for name, fn in im['fns']:
                self.trait_impls.setdefault((im['trait'], name), []).append((im['self'], fn))

    def ty_s(self, i):
        return self.types[i]['s']

    def adt_of(self, i):
        """ADT name behind refs/boxes, or None"""
        t = self.types[i]
        while t['k'] in ('ref', 'ptr'):
            t = self.types[t['t']]
        return t.get('n') if t['k'] == 'adt' else None

def pp_place(p):
    s = f'_{p[0]}'
    for e in p[1]:
        if e == '*': s = f'(*{s})'
        elif 'f' in e: s += f".{e['n']}"
        elif 'v' in e: s += f" as {e['n']}"
        elif 'i' in e: s += f"[_{e['i']}]"
        elif 'ci' in e: s += f"[{'-' if e['e'] else ''}{e['ci']}]"
        else: s += '[..]'
    return s

def pp_op(F, o):
    if 'c' in o: return pp_place(o['c'])
    if 'm' in o: return 'mv ' + pp_place(o['m'])
    k = o['k']
    if 'fn' in k: return (k.get('res') and '=>' + k['res'] or k['fn']) + f"<{k['ik'][0]}>"
    for x in ('v', 'str', 'bytes', 'prom'):
        if x in k: return f'{k[x]!r}' + ('/' + k['name'] if 'name' in k else '')
    return 'const ' + F.ty_s(k['ty']) + ('/' + k.get('name', ''))

def pp_rv(F, r):
    k = r[0]
    if k == 'use': return pp_op(F, r[1])
    if k == 'ref': return ('&mut ' if r[2] else '&') + pp_place(r[1])
    if k == 'cast': return f'{pp_op(F, r[1])} as {F.ty_s(r[2])} [{r[3][:20]}]'
    if k == 'bin': return f'{r[1]}({pp_op(F, r[2])}, {pp_op(F, r[3])})'
    if k == 'un': return f'{r[1]}({pp_op(F, r[2])})'
    if k == 'discr': return f'discr({pp_place(r[1])})'
    if k == 'agg': return f"{r[1].get('n', r[1]['k'])}::{r[1].get('vn', '')}({', '.join(pp_op(F, o) for o in r[2])})"
    return str(r)[:120]

def pp(F, key):
    b = F.bodies[key]
    print('fn', key, b['k'], b['loc'], 'args', b['argc'])
    for i, l in enumerate(b['locals']):
        if len(l) > 1 or i <= b['argc']: print(f'   _{i}: {F.ty_s(l[0])[:100]} {l[1] if len(l) > 1 else ""}')
    for i, bl in enumerate(b['b']):
        if bl['c']: continue
        print(f' bb{i}:')
        for s in bl['s']:
            if s[0] == '=': print(f'    {pp_place(s[1])} = {pp_rv(F, s[2])}')
            elif s[0] == 'setd': print('    setd', s)
        t = bl['t']
        if t[0] == 'call': print(f"    {pp_place(t[3])} = call {pp_op(F, t[1])}({', '.join(pp_op(F, o) for o in t[2])}) -> bb{t[4]}")
        elif t[0] == 'switch': print(f'    switch {pp_op(F, t[1])} {t[2]} else bb{t[3]}')
        elif t[0] == 'drop': print(f'    drop {pp_place(t[1])} -> bb{t[2]}')
        else: print('   ', t)

if __name__ == '__main__':
    F = Facts('/verif/build/facts.json')
    if sys.argv[1] == '-l':
        for k in F.bodies:
            if all(a in k for a in sys.argv[2:]) and 'promoted' not in k: print(k, F.bodies[k]['loc'])
    else:
        for a in sys.argv[1:]:
            pp(F, a)
