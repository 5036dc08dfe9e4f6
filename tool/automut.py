#!/usr/bin/env python3
"""automut.py OUT.py SEED COUNT [file-regex]: a random sample of one-token changes to /repo's library code, as a mutation list for mut.py (development aid)"""
import re, sys, random, os, glob
out, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); rx = re.compile(sys.argv[4] if len(sys.argv) > 4 else '.')
SRC, SL = '/repo/src/', '/opt/vp/partial/crate/src/'
OPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '),
       (r' \+ 1\b', ' + 2'), (r' \+ ', ' - '), (r' - 1\b', ' - 0'), (r' - ', ' + '), (r'\.min\(', '.max('), (r'\.max\(', '.min('), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
       (r'\bcontinue;', 'break;'), (r'\bbreak;', 'continue;'), (r'\.is_some\(\)', '.is_none()'), (r'\.is_none\(\)', '.is_some()'), (r'\.is_empty\(\)', '.is_empty() == false'), (r'\.first\(\)', '.last()'), (r'\.last\(\)', '.first()'),
       (r'\.rev\(\)', ''), (r'push_back\(', 'push_front('), (r'pop_front\(', 'pop_back('), (r'Ordering::Less\b', 'Ordering::Greater'), (r'Ordering::Greater\b', 'Ordering::Less'), (r'Ordering::Equal\b', 'Ordering::Less'),
       (r'Bound::Included', 'Bound::Excluded'), (r'Bound::Excluded', 'Bound::Included'), (r'\bif !', 'if '), (r'\.any\(', '.all('), (r'\.all\(', '.any('), (r'saturating_sub\(1\)', 'saturating_sub(0)'), (r'\b0\b', '1'), (r'\b1\b', '2'),
       (r'^(\s+)(?:self|\*?\w+)(?:\.\w+)*\.(?:push|insert|extend|remove|retain|clear|store|set|sort|dedup|reset|advance|append|truncate|drain|pop\w*|take)\w*\(.*\);$', r'\1'), (r'^(\s+)\*?\w+(?:\.\w+)* [-+]?= .*;$', r'\1'),
       (r'\.sort_by\(\|a, b\| a', '.sort_by(|b, a| a'), (r'\bOk\(true\)', 'Ok(false)'), (r'\.take\(\)', '.clone()'), (r'\.skip\(\d\)', ''), (r'\.next\(\)', '.next_back()'), (r'\.start\b', '.end'), (r'\.end\b', '.start'), (r'\bfirst\b', 'last'), (r'\blast\b', 'first'), (r'\.unwrap_or\(', '.map(|_x| _x).unwrap_or(')]
c = []
for p in sorted(glob.glob(SRC + '**/*.rs', recursive=True)):
    f = p[len(SRC):]
    if not rx.search(f) or '/tests/' in f or f.startswith(('tests', 'db/', 'test')) or not os.path.exists(SL + f): continue
    sl = set(l.strip() for l in open(SL + f))
    L = open(p).read().split('\n')
    fn, skip, depth = '', False, 0
    intest = None
    for i, l in enumerate(L):
        if re.match(r'\s*#\[cfg\((?:all\()?test', l): intest = 'attr'; 
        elif intest == 'attr' and re.search(r'\{\s*$', l): intest = re.match(r'\s*', l).group()
        elif isinstance(intest, str) and intest != 'attr' and re.match(re.escape(intest) + r'\}', l): intest = None; continue
        if intest is not None: continue
        m = re.search(r'\bfn (\w+)', l)
        if m: fn = m.group(1)
        if fn in ('fmt',) or l.strip().startswith(('//', '#', 'use ', 'pub use', 'fn ', 'pub ', 'impl', 'where', 'assert', 'debug_assert', 'tracing', 'log_', 'eprintln', '///', 'const')) or '->' in l or l.strip() not in sl or '"' in l or re.search(r"Executor|MaybeSend|Clone \+|Fs \+", l): continue
        for a, b in OPS:
            for m in re.finditer(a, l):
                new = l[:m.start()] + m.expand(b) + l[m.end():]
                if new == l: continue
                # identify the line by occurrence among identical texts: take context
                lo = max(0, i - 2)
                old = '\n'.join(L[lo:i + 2]); nw = '\n'.join(L[lo:i] + [new] + L[i + 1:i + 2])
                k = '\n'.join(L[:i + 2]).count(old) - 1
                c.append((f, fn, old, nw, k, l.strip(), new.strip()))
random.Random(seed).shuffle(c)
print(len(c), 'candidates')
with open(out, 'w') as o:
    o.write('M=[\n' + ''.join(f'({f!r},{old!r},{nw!r},{k}), # {fn}: {a!r} -> {b!r}\n'.replace('\r', '') for f, fn, old, nw, k, a, b in c[:count]) + ']\n')
