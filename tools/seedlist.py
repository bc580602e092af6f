#!/usr/bin/env python3
"""Rewrites the list of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re, collections
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
by = collections.defaultdict(list)
for i in sorted(os.listdir('seeded')):
    p = json.load(open(f'seeded/{i}/meta.json'))['property']
    by[p].append(i.split('-', 1)[1])
lines = [f"  * {p}: {', '.join(by[p])}\n" for p in sorted(by)]
s = open('DESIGN.md').read().splitlines(True)
at = next(i for i, l in enumerate(s) if re.match(r"  \* C\d\d: ", l))
end = at
while re.match(r"  \* C\d\d: ", s[end]): end += 1
open('DESIGN.md', 'w').write(''.join(s[:at] + lines + s[end:]))
print(sum(map(len, by.values())))
