#!/usr/bin/env python3
"""DESIGN.md = design_head.md + the table of planted bugs (seeded/*/meta.json, tools/catch.tsv: id, check, seconds, sub-check)."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head = open(root + '/tools/design_head.md').read().rstrip() + '\n'
catch = {}
p = root + '/tools/catch.tsv'
if os.path.exists(p):
    for l in open(p):
        if l.strip() and not l.startswith('#'):
            i, check, how = l.rstrip('\n').split('\t')[:3]
            catch.setdefault(i, []).append((check, how))
out = [head, '\n## Planted bugs\n',
 'Each is in `seeded/<id>/` (patch, demonstration, meta.json) and was confirmed: it builds, the stable tests pass, the\n'
 'demonstration fails with it and passes without it. The last column says which quick check reports it (sub-check).\n',
 '| id | property | needs | reported by |', '|---|---|---|---|']
n = c = 0
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d)); n += 1
    by = '; '.join(f'{a} ({b})' if b else a for a, b in catch.get(i, []))
    if by and not by.startswith('none'): c += 1
    out.append(f"| {i} | {m['property']} | {' '.join(m['needs'].split())} | {by or 'not run'} |")
out.append(f'\n{c} of {n} are reported.\n')
tail = root + '/tools/design_tail.md'
if os.path.exists(tail): out.append(open(tail).read())
open(root + '/DESIGN.md', 'w').write('\n'.join(out))
print(n, 'planted,', c, 'caught')
