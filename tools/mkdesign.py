#!/usr/bin/env python3
"""Appends the table of seeded bugs (seeded/*/meta.json, tools/seeds.json) to design.md and writes DESIGN.md."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(root + '/tools/seeds.json'))
rows = []
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    r = res.get(d, {})
    caught = ', '.join(f'{p} ({k})' for p, k in sorted(r.items()) if k) or 'none'
    rows.append(f"| {d} | {m['what_it_breaks']} | {m['needs']} | {caught} |")
s = open(root + '/tools/design.md').read().rstrip() + '\n\n' + '\n'.join(
    ['| seeded bug | what it breaks | what it needs | reported by (kind) |', '|---|---|---|---|'] + rows) + '\n'
open(root + '/DESIGN.md', 'w').write(s)
