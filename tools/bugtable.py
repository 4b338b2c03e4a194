#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(root + '/tools/bugnotes.json'))
s = open(root + '/DESIGN.md').read()
head = '| bug | property | first | what was strengthened |\n|---|---|---|---|\n'
i = s.index(head) + len(head)
j = s.find('\n\n', i)
rest = s[j:] if j > 0 else '\n'
rows = []
for b in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{b}/meta.json'))
    n = notes.get(b)
    rows.append(f"| {b} | {m['property']} | {'missed' if n else 'caught'} | {n or ''} |")
open(root + '/DESIGN.md', 'w').write(s[:i] + '\n'.join(rows) + rest)
