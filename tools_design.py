#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (caught.json beside this
file's folder list records which check reported each)."""
import json, os, re
os.chdir(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open('planted_caught.json')) if os.path.exists('planted_caught.json') else {}
rows = ['| planted bug | property | needs | caught by its check |', '|---|---|---|---|']
for d in sorted(os.listdir('seeded')) if os.path.isdir('seeded') else []:
    m = json.load(open(f'seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['needs'].replace('|', '/')} | {caught.get(d, '?')} |")
t = open('DESIGN.md').read()
b, e = '<!-- planted:begin -->', '<!-- planted:end -->'
new = b + '\n' + '\n'.join(rows) + '\n' + e
t = t.replace('@@TABLE@@', new) if '@@TABLE@@' in t else re.sub(re.escape(b) + '.*' + re.escape(e), lambda _: new, t, flags=re.S)
open('DESIGN.md', 'w').write(t)
