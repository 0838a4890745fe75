#!/usr/bin/env python3
"""Regenerates the generated parts of DESIGN.md: the table of planted changes and the appendix of bounds per property."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, ROOT)
from checks import CHECKS
props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
def block(name, text):
    global doc
    a, b = f'<!-- generated: {name} -->', f'<!-- end: {name} -->'
    i, j = doc.index(a), doc.index(b); doc = doc[:i] + a + '\n' + text + '\n' + doc[j:]
doc = open(ROOT + '/DESIGN.md').read()
rows = ['| change | property | what it breaks | needs |', '|---|---|---|---|']
for d in sorted(os.listdir(ROOT + '/seeded')) if os.path.isdir(ROOT + '/seeded') else []:
    m = json.load(open(f'{ROOT}/seeded/{d}/meta.json')); rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
block('planted', '\n'.join(rows))
out = []
for p in props:
    c = CHECKS[p['id']]; out.append(f"**{p['id']} {p['title']}** (`harness/{', '.join(h + '.cpp' for h in c['harness'])}`)\n")
    out.append(f"- *Explored:* {c['bounds']}.\n- *Counting:* {c['rule']}.")
    if c['assumptions']: out.append('- *Assumptions:* ' + '; '.join(c['assumptions']) + '.')
    out.append('- *Anchors:* ' + ', '.join('`' + f + '`' for f in p['anchors']['files']) + '.'); out.append('')
block('bounds', '\n'.join(out))
open(ROOT + '/DESIGN.md', 'w').write(doc)
