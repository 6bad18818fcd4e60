#!/usr/bin/env python3
"""Fills the planted-bug table of DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(root + '/tools/caught.json'))
rows = ['| bug | what it breaks | caught by | note |', '|---|---|---|---|']
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(d)); i = d.split('/')[-2]
    e = c.get(i, {})
    w = re.sub(r'\s+', ' ', m['what_it_breaks']).replace('|', '\\|')
    rows.append(f"| {i} | {w} | {e.get('by', m['property'] + ' quick')} | {e.get('note', '')} |")
t = open(root + '/DESIGN.md').read()
t = re.sub(r'(<!-- seeds -->\n).*?(<!-- /seeds -->)', lambda x: x.group(1) + '\n'.join(rows) + '\n' + x.group(2), t, flags=re.S)
open(root + '/DESIGN.md', 'w').write(t)
