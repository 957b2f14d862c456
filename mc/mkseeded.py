"""Rewrites SEEDED.md from seeded/*/meta.json. Documentation only: no check reads it."""
import glob
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(f))
    rows.append((d['property'], os.path.basename(os.path.dirname(f)), d['needs'].replace('|', '/').replace('\n', ' ')))
out = ['# Planted changes', '', 'Written by `python -m mc.mkseeded`. Every change below is caught by the quick check of the property it is listed under', '(`tests` still pass with each). What the change is: `seeded/<id>/patch.diff`.', '']
for p in sorted(set(r[0] for r in rows)):
    out += ['## ' + p, '', '| change | needs |', '| --- | --- |'] + ['| %s | %s |' % r[1:] for r in rows if r[0] == p] + ['']
open(V + '/SEEDED.md', 'w').write('\n'.join(out))
print(len(rows), 'changes')
