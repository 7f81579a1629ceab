"""Fill the table of planted bugs in DESIGN.md (from seeded/*/meta.json and
tools/caught.json, {id: [how it was caught, strengthened]})."""
import json
import os
import re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(V + '/tools/caught.json'))
rows = ['<!-- bugs -->', '| bug | needs | caught by |', '|-|-|-|']
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{i}/meta.json'))
    c = caught.get(i, 'not run')
    rows.append(f'| {i} | {m["needs"]} | {c} |')
rows.append('<!-- end -->')
s = open(V + '/DESIGN.md').read()
t = '\n'.join(rows)
if '@TABLE@' in s:
    s = s.replace('@TABLE@', t)
else:
    s = re.sub('<!-- bugs -->.*<!-- end -->', lambda m: t, s, flags=re.S)
open(V + '/DESIGN.md', 'w').write(s)
