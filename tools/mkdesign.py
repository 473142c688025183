"""DESIGN.md from tools/design_head.md, design_props.md and planted bugs"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(V, 'tools')
c = json.load(open(T + '/catches.json'))
out = [open(T + '/design_head.md').read(), open(T + '/design_props.md').read(),
       '\n## Planted bugs\n\nEach lies in `seeded/<id>` with demonstration '
       'and passes the 178 stable tests. Quick checks, with a quarter of their cases, at seeds 1, 2, 3; the '
       'message is that of seed 1.\n\n| bug | property | needs | caught by '
       '|\n|---|---|---|---|\n']
for k in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % k))
    r = c.get(k)
    if isinstance(r, list):
        n = sum(x is not None for x in r)
        r = '%d/%d: %s' % (n, len(r), next(
            (x[6:90] for x in r if x), 'missed'))
    out.append('| %s | %s | %s | %s |\n' % (
        k, m['property'], m['needs'], (r or '').replace('|', '/')))
open(V + '/DESIGN.md', 'w').write(''.join(out))
