"""Rewrites the detection matrix at the end of DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(V + '/tools/caught.json'))
H = '## Planted bugs and the checks that catch them\n'
d = open(V + '/DESIGN.md').read().split(H)[0].rstrip('\n') + '\n\n' + H + '| bug | manifests with | effect | caught by |\n|---|---|---|---|\n'
for s in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{s}/meta.json'))
    d += f"| {s} | {m['needs']} | {m['what_it_breaks']} | {c.get(s, 'MISSED (' + m['property'] + ')')} |\n"
open(V + '/DESIGN.md', 'w').write(d)
