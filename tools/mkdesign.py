#!/usr/bin/env python3
"""fills the tables of DESIGN.md from tools/design_text.py, known_findings.json and seeded/"""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(H + '/tools/design_text.py').read(), ns); exec(open(H + '/tools/claims.py').read(), ns)
T = open(H + '/tools/DESIGN.in.md').read()
out = []
for l in open(H + '/properties.jsonl'):
    p = json.loads(l); i = p['id']
    if i in ns['CLAIMS']: out.append(f"### {i} {p['title']}\n{ns['TEXT'].get(i, '').strip()}\n")
    else: out.append(f"### {i} {p['title']}\nNot applicable: {ns['NA'][i]}\n")
k = json.load(open(H + '/known_findings.json'))
fx = '\n'.join(f"* **{e['property']}** `{e['commit']}` {e['entry'].split(' ', 3)[3]}" for e in k if e['status'] == 'fixed')
s = ['| change | property | needs | reported by its check |', '|---|---|---|---|']
for d in sorted(os.listdir(H + '/seeded')):
    m = json.load(open(f'{H}/seeded/{d}/meta.json'))
    s.append(f"| {d} | {m['property']} | {m['needs']} | {ns['CAUGHT'].get(d, 'yes')} |")
T = T.replace('@@PROPS@@', '\n'.join(out)).replace('@@FIXES@@', fx).replace('@@SEEDS@@', '\n'.join(s)).replace('@@FALSE@@', ns['FALSE'].strip())
open(H + '/DESIGN.md', 'w').write(T)
