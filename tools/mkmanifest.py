#!/usr/bin/env python3
"""writes MANIFEST.json from the table of claimed checks; every property without an entry needs a reason"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(H + '/tools/claims.py').read())
ids = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
checks = []
for i in ids:
    if i in CLAIMS:
        t, note = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd=f'./check {i}', thorough_cmd=f'./check {i} --tier thorough', evidence_file=f'evidence/{i}.json', technique=t, level='other', level_note=note))
na = [dict(property=i, reason=NA[i]) for i in ids if i not in CLAIMS]
json.dump(dict(version=1, setup_cmd='python3 -m compileall -q lib checks || true', checks=checks, not_applicable=na,
  notes='Static analysis only: every check compiles /repo/src to LLVM IR or clang ASTs (never runs it) and decides rules over the result. No hooks in /repo.'), open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
