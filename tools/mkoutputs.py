"""prints the write summary of every entry point: the review basis of lib/outputs.json"""
import sys, json
sys.path[:0] = ['/verif/lib', '/verif/checks']; sys.setrecursionlimit(20000)
import build, an, p11
from an import *
out = {}
for cfg in build.ALL:
    m = norm(cfg, passes=build.NORMAL + ',function(instsimplify,simplifycfg)'); E = Effects(m)
    for name, f in p11.roles(m): out.setdefault(name, set()).update(E.w[f.name])
print('{\n' + ',\n'.join(f' {json.dumps(k)}: {json.dumps(sorted(v))}' for k, v in sorted(out.items())) + '\n}')
