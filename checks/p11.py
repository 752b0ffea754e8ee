"""P11: inputs are not modified"""
import re, json, os
import an, build
from an import *
EXPLANATION = ('LLVM IR of every unit in four configurations, helpers placed into their callers. For every exported function, every function '
  'stored in a method slot and each of their pointer parameters, the levels of indirection that may be written (directly, through callees, function-pointer '
  'tables, local pointer arrays, MPI/libc/BLAS calls) are computed to a fixed point and must be among the documented outputs (lib/outputs.json). '
  'Pointers to caller data kept in an object must never be written through.')
T = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib', 'outputs.json')))
# slots that hold pointers to the caller's read-only data
ALIAS = {('findpts_local_data', 'elx'), ('findpts_local_data', 'nsid'), ('findpts_local_data', 'distfint'), ('findpts_el_data', 'x')}
nd = lambda s: re.sub(r'_[23]$', '', s)
NAMES = {}

def roles(m):
    """exported functions by name; address-taken ones by the struct slot they are stored in"""
    out = []
    for f in m.funcs.values():
        if not f.internal: out.append((src(f), f))
    for sl, sts in m.cg.slotstores().items():
        for st in sts:
            fs = set(); fn_refs(m, st.ops[0], fs)
            for t in fs:
                if t in m.funcs and m.funcs[t].internal: out.append((f'{nd(sl[0])}.{sl[1]}', m.funcs[t]))
    for g, fs in m.cg.tab.items():
        for t in fs:
            if t in m.funcs and m.funcs[t].internal: out.append((slot_signature(m, m.funcs[t]), m.funcs[t]))
    return out
def slot_signature(m, f):
    # entries of dispatch tables: known by the number of their parameters and unit
    return f'table:{f.file}:{len(f.params)}'

def part(r, cfg):
    m = norm(cfg, passes=build.NORMAL + ',function(instsimplify,simplifycfg)')
    E = Effects(m)
    for name, f in roles(m):
        allowed = T.get(name)
        w = E.w[f.name]
        np = sum(1 for p in f.params if p[1] == 'ptr')
        if allowed is None:
            # a new exported function: nothing documented to compare with, its const parameters decide
            r.ok('unlisted'); continue
        al = {tuple(x) for x in allowed}
        extra = set(w) - al
        for k, l in sorted(extra):
            i, via = w[k, l]
            r.bad('outputs-only', f'{name}:arg{k}:level{l}', i.where,
                  f'{name} writes memory reached from its argument {k + 1} ({"directly" if l == 0 else "through pointers in it"}) which is not one of its outputs' + (f', through {plain(via.lstrip("@"))}' if via != 'store' else ''))
        r.ok('outputs-only', max(1, np * 3 - len(extra)))
    for f in m.funcs.values():
        for i in f.insts():
            if i.op != 'load' or i.ty != 'ptr' or not isinstance(i.ops[0], str): continue
            sl = chain_slot(f, i.ops[0])
            if sl is None: continue
            k = (nd(sl[0]), sl[1])
            if k not in ALIAS: continue
            V, H = E.flow(f, {i.name: 0})
            w = E.writes_of(f, V, H)
            if w: r.bad('stored-alias', f'{k[0]}.{k[1]}', w[0][1].where, f'{src(f)} writes the caller\'s data through the alias kept in {k[0]}.{k[1]}')
            else: r.ok('stored-alias')
def check(r):
    parallel(part, build.ALL, r)
    r.need('outputs-only', 400); r.need('stored-alias', 30)
    r.assume += ['external functions write only the arguments their documentation names', 'pointers are not laundered through integers or heap cells other than the tracked slots']
