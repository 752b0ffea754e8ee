"""P07: all processes take the same sequence of collective steps"""
import an, build, ir
from an import *

EXPLANATION = ('Divergence analysis over LLVM IR (helpers placed into their callers): a value is divergent if it may differ between the processes of a communicator '
  '(process number, anything read from user data or received, clocks), propagated through data flow, through joins of divergent branches, through memory cells that are '
  'nominated as uniform and verified at every store, and through calls. '
  'R1 no collective step (MPI collective, or a call of a function that communicates) is control dependent, transitively, on a divergent branch. '
  'R2 the count, type and reduction of a collective, and the arguments of in-library calls that stand for them, are uniform. '
  'R3 the function called through a pointer that leads to collectives is chosen by a uniform value.')
PASSES = build.NORMAL + ',function(simplifycfg)'
COLL = {'MPI_Allreduce': (2, 3, 4), 'MPI_Iallreduce': (2, 3, 4), 'MPI_Barrier': (), 'MPI_Comm_dup': (), 'MPI_Comm_free': (), 'MPI_Comm_split': (),
        'MPI_Bcast': (1, 2, 3), 'MPI_Gather': (1, 2, 4, 5, 6), 'MPI_Allgather': (1, 2, 4, 5), 'MPI_Scan': (2, 3, 4), 'MPI_Reduce': (2, 3, 4, 5),
        'MPI_Alltoall': (1, 2, 4, 5), 'MPI_Exscan': (2, 3, 4), 'MPI_Ibarrier': (), 'MPI_Ibcast': (1, 2, 3), 'MPI_Iallgather': (1, 2, 4, 5), 'MPI_Comm_create': ()}
P2P = {'MPI_Send', 'MPI_Recv', 'MPI_Isend', 'MPI_Irecv', 'MPI_Sendrecv', 'MPI_Ssend', 'MPI_Bsend', 'MPI_Wait', 'MPI_Waitall', 'MPI_Waitany', 'MPI_Probe', 'MPI_Iprobe'}
# arguments that the interface requires to be equal on all processes ('v': the value, '*': what it points to)
API = {
 'comm_allreduce': {1: 'v', 2: 'v', 4: 'v'}, 'comm_iallreduce': {2: 'v', 3: 'v', 5: 'v'}, 'comm_scan': {2: 'v', 3: 'v', 5: 'v'},
 'gs_setup': {3: 'v', 4: 'v', 5: 'v'}, 'gs': {1: 'v', 2: 'v', 3: 'v', 4: 'v'}, 'gs_vec': {1: 'v', 2: 'v', 3: 'v', 4: 'v', 5: 'v'}, 'gs_many': {1: 'v', 2: 'v', 3: 'v', 4: 'v', 5: 'v'},
 'igs': {1: 'v', 2: 'v', 3: 'v', 4: 'v'}, 'igs_vec': {1: 'v', 2: 'v', 3: 'v', 4: 'v', 5: 'v'}, 'igs_many': {1: 'v', 2: 'v', 3: 'v', 4: 'v', 5: 'v'},
 'gs_wait': {0: 'v'},
}
for t in ('double', 'float', 'int', 'long', 'long_long'): API['comm_reduce__' + t] = {1: 'v'}
FAPI = {  # Fortran interface: argument positions whose targets must be equal everywhere
 'f:gs_setup': (), 'f:gs_setup_pick': (5,), 'f:gs_op': (0, 2, 3, 4), 'f:gs_op_vec': (0, 2, 3, 4, 5), 'f:gs_op_many': (0, 7, 8, 9, 10),
 'f:igs_op': (0, 2, 3, 4), 'f:igs_op_vec': (0, 2, 3, 4, 5), 'f:igs_op_many': (0, 7, 8, 9, 10), 'f:gs_op_wait': (0,), 'f:gs_op_fields': (0, 2, 3, 4, 5, 6),
 'f:gs_free': (0,), 'f:findpts_setup': (3,), 'f:findptsms_setup': (3,),
 'f:crystal_ituple_transfer': (0, 2, 5), 'f:crystal_tuple_transfer': (0, 4, 6, 8, 9), 'f:crystal_free': (0,),
}
for x in ('free', '', 'eval', 'eval_local'):
    for ms in ('', 'ms'): FAPI['f:findpts' + ms + ('_' + x if x else '')] = (0,)
for k, v in FAPI.items(): API[k] = {x: '*' for x in v}
# memory cells taken as uniform as long as every store to them is uniform (verified)
CELLS = {('comm', 'np'), ('gs_topology', 'total_shared'), ('handle', 'ndim'), ('gs_remote', 'exec'), ('gs_remote', 'exec_irecv'), ('gs_remote', 'exec_isend'),
         ('gs_remote', 'exec_wait'), ('gs_remote', 'fin'), ('gs_remote', 'data'), ('allreduce_data', 'buffer_size'),
         ('nonblocking_private', 'mode'), ('nonblocking_private', 'vn'), ('nonblocking_private', 'dom'), ('nonblocking_private', 'op'), ('nonblocking_private', 'transpose'), ('nonblocking_private', 'gsh'),
         ('findpts_data_2', 'fevsetup'), ('findpts_data_3', 'fevsetup'), ('findpts_data_2', 'ims'), ('findpts_data_3', 'ims')}

def const_off(f, a):
    """(root, constant byte offset or None)"""
    off = 0
    while isinstance(a, str) and a in f.defs and f.defs[a].op in ('getelementptr', 'bitcast'):
        d = f.defs[a]
        if d.op == 'getelementptr':
            t = d.extra; m = f.mod; first = True
            for v in d.ops[1:]:
                if not first and isinstance(m.resolve(t), tuple) and m.resolve(t)[0] == 'st':
                    off = None if off is None else off + m.field_off(t, v); t = m.resolve(t)[1][v]; continue
                if not first: t = m.resolve(t)[2]
                first = False
                if isinstance(v, int): off = None if off is None else off + v * m.size(t)
                else: off = None
        a = d.ops[0]
    return a, off

def joins(f, x):
    """blocks where paths leaving block x through different successors meet for the first time"""
    lab = {}; out = set(); wl = []
    L = f.live()
    for s in x.succs:
        if s not in L: continue
        if s in lab and lab[s] is not s: out.add(s)
        lab[s] = s; wl.append(s)
    n = 0
    while wl and n < 20000:
        n += 1
        b = wl.pop()
        if b is x: continue
        for s in b.succs:
            if s not in L: continue
            l = lab[b]
            if s not in lab: lab[s] = l; wl.append(s)
            elif lab[s] is not l and lab[s] is not s:
                lab[s] = s; out.add(s); wl.append(s)
            elif lab[s] is s and l is not s: out.add(s)
    return out

class Div:
    def __init__(s, m):
        s.m = m; s.cg = m.cg
        s.div = set()            # (fn, ssa)
        s.why = {}
        s.cell = set(); s.gcell = set(); s.pdiv = set(); s.ctx = set(); s.retdiv = set(); s.brdiv = set()
        s.jcache = {}; s.rcache = {}
        s.targets = {}
        s.lives = {f.name: f.live() for f in m.funcs.values()}
        for f in m.funcs.values():
            if f.internal: continue
            a = API.get(src(f), {})
            for k, (p, t) in enumerate(f.params):
                if a.get(k) != 'v' and t != 'ptr': s.pdiv.add((f.name, k)); s.why['p', f.name, k] = f'argument {k} of {src(f)}'
        ch = True; s.rounds = 0
        while ch:
            ch = False; s.rounds += 1
            for f in m.funcs.values():
                if s.func(f): ch = True
    def mark(s, S, k, why):
        if k in S: return False
        S.add(k); s.why[k if not isinstance(k, tuple) else k] = why
        return True
    # ---- value queries
    def isdiv(s, f, v, user=None):
        if isinstance(v, tuple): return False
        if not isinstance(v, str) or v[0] != '%': return False
        k = pidx(f, v)
        if k is not None: return (f.name, k) in s.pdiv
        if (f.name, v) in s.div: return True
        if user is not None:
            d = f.defs.get(v)
            if d is not None:
                l = f.loop_of(d.bb)
                while l is not None and user.bb not in l.body:
                    for b, x in l.exits():
                        if (f.name, b.name) in s.brdiv and x in s.lives[f.name]: return True
                    l = l.parent
        return False
    def joined(s, f, b):
        for x in f.blocks:
            if (f.name, x.name) in s.brdiv:
                k = (f.name, x.name)
                if k not in s.jcache: s.jcache[k] = joins(f, x)
                if b in s.jcache[k]: return x
        return None
    def controlled(s, f, b):
        """a divergent branch the block transitively depends on"""
        cd = f.cdeps(); seen = set(); wl = [b]
        while wl:
            x = wl.pop()
            for a, k in cd.get(x, ()):
                if a in seen: continue
                seen.add(a); wl.append(a)
                if (f.name, a.name) in s.brdiv: return a
        return None
    # ---- one pass over a function
    def func(s, f):
        ch = False; L = s.lives[f.name]
        for b in f.blocks:
            if b not in L: continue
            for i in b.insts:
                if i.op == 'br' and i.ops or i.op == 'switch':
                    if (f.name, b.name) not in s.brdiv and s.isdiv(f, i.ops[0], i):
                        s.brdiv.add((f.name, b.name)); ch = True
                    continue
                if i.op == 'ret':
                    if i.ops and f.name not in s.retdiv and s.isdiv(f, i.ops[0], i): s.retdiv.add(f.name); ch = True
                    continue
                if i.op == 'store':
                    if s.store(f, i): ch = True
                    continue
                if i.op == 'call':
                    if s.call(f, i): ch = True
                    continue
                if not i.name or (f.name, i.name) in s.div: continue
                if s.inst(f, i): s.div.add((f.name, i.name)); ch = True
        return ch
    def inst(s, f, i):
        if i.op == 'phi':
            if any(s.isdiv(f, v, f.bb[p].term) for v, p in zip(i.ops, i.extra)): return True
            vals = {repr(v) for v in i.ops}
            return len(vals) > 1 and s.joined(f, i.bb) is not None
        if i.op == 'alloca': return False
        if i.op == 'load': return s.load(f, i)
        return any(s.isdiv(f, v, i) for v in i.ops)
    def cellof(s, f, a):
        sl = chain_slot(f, a)
        return sl if sl in CELLS else None
    def load(s, f, i):
        a = i.ops[0]
        if isinstance(a, str):
            if s.isdiv(f, a, i): return True
        c = s.cellof(f, a)
        r, off = const_off(f, a)
        d = f.defs.get(r) if isinstance(r, str) else None
        if d is not None and d.op == 'alloca': return s.local(f, i, r, off, c)
        if c is not None: return c in s.cell
        g = root_global(f, a)
        if g is not None:
            G = s.m.globals.get(g)
            if G is None: return True
            if G['kind'] == 'constant': return False
            if a == g or isinstance(a, tuple): return g in s.gcell
            return True
        k = pidx(f, r)
        if k is not None and off == 0 and API.get(src(f), {}).get(k) == '*': return False
        # entry of a registry: pointer loaded through a registry variable at a uniform place
        if d is not None and d.op == 'load' and i.ty == 'ptr' and root_global(f, d.ops[0]) in s.m.globals and s.m.globals[root_global(f, d.ops[0])]['ty'] == 'ptr':
            return False
        return True
    def local(s, f, i, r, off, c):
        """load from a local object: the definitions that reach it"""
        defs = s.reaching(f, i, r, off)
        blocks = set()
        for k, x in defs:
            if k == 'entry':
                if c is None or c in s.cell: return True
                continue      # undefined, not divergent
            if k == 'div': return True
            if k == 'store':
                if s.isdiv(f, x.ops[0], x): return True
                blocks.add(x.bb)
            elif k == 'copy':
                if c is None or c in s.cell: return True
                blocks.add(x.bb)
            else: blocks.add(x.bb)
            if k == 'cellcall' and (c is None or c in s.cell): return True
        if len(defs) > 1:
            for x in f.blocks:
                if (f.name, x.name) in s.brdiv:
                    # definitions on one side only of a divergent branch
                    if any(s.dep(f, b, x) for b in blocks) and not s.dep(f, i.bb, x): return True
                    if any(s.dep(f, b, x) for b in blocks) and s.dep(f, i.bb, x) and (joins(f, x)): return True
        return False
    def dep(s, f, b, x):
        cd = f.cdeps(); seen = set(); wl = [b]
        while wl:
            y = wl.pop()
            for a, k in cd.get(y, ()):
                if a is x: return True
                if a not in seen: seen.add(a); wl.append(a)
        return False
    def reaching(s, f, i, r, off):
        key = (id(i),)
        if key in s.rcache: return s.rcache[key]
        size = s.m.size(i.ty)
        out = []; seen = set(); wl = [(i.bb, i.idx)]
        while wl:
            b, n = wl.pop()
            stop = False
            for x in reversed(b.insts[:n]):
                k = s.defines(f, x, r, off, size)
                if k is None: continue
                if (k[0], x) not in out: out.append((k[0], x))
                if k[1]: stop = True; break
            if stop: continue
            if b is f.blocks[0]: out.append(('entry', None)); continue
            for p in b.preds:
                if p in seen: continue
                seen.add(p); wl.append((p, len(p.insts)))
        s.rcache[key] = out
        return out
    def defines(s, f, x, r, off, size):
        """(kind, kills) if the instruction may define the local object r at off"""
        if x.op == 'store':
            q, o = const_off(f, x.ops[1])
            if q != r: return None
            z = s.m.size(x.ty)
            if o is None or off is None: return ('store', False)
            if o == off and z == size: return ('store', True)
            if o + z <= off or off + size <= o: return None
            return ('div', False)
        if x.op != 'call': return None
        hit = [(k, const_off(f, v)[1]) for k, v in enumerate(x.ops) if isinstance(v, str) and v[0] == '%' and const_off(f, v)[0] == r]
        if not hit: return None
        n = cname(s.m, x)
        if n is None:
            return ('div', False)
        if n.startswith('llvm.lifetime') or n.startswith('llvm.dbg'): return None
        if n.startswith('llvm.memset'): return ('const', True) if hit[0][1] == 0 and isinstance(x.ops[2], int) else ('div', False)
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            if all(k == 1 for k, _ in hit): return None
            o = hit[0][1]; ln = x.ops[2]
            if isinstance(ln, int) and o is not None and off is not None:
                if o + ln <= off or off + size <= o: return None
                return ('copy', o <= off and off + size <= o + ln)
            return ('copy', False)
        if n == 'comm_allreduce':
            w = [o for k, o in hit if k == 3]
            if w:
                if w[0] is None or off is None: return ('div', False)
                ext = x.ops[4] * 8 if isinstance(x.ops[4], int) else 1 << 40
                if off < w[0] or off >= w[0] + ext: return None
                return ('reduced', off == w[0])
            if [o for k, o in hit if k == 5]: return ('div', True)
            return None
        if n == 'comm_scan':
            w = [o for k, o in hit if k == 0]
            if w:
                z = s.m.size(f.defs[r].extra) if f.defs[r].extra else 0
                if w[0] == 0 and off is not None and z and off >= z / 2: return ('reduced', True)
                return ('div', True)
            if all(k == 4 for k, _ in hit): return None
            return ('div', False)
        if n == 'MPI_Comm_size': return ('size', True)
        if n == 'MPI_Comm_rank': return ('div', True)
        if x.extra in s.m.decls and not (set(k for k, _ in hit) & ext_writes(s.m, x.extra, len(x.ops))): return None
        if s.m.funcs.get(x.extra) is not None: return ('cellcall', False) 
        return ('div', False)
    def store(s, f, i):
        ch = False; a = i.ops[1]
        c = s.cellof(f, a) if isinstance(a, str) else None
        r = rootv(f, a) if isinstance(a, str) else None
        g = a if isinstance(a, str) and a[0] == '@' else None
        if c is not None and c not in s.cell or g is not None and g not in s.gcell:
            bad = None
            if s.isdiv(f, i.ops[0], i): bad = 'a divergent value is stored'
            elif s.controlled(f, i.bb) is not None: bad = 'stored under a divergent condition'
            elif f.name in s.ctx: bad = 'stored in a function called under a divergent condition'
            if bad:
                if c is not None: s.cell.add(c); s.why['c', c] = (i, bad)
                if g is not None: s.gcell.add(g); s.why['g', g] = (i, bad)
                ch = True
        return ch
    def call(s, f, i):
        ch = False
        ts = s.targets.get(id(i))
        if ts is None: ts = s.targets[id(i)] = s.cg.targets(i) or set()
        ctl = None
        for t in ts:
            h = s.m.funcs.get(t)
            if h is None: continue
            if t not in s.ctx:
                if ctl is None: ctl = f.name in s.ctx or s.controlled(f, i.bb) is not None or (isinstance(i.extra, str) and i.extra[0] == '%' and s.isdiv(f, i.extra, i))
                if ctl: s.ctx.add(t); ch = True
            if h.internal:
                for k in range(min(len(i.ops), len(h.params))):
                    if (t, k) not in s.pdiv and h.params[k][1] != 'ptr' and s.isdiv(f, i.ops[k], i): s.pdiv.add((t, k)); ch = True
        if i.name and (f.name, i.name) not in s.div:
            n = cname(s.m, i); d = True
            if i.ty == 'ptr': d = False              # objects and memory: equal up to their address
            elif n and n.startswith('llvm.'): d = any(s.isdiv(f, v, i) for v in i.ops)
            elif n and ts and all(t in s.m.funcs for t in ts): d = any(t in s.retdiv for t in ts)
            if d: s.div.add((f.name, i.name)); ch = True
        return ch

def explain(D, f, v, depth=0, seen=None):
    """a source of the divergence of v, in words"""
    seen = seen if seen is not None else set()
    if not isinstance(v, str) or (f.name, v) in seen or depth > 40: return ''
    seen.add((f.name, v))
    k = pidx(f, v)
    if k is not None: return f'argument {k} of {src(f)}'
    i = f.defs.get(v)
    if i is None: return ''
    if i.op == 'load':
        sl = chain_slot(f, i.ops[0])
        if sl: return f'{sl[0]}.{sl[1]}'
        return 'data'
    if i.op == 'call': return f'result of {cname(D.m, i) or "a call"}'
    for x in i.ops:
        if D.isdiv(f, x, i):
            r = explain(D, f, x, depth + 1, seen)
            if r: return r
    return 'a value chosen by a divergent branch'

def check(r):
    parallel(part, ['nbc', 'default'], r)
    r.need('collective-control', 40)
    r.need('collective-arguments', 20)
    r.assume += ['the arguments that the interface requires to be equal on all processes (method, options, data type, operation, widths, Fortran handles and codes) are',
                 'collective routines are called by all processes of the communicator in the same order, so the registries of objects agree',
                 'allocation failures stop the program', 'MPI_Comm_size returns the same value everywhere']

def part(r, cfg):
    m = norm(cfg, passes=PASSES)
    D = Div(m)
    cg = m.cg
    # functions that communicate
    comm = set()
    def sites(f):
        for i in f.insts():
            if i.op != 'call': continue
            ts = D.targets.get(id(i)) or cg.targets(i) or set()
            b = {m.base(t) for t in ts}
            yield i, ts, b
    ch = True
    S = {f.name: list(sites(f)) for f in m.funcs.values()}
    while ch:
        ch = False
        for f in m.funcs.values():
            if f.name in comm: continue
            if any(b & set(COLL) or b & P2P or ts & comm for _, ts, b in S[f.name]): comm.add(f.name); ch = True
    n = 0
    for f in m.funcs.values():
        for i, ts, b in S[f.name]:
            if i.bb not in D.lives[f.name]: continue
            coll = b & set(COLL); sub = ts & comm
            if not coll and not sub: continue
            n += 1
            what = sorted(coll)[0] if coll else plain(m.base(sorted(sub)[0])) if len(sub) == 1 else 'an exchange selected at run time'
            key = f'{src(f)}:{what}'
            x = D.controlled(f, i.bb)
            if x is not None:
                r.bad('collective-control', key, i.where, f'{src(f)}: whether or how often {what} is reached depends on {explain(D, f, x.term.ops[0])} (branch at {m.where(x.term)}), which may differ between processes')
            else: r.ok('collective-control')
            if isinstance(i.extra, str) and i.extra[0] == '%':
                if D.isdiv(f, i.extra, i): r.bad('collective-selection', key, i.where, f'{src(f)}: the exchange routine called here may differ between processes (chosen by {explain(D, f, i.extra)})')
                else: r.ok('collective-selection')
            for c in coll:
                for k in COLL[c]:
                    if k >= len(i.ops): continue
                    if D.isdiv(f, i.ops[k], i): r.bad('collective-arguments', f'{key}:{k}', i.where, f'{src(f)}: argument {k} of {c} (count, type, operation or root) depends on {explain(D, f, i.ops[k])}, which may differ between processes')
                    else: r.ok('collective-arguments')
            for t in sub:
                h = m.funcs[t]
                if h.internal: continue
                for k, kind in API.get(src(h), {}).items():
                    if k >= len(i.ops): continue
                    v = i.ops[k]
                    if kind == 'v':
                        if D.isdiv(f, v, i): r.bad('collective-arguments', f'{key}:{k}', i.where, f'{src(f)} passes {src(h)} as argument {k} {explain(D, f, v)}, which may differ between processes')
                        else: r.ok('collective-arguments')
    for f in m.funcs.values():
        if f.name in D.ctx and f.name in comm:
            r.bad('collective-control', f'{src(f)}:context', f.file, f'{src(f)} communicates but is called under a condition that may differ between processes')
    r.cov.setdefault('divergence', {})[cfg] = dict(communicating_functions=len(comm), sites=n, divergent_values=len(D.div), divergent_branches=len(D.brdiv), rounds=D.rounds)
