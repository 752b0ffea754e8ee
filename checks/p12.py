"""P12: results depend only on arguments and objects"""
import re, collections
import an, build, ir
from an import *

EXPLANATION = ('LLVM IR of every library unit, all configurations, helper functions placed into their callers. '
  'R1 inventory: every mutable global must be one of the confirmed roles (registries, zero-before-use scratch, communicator info). '
  'R2 scratch: each load of a static counting table is dominated by a clearing of the whole table in the same call. '
  'R3 set-up-readonly: no store reachable from an operation goes to a field of a set-up structure. '
  'R4 set-up-memory-readonly: no write reachable from an operation goes through a pointer kept in an object, except the scratch slots. '
  'R5 scratch-reset: the per-element caches of the point search are invalidated unconditionally when an element is started.')
CLEAR = build.NORMAL + ',function(instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify,lcssa,loop-mssa(loop-rotate),loop(indvars,loop-idiom,loop-deletion))'

# (unit, type) -> how many, and what they are
ROLES = {
 ('comm.c', 'i32'): (2, 'process-wide communicator information (comm_gbl_id, comm_gbl_np)'),
 ('fail.c', '[2048 x i8]'): (1, 'message text, rewritten by every report'),
 ('gs.c', 'i32'): (5, 'sizes of the registries of Fortran handles and outstanding operations'),
 ('gs.c', 'ptr'): (2, 'the registries of Fortran handles and outstanding operations'),
 ('gs.c', 'array'): (2, 'scratch used when the caller passes no buffer; field list of gs_op_fields'),
 ('findpts.c', 'i32'): (2, 'size of the registry of Fortran handles'),
 ('findpts.c', 'ptr'): (1, 'the registry of Fortran handles'),
 ('fcrystal.c', 'i32'): (2, 'size of the registry of Fortran handles'),
 ('fcrystal.c', 'ptr'): (1, 'the registry of Fortran handles'),
 ('sort.c', 'count'): (4, 'counting tables, cleared by every call'),
}
SETUP = ('gs_data', 'gs_remote', 'pw_data', 'pw_comm_data', 'cr_data', 'cr_stage', 'allreduce_data', 'hash_data',
         'findpts_local_data', 'findpts_data', 'dbl_range', 'gs_map', 'handle', 'findpts_dummy_ms_data')
SCRATCH_FIELDS = {('findpts_el_data', f) for f in ('x', 'side_init', 'pt', 'edge', 'face')}
# pointers kept in objects through which an operation may write: scratch and requests
WRITE_THROUGH = {('findpts_el_data', 'p'), ('findpts_el_data', 'work'), ('findpts_el_data', 'sides'), ('array', 'ptr'),
                 ('findpts_local_data', 'distrsti'),
                 ('pw_data', 'req'), ('allreduce_data', 'req'),
                 ('nonblocking_private', 'u'), ('nonblocking_private', 'buf'), ('nonblocking_private', 'own'),
                 ('gs_topology', 'sh'), ('gs_topology', 'nz'), ('gs_topology', 'pr'), ('crystal', 'data'), ('crystal', 'work'),
                 # these go on to the objects themselves; what is written there is judged at its own slot
                 ('nonblocking_private', 'gsh'), ('handle', 'data')}
def nd(s): return re.sub(r'_[23]$', '', s)

def tyname(m, t):
    if isinstance(t, str):
        if t.startswith('%'): return m.sname(t)
        return t
    if t[0] == 'arr':
        d, e = [], t
        while isinstance(e, tuple) and e[0] == 'arr': d.append(e[1]); e = e[2]
        if len(d) == 2 and d[1] == 256 and e == 'i32': return 'count'
        return '[' + ' x '.join(map(str, d)) + f' x {tyname(m, e)}]'
    return str(t)

def gunit(m, g):
    d = g['dbg']; t = m.md.get(d, '')
    v = re.search(r'var: (!\d+)', t)
    if v: t = m.md.get(v.group(1), '')
    f = m.difile(t)
    if f == '?' :
        sc = re.search(r'scope: (!\d+)', t); f = m.scope_file(sc.group(1)) if sc else '?'
    return f, (m.mdf(v.group(1), 'name') if v else None) or g['name']

def written(m, g):
    """is the global ever written or its address handed out for writing"""
    for f in m.funcs.values():
        for i in f.insts():
            if i.op == 'store':
                if root_global(f, i.ops[1]) == g: return True
                if root_global(f, i.ops[0]) == g: return True
            elif i.op == 'call':
                for k, a in enumerate(i.ops):
                    if root_global(f, a) == g:
                        for t in m.cg.targets(i) or ():
                            if t in m.funcs or k in ext_writes(m, t, len(i.ops)): return True
            elif i.op in ('phi', 'select', 'ret', 'ptrtoint'):
                if any(root_global(f, a) == g for a in i.ops): return True
    return False

def is_op(f):
    return not f.internal and not re.search(r'setup|init|free|fail|die|diagnostic', src(f))

def check(r):
    parallel(part, build.ALL + ['clear', 'caches'], r)
    r.need('scratch-cleared', 8)
    r.need('set-up-readonly', 400)
    r.need('set-up-memory-readonly', 400)
    r.assume += ['library functions outside gslib (libc, MPI, BLAS) keep no state that affects results',
                 'scratch growable arrays: that their old contents are not read is decided only for the static counting tables']

def part(r, cfg):
    if cfg == 'clear': return clear(r)
    if cfg == 'caches': return caches(r)
    if True:
        m = norm(cfg)
        # R1
        cnt = collections.defaultdict(list)
        for n, g in m.globals.items():
            if g['kind'] == 'constant' or 'external' in g['linkage'] or n.startswith('@llvm.') or n.startswith('@.str'): continue
            u, nm = gunit(m, g)
            if not written(m, n): r.ok('inventory'); continue
            if u in ('sort_imp.h', 'sort.c'): u = 'sort.c'
            cnt[u, tyname(m, g['ty'])].append(nm)
        for k, names in sorted(cnt.items()):
            lim = ROLES.get(k, (0, ''))[0]
            for x in names[:lim]: r.ok('inventory')
            if len(names) > lim:
                r.bad('inventory', f'{k[0]}:{k[1]}', k[0], f'{len(names)} mutable global(s) of type {k[1]} ({", ".join(sorted(names))}) where {lim} are confirmed to carry no results from call to call: hidden shared state')
        # R3, R4
        ops = [f.name for f in m.funcs.values() if is_op(f)]
        R = m.cg.reach(ops)
        E = Effects(m)
        nf = 0
        for n in sorted(R):
            f = m.funcs.get(n)
            if f is None: continue
            nf += 1
            for i in f.insts():
                if i.op == 'store' and isinstance(i.ops[1], str):
                    sl = chain_slot(f, i.ops[1])
                    if sl is None: continue
                    d = f.defs.get(rootv(f, i.ops[1]))
                    if d is not None and d.op == 'alloca': continue
                    st, fl = nd(sl[0]), sl[1]
                    if d is not None and d.op == 'call' and ('malloc' in str(d.extra) or 'calloc' in str(d.extra) or 'realloc' in str(d.extra)): continue
                    if st in SETUP or (st == 'findpts_el_data' and (st, fl) not in SCRATCH_FIELDS):
                        r.bad('set-up-readonly', f'{st}.{fl}', i.where, f'{src(f)} (an operation) changes the set-up field {st}.{fl}: later operations on the object see the change')
                    else: r.ok('set-up-readonly')
                elif i.op == 'load' and i.ty == 'ptr' and isinstance(i.ops[0], str):
                    sl = chain_slot(f, i.ops[0])
                    if sl is None: continue
                    k = (nd(sl[0]), sl[1])
                    root = f.defs.get(rootv(f, i.ops[0]))
                    if root is not None and root.op == 'alloca': continue
                    if k in WRITE_THROUGH: r.ok('set-up-memory-readonly'); continue
                    V, H = E.flow(f, {i.name: 0})
                    w = E.writes_of(f, V, H)
                    w = [x for x in w if not only_nested_scratch(m, E, x)]
                    if k == ('findpts_el_data', 'lag_data'):   # the basis routines keep their scratch behind the coefficients
                        w = [x for x in w if x[2] == 'store' or not is_basis(m, x[2])]
                    if k == ('gs_remote', 'data'):      # exchange data: judged at its own slots in the exchange functions
                        r.ok('set-up-memory-readonly'); continue
                    if w: r.bad('set-up-memory-readonly', f'{k[0]}.{k[1]}', w[0][1].where, f'{src(f)} (an operation) writes memory that belongs to the set-up part of its object, reached through {k[0]}.{k[1]} (by {plain(str(w[0][2]).lstrip("@"))})')
                    else: r.ok('set-up-memory-readonly')
        r.cov.setdefault('op_reachable_functions', {})[cfg] = nf
def clear(r):
    # R2
    m = norm('nbc', passes=CLEAR)
    for n, g in m.globals.items():
        if g['kind'] == 'constant' or tyname(m, g['ty']) != 'count': continue
        size = m.size(g['ty'])
        for f in m.funcs.values():
            loads = [i for i in f.insts() if i.op == 'load' and based(f, i.ops[0], n)]
            if not loads: continue
            clears = [i for i in f.insts() if i.op == 'call' and str(i.extra).startswith('@llvm.memset') and root_global(f, i.ops[0]) == n and exact(f, i.ops[0], n) and i.ops[1] == 0 and isinstance(i.ops[2], int) and i.ops[2] >= size]
            for i in loads:
                if any(f.idominates(c, i) for c in clears): r.ok('scratch-cleared')
                else: r.bad('scratch-cleared', f'{src(f)}', i.where, f'{src(f)} reads a static counting table that this call has not cleared completely ({size} bytes): counts of an earlier call leak in')
            others = [c for f2 in m.funcs.values() if f2 is not f for c in f2.insts() if c.op in ('load',) and root_global(f2, c.ops[0]) == n]
            if others: r.bad('scratch-cleared', f'{src(f)}:shared', others[0].where, 'static counting table is shared between functions')
def caches(r):
    # R5
    for d in '23':
        m = norm('default')
        starts = []
        for f in m.funcs.values():
            for i in f.insts():
                if i.op == 'store' and isinstance(i.ops[1], str) and chain_slot(f, i.ops[1]) == (f'findpts_el_data_{d}', 'x') and i.ty == 'ptr':
                    starts.append(i)
        if not starts: raise Broken(f'no function starts an element in {d}-D')
        for i in starts:
            f = i.fn
            z = [j for j in f.insts() if j.op == 'store' and j.ops[0] == 0 and isinstance(j.ops[1], str) and chain_slot(f, j.ops[1]) == (f'findpts_el_data_{d}', 'side_init')]
            uses = [c for c in f.insts() if c.op == 'call' and any(src(m.funcs[t]).startswith('findpts_el_') for t in (m.cg.targets(c) or ()) if t in m.funcs and not m.funcs[t].internal) and f.idominates(i, c)]
            # every search of the element after the start passes a reset that follows the previous search
            bad = [c for c in uses if src_is_search(m, c) and not any(f.idominates(j, c) and same_round(f, i, j) for j in z)]
            if bad or not z: r.bad('element-caches-reset', f'findpts_el_{d}', i.where, f'{src(f)}: the cached edge/face data of the previous element is not invalidated when the element coordinates are replaced')
            else: r.ok('element-caches-reset')

def src_is_search(m, c):
    return any(src(m.funcs[t]) in ('findpts_el_2', 'findpts_el_3') for t in (m.cg.targets(c) or ()) if t in m.funcs)
def same_round(f, i, j):
    """j is executed whenever i is (same innermost loop, neither conditional on the other)"""
    li, lj = f.loop_of(i.bb), f.loop_of(j.bb)
    if li is not lj: return False
    return f.dominates(i.bb, j.bb) and (i.bb is j.bb or f.postdominates(j.bb, i.bb)) or f.dominates(j.bb, i.bb) and (f.postdominates(i.bb, j.bb))
def based(f, a, g):
    """address derived from the global, also through phis"""
    seen = set(); wl = [a]
    while wl:
        x = wl.pop()
        if root_global(f, x) == g: return True
        x = rootv(f, x) if isinstance(x, str) else x
        if not isinstance(x, str) or x in seen: continue
        seen.add(x); d = f.defs.get(x)
        if d is not None and d.op in ('phi', 'select'): wl += [y for y in d.ops if isinstance(y, (str, tuple))]
    return False
def exact(f, a, g):
    e = Ex(f).e(a)
    return e == ('g', g)
def is_basis(m, t):
    f = m.funcs.get(t)
    return f is not None and f.internal and f.file in ('poly.c', 'poly_imp.h')
def only_nested_scratch(m, E, x):
    """level-2 writes (through a pointer found behind the loaded one) are judged where that
    pointer is loaded"""
    return x[0] >= 1
