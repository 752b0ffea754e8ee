"""P09: failures stop the program instead of continuing"""
import an, build, ir
from an import *

EXPLANATION = ('LLVM IR of every library unit, all configurations plus the user-exit and allocation-tracing builds. '
  'R1 allocation-checked: for each call of an allocation routine the paths on which it returns nothing for a non-zero request are followed (conditional constant propagation): none returns to the caller, none uses the missing block, each ends in a routine shown not to return. A routine that hands the result on unchecked is itself treated as an allocation routine at its calls. '
  'R2 report: on those paths the failure routine is told a place: the file and line it is given are constants that are not empty, followed through the wrappers to every call. '
  'R3 no-return: the failure routines cannot reach their end: every path ends in a loop without exit or in exit/abort, with and without a user exit handler; nothing relies on a declaration only. '
  'R4 detected: for every documented detected error (process count that differs from the communicator, dimension other than 2 or 3, sort in place with a stride, sort key out of range, several processes without MPI, multi-session object in the single-session search) the routine, with that condition assumed, cannot return.')
ALLOC = {'malloc': (0,), 'calloc': (0, 1), 'realloc': (1,), 'aligned_alloc': (1,), 'valloc': (0,), 'strdup': ()}
STOPS = {'exit', '_exit', 'abort', 'MPI_Abort', '_Exit', 'quick_exit'}
QUIET = {'printf', 'fprintf', 'fflush', 'puts', 'snprintf', 'sprintf', 'fail', 'vfail', 'die', 'diagnostic', 'vdiagnostic', 'fwrite', 'fputs', 'free'}
FAILS = {'fail': (1, 2), 'vfail': (1, 2)}

def check(r):
    jobs = [(c, ()) for c in build.ALL] + [('default', ('-DGSLIB_USE_USR_EXIT',)), ('default', ('-DPRINT_MALLOCS=1',))]
    parallel(part, jobs, r)
    r.need('allocation-checked', 12); r.need('report', 20); r.need('no-return', 8); r.need('detected', 20)
    r.assume += ['exit and abort do not return', 'a request of zero bytes may return nothing']

def stops(m):
    """functions that cannot return, judged from their bodies"""
    out = {d.name for d in m.decls.values() if d.name[1:] in STOPS}
    while True:
        new = {f.name for f in m.funcs.values() if f.name not in out and not comes_back(f, out)}
        if not new: return out
        out |= new

def comes_back(f, stop):
    """a path from the entry to a return, or to a point the compiler was merely told is never reached"""
    seen = set(); wl = [f.blocks[0]]
    while wl:
        b = wl.pop()
        if b in seen: continue
        seen.add(b); end = False
        for i in b.insts:
            if i.op == 'call' and isinstance(i.extra, str) and i.extra in stop: end = True; break
            if i.op in ('ret', 'unreachable'): return True
        if not end: wl += b.succs
    return False

def leaves(e):
    if e[0] in ('op', 'sel', 'cv'): return [y for x in e[1:] if isinstance(x, tuple) for y in leaves(x)]
    return [e] if e[0] != 'c' else []

def flows(f, name):
    """values that carry the result on: casts, merges, addresses inside the block, copies through local variables"""
    out = {name}; ch = True
    while ch:
        ch = False
        for i in f.insts():
            if i.name and i.name not in out and (i.op in ('getelementptr', 'bitcast', 'freeze') and i.ops[0] in out or i.op in ('phi', 'select') and any(isinstance(v, str) and v in out for v in i.ops)):
                out.add(i.name); ch = True
    return out

def failing(m, f, i, sizes, stop):
    """('stops' | 'returns it' | text) what happens when the allocation call i fails"""
    x = Ex(f); me = x.e(i.name)
    env0 = {me: 0}
    for s in f.insts():
        if s.op == 'store' and s.ops[0] == i.name: env0['ld', x.e(s.ops[1])] = 0
    lv = {y for k in sizes for y in leaves(x.e(i.ops[k]))}
    A = None
    for vals in ((64,), (1,), (1 << 20,), (3, 5, 7), ()):
        if not vals and A is not None: break
        env = dict(env0)
        for k, y in enumerate(sorted(lv, key=repr)):
            if vals: env[y] = vals[k % len(vals)]
        B = Assume(f, x, env, stop)
        if not vals and not B.runs(i.bb): return 'stops', []
        if B.runs(i.bb):
            A = B
            res = follow(m, f, i, A, stop)
            if res[0] != 'stops': return res
    return res

def follow(m, f, i, A, stop):
    mine = flows(f, i.name); seen = set(); calls = []; ret = None
    start = i.bb.insts.index(i) + 1
    wl = [(i.bb, start)]
    while wl:
        b, k = wl.pop()
        if k == 0:
            if b in seen: continue
            seen.add(b)
        end = False
        for j in b.insts[k:]:
            if j.op == 'call' and isinstance(j.extra, str) and j.extra in stop:
                calls.append(j); end = True; break
            if j.op == 'ret':
                if j.ops and j.ops[0] in mine: ret = ret or 'returns it'
                else: ret = 'goes on and returns to its caller'
            if j.op == 'unreachable': ret = ret or 'goes on'
            if j.op in ('load', 'store') and (j.ops[0] if j.op == 'load' else j.ops[1]) in mine: return 'uses the missing block', calls
            if j.op == 'call' and j is not i:
                n = cname(m, j)
                if any(isinstance(v, str) and v in mine for v in j.ops) and n not in QUIET and not (n or '').startswith('llvm.dbg') and not (n or '').startswith('llvm.lifetime'): return f'passes the missing block to {n or "a routine"}', calls
            if j is i and k == 0: end = True; break
        if end: continue
        wl += [(y, 0) for y in b.succs if (b, y) in A.edges]
    return (ret or 'stops'), calls

def part(r, job):
    cfg, extra = job
    key = cfg + ''.join(extra)
    fl = build.CONFIGS[cfg] + list(extra)
    # routines that cannot reach an allocation are placed into their callers; the allocating ones stay apart
    raw = build.module(cfg, flags=fl); raw.cg = CG(raw)
    deep = set(); ch = True
    while ch:
        ch = False
        for f in raw.funcs.values():
            if f.name in deep: continue
            for i in f.insts():
                if i.op == 'call' and isinstance(i.extra, str) and (i.extra[1:] in ALLOC or i.extra in deep): deep.add(f.name); ch = True; break
    keep = {ir_base(n) for n in deep}
    m = build.module(cfg, inline=lambda n: n in keep, helpers=True, flags=fl); m.cg = CG(m)
    stop = stops(m)
    for n in ('die', 'fail', 'vfail'):
        fs = [f for f in m.funcs.values() if src(f) == n]
        if not fs: continue
        if fs[0].name in stop: r.ok('no-return')
        else: r.bad('no-return', n, fs[0].where if hasattr(fs[0], 'where') else n, f'{n} can return to its caller' + (' (build with a user exit handler)' if extra and 'USR' in extra[0] else ''))
    allocs(r, m, stop, key)
    m2 = norm(cfg, flags=fl)
    stop2 = stops(m2)
    if not (extra and 'PRINT' in extra[0]):
        report(r, m2)
        detected(r, m2, stop2, cfg)

def ir_base(n): return re.sub(r'\.\d+$', '', n[1:])

def allocs(r, m, stop, key):
    work = {'@' + k: v for k, v in ALLOC.items()}; done = set()
    while work:
        nxt = {}
        for f in m.funcs.values():
            for i in f.insts():
                if i.op != 'call' or not isinstance(i.extra, str) or i.extra not in work: continue
                n = src(f); c = cname(m, i)
                if not i.name:
                    r.bad('allocation-checked', f'{n}:{c}', i.where, f'{n} does not keep the result of {c}'); continue
                st, calls = failing(m, f, i, work[i.extra], stop)
                if st == 'stops': r.ok('allocation-checked'); continue
                if st == 'returns it' and f.internal:
                    nm = f.name
                    x = Ex(f)
                    ks = tuple(sorted({y[1] for k in work[i.extra] for y in leaves(x.e(i.ops[k])) if y[0] == 'p'}))
                    if nm not in done: nxt[nm] = ks
                    continue
                r.bad('allocation-checked', f'{n}:{c}', i.where, f'{n}: when {c} fails for a non-zero request the routine {st if st != "returns it" else "returns the missing block"}')
        done |= set(nxt); work = nxt

def report(r, m):
    x = {}
    def const(f, v, seen):
        """(text or number constants the operand may be, or None)"""
        if isinstance(v, int): return {v}
        if v in ('null', 'undef', 'poison', 'zeroinitializer'): return {0}
        g = root_global(f, v) if not isinstance(v, str) or v not in f.defs else None
        if isinstance(v, str) and v[0] == '@': g = v
        if g in m.globals: return {('g', g)}
        k = pidx(f, v) if isinstance(v, str) else None
        if k is not None:
            if (f.name, k) in seen: return set()
            seen.add((f.name, k)); out = set()
            if src(f) in FAILS: return {('p',)}
            for c in m.cg.callsites.get(f.name, []):
                z = const(c.fn, c.ops[k], seen)
                if z is None: return None
                out |= z
            return out or None
        d = f.defs.get(v) if isinstance(v, str) else None
        if d is not None and d.op in ('phi', 'select'):
            out = set()
            for y in d.ops[1 if d.op == 'select' else 0:]:
                z = const(f, y, seen)
                if z is None: return None
                out |= z
            return out
        if d is not None and d.op in ('zext', 'sext', 'trunc', 'bitcast'): return const(f, d.ops[0], seen)
        return None
    for f in m.funcs.values():
        if src(f) in FAILS: continue
        for i in f.insts():
            n = cname(m, i) if i.op == 'call' else None
            if n not in FAILS: continue
            a, b = FAILS[n]
            fs, ls = const(f, i.ops[a], set()), const(f, i.ops[b], set())
            bad = None
            if fs is not None and (0 in fs or any(q[0] == 'g' and empty(m, q[1]) for q in fs if isinstance(q, tuple))): bad = 'file'
            if ls is not None and 0 in ls: bad = 'line'
            if bad: r.bad('report', f'{src(f)}:{bad}', i.where, f'{src(f)} reports a failure without its {bad}')
            else: r.ok('report')
            st = i.ops[0]
            if st == 0: r.bad('report', f'{src(f)}:status', i.where, f'{src(f)} stops the program with the status of success')

def empty(m, g):
    v = m.globals[g]['init']
    return v in ('zeroinitializer', None) or isinstance(v, (bytes, str)) and len(v) <= 1

def np_reads(f, x):
    """expressions that read the number of processes of a communicator"""
    out = set()
    for i in f.insts():
        if i.op == 'load':
            e = x.e(i.ops[0])
            if e[0] == 'at' and e[2][0] == 'f' and e[2][2] == 'np': out.add(('ld', e))
            if e[0] == 'al' and any(c.op == 'call' and cname(f.mod, c) == 'MPI_Comm_size' and x.e(c.ops[1]) == e for c in f.insts()): out.add(('ld', e))
    return out

def detected(r, m, stop, cfg):
    fn = {src(f): f for f in m.funcs.values()}
    def judge(name, env, what, vac=None):
        f = fn.get(name)
        if f is None: return
        A = Assume(f, Ex(f), env, stop)
        rets = [b for b in f.blocks if b.term is not None and b.term.op == 'ret' and A.runs(b) and not any(i.op == 'call' and isinstance(i.extra, str) and i.extra in stop for i in b.insts)]
        if rets: r.bad('detected', f'{name}:{what}', rets[0].term.where, f'{name} returns to its caller although {what}')
        else: r.ok('detected')
    def ld(k): return ('ld', ('p', k))
    for name, k in (('f:gs_setup', 4), ('f:gs_setup_pick', 4), ('f:crystal_setup', 2), ('f:findpts_setup', 2), ('f:findptsms_setup', 2), ('f:gs_unique', 3)):
        f = fn.get(name)
        if f is None: continue
        x = Ex(f)
        k = npar(f)
        if k is None or not any(i.op == 'load' and x.e(i.ops[0]) == ('p', k) for i in f.insts()): continue
        env = {ld(k): 5}
        if cfg != 'serial': judge2 = {ld(k): 3, **{e: 4 for e in np_reads(f, x)}}
        else: judge2 = {ld(k): 0}
        if 'findpts' not in name: judge(name, judge2, 'the number of processes passed differs from that of the communicator')
        if cfg != 'serial':
            env.update({e: 4 for e in np_reads(f, x)})
        if 'findpts' in name:
            for nd in (2, 3):
                kd = pnum(f, 'ndim')
                for e2 in (env, judge2):
                  if kd is not None: judge(name, {**e2, ld(kd): nd}, 'the number of processes passed differs from that of the communicator')
            kd = pnum(f, 'ndim')
            if kd is not None:
                for nd in (0, 1, 4, 5): judge(name, {ld(kd): nd, **{e: nd for e in field_reads(f, x, 'ndim')}}, 'the dimension is neither 2 nor 3')
        else: judge(name, env, 'the number of processes passed differs from that of the communicator')
    if cfg == 'serial':
        for name in ('gs_setup', 'crystal_init'):
            f = fn.get(name)
            if f is None: continue
            x = Ex(f); e = np_reads(f, x)
            if e: judge(name, {y: 3 for y in e}, 'several processes are asked for without MPI')
    for d in (2, 3):
        name = f'findpts_{d}'; f = fn.get(name)
        if f is not None:
            x = Ex(f); judge(name, {y: 1 for y in field_reads(f, x, 'ims')}, 'the object was set up for several sessions') if field_reads(f, x, 'ims') else judge(name, {}, 'the object was set up for several sessions')
    for f in m.funcs.values():
        n = src(f)
        if re.match(r'sortv_\w+$', n) and len(f.params) >= 4:
            for num in (2, 5, 255):
                size = {'double': 8, 'float': 4, 'ui': 4, 'ul': 8, 'ull': 8, 'si': 4, 'sl': 8}.get(n[6:])
                if size is None: continue
                for st in (size * 2, size // 2, size * 3): judge(n, {('p', 0): 4096, ('p', 1): 4096, ('p', 2): num, ('p', 3): st}, 'it is asked to sort in place with a stride')

def pnum(f, name):
    for k, (p, _) in enumerate(f.params):
        if re.sub(r'[.\d]+$', '', p[1:]) == name: return k
    return None

def npar(f): return pnum(f, 'np')

def field_reads(f, x, name):
    return {('ld', e) for i in f.insts() if i.op == 'load' for e in [x.e(i.ops[0])] if e[0] == 'at' and e[2][0] == 'f' and e[2][2] == name}
