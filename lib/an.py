"""Analyses shared by the rules: call graph with function-pointer resolution,
canonical expressions, effects, constant-folding helpers."""
import re, functools
import ir, build
from build import Broken

_mods = {}
def mod(cfg='default', inline=None, key=None, flags=None, passes=build.NORMAL):
    k = (cfg, key if inline else None, passes, tuple(flags) if flags else None)
    if k not in _mods:
        _mods[k] = build.module(cfg, inline=inline, flags=flags, passes=passes)
        _mods[k].cg = CG(_mods[k])
    return _mods[k]

def src(f):
    """source-level name without library prefix"""
    m = f.mod
    return plain(m.base(f.name))
def plain(b):
    if b.startswith('gslib_'): b = b[6:]
    if b.startswith('fgslib_') and b.endswith('_'): b = 'f:' + b[7:-1]
    return b
def cname(m, i):
    """plain callee name of a direct call, else None"""
    return plain(m.base(i.callee)) if isinstance(i.extra, str) and i.extra[0] == '@' else None

NORETURN_ATTR = 'noreturn'

class CG:
    """whole-program call graph; indirect calls resolved through the struct slot
    or table the pointer was loaded from, or the arguments bound to a parameter"""
    def __init__(s, m):
        s.m = m
        s.slot = {}      # (struct, field) -> set of functions stored there
        s.tab = {}       # global -> functions in its initializer
        s.paramcalls = {}  # (fn, k) -> call insts
        for g in m.globals.values():
            fs = set(); s._fns(g['init'], fs)
            if fs: s.tab[g['name']] = fs
        s.callsites = {}
        for f in m.funcs.values():
            for i in f.insts():
                if i.op == 'call' and isinstance(i.extra, str) and i.extra in m.funcs:
                    s.callsites.setdefault(i.extra, []).append(i)
                if i.op == 'store' and i.ty == 'ptr':
                    fs = set(); s._fns(i.ops[0], fs)
                    if fs:
                        d = f.defs.get(i.ops[1]) if isinstance(i.ops[1], str) else None
                        if d is not None and d.op == 'getelementptr':
                            s.slot.setdefault(slot_of(m, d), set()).update(fs)
        s._res = {}
        s._reach = {}
    def _fns(s, v, out):
        if isinstance(v, str):
            if v[:1] == '@' and (v in s.m.funcs or v in s.m.decls): out.add(v)
        elif isinstance(v, tuple):
            for x in v: s._fns(x, out)
    def targets(s, i):
        """functions a call may reach (names); None if unresolved"""
        if not isinstance(i.extra, str): return None
        if i.extra[0] == '@': return {i.extra}
        k = id(i)
        if k not in s._res: s._res[k] = s._pt(i.fn, i.extra, set())
        return s._res[k]
    def _pt(s, f, v, seen):
        if isinstance(v, tuple):
            out = set(); s._fns(v, out); return out or None
        if v in ('null', 'undef', 'poison', 0): return set()
        if not isinstance(v, str): return None
        if v[0] == '@': return {v}
        if (f.name, v) in seen: return set()
        seen.add((f.name, v))
        d = f.defs.get(v)
        if d is None:
            for k, (pn, _) in enumerate(f.params):
                if pn == v:
                    out = set()
                    cs = s.callsites.get(f.name, [])
                    if not cs: return None
                    for c in cs:
                        if k >= len(c.ops): continue
                        r = s._pt(c.fn, c.ops[k], seen)
                        if r is None: return None
                        out |= r
                    return out
            return None
        if d.op in ('phi',):
            out = set()
            for x in d.ops:
                r = s._pt(f, x, seen)
                if r is None: return None
                out |= r
            return out
        if d.op == 'select':
            out = set()
            for x in d.ops[1:]:
                r = s._pt(f, x, seen)
                if r is None: return None
                out |= r
            return out
        if d.op == 'load':
            a = d.ops[0]
            g = root_global(f, a)
            if g is not None:
                if g in s.tab: return set(s.tab[g])
                if isinstance(g, str) and g in s.m.globals:   # variable: whatever is stored
                    out = set()
                    for h in s.m.funcs.values():
                        for i in h.insts():
                            if i.op == 'store' and i.ops[1] == g: s._fns(i.ops[0], out)
                    return out or None
            sl = chain_slot(f, a)
            if sl is not None:
                out = set(); hit = False
                for st in s.slotstores().get(sl, ()):
                    hit = True
                    r = s._pt(st.fn, st.ops[0], seen)
                    if r is None: return None
                    out |= r
                if hit: return out
            b = rootv(f, a)
            if isinstance(b, str) and b in f.defs and f.defs[b].op == 'alloca':
                out = set(); hit = False
                for st in f.insts():
                    if st.op == 'store' and isinstance(st.ops[1], str) and rootv(f, st.ops[1]) == b:
                        r = s._pt(f, st.ops[0], seen)
                        if r is None: return None
                        out |= r; hit = True
                    if st.op == 'call' and str(st.extra).startswith('@llvm.memcpy') and rootv(f, st.ops[0]) == b:
                        g = root_global(f, st.ops[1])
                        if g in s.tab: out |= s.tab[g]; hit = True
                if hit: return out
            # element of an array passed by the callers
            k = pidx(f, b)
            if k is not None:
                pass
            # element 0 of an array field: same slot through the first-element gep
        if d.op in ast_casts: return s._pt(f, d.ops[0], seen)
        if d.op == 'call':
            ts = s.targets(d) if isinstance(d.extra, str) and d.extra[0] == '@' else s._pt(f, d.extra, seen)
            if ts is None: return None
            out = set()
            for t in ts:
                h = s.m.funcs.get(t)
                if h is None: return None
                for i in h.insts():
                    if i.op == 'ret' and i.ops:
                        r = s._pt(h, i.ops[0], seen)
                        if r is None: return None
                        out |= r
            return out
        return None
    def slotstores(s):
        if not hasattr(s, '_ss'):
            s._ss = {}
            for f in s.m.funcs.values():
                for i in f.insts():
                    if i.op == 'store' and i.ty == 'ptr' and isinstance(i.ops[1], str):
                        sl = chain_slot(f, i.ops[1])
                        if sl: s._ss.setdefault(sl, []).append(i)
        return s._ss
    def callees(s, f):
        out = set()
        for i in f.insts():
            if i.op == 'call':
                t = s.targets(i)
                if t: out |= t
        return out
    def reach(s, names):
        """all functions reachable from the given ones (inclusive)"""
        seen = set(); wl = list(names)
        while wl:
            x = wl.pop()
            if x in seen: continue
            seen.add(x)
            f = s.m.funcs.get(x)
            if f: wl += s.callees(f)
        return seen
    def callers(s):
        c = {}
        for f in s.m.funcs.values():
            for x in s.callees(f): c.setdefault(x, set()).add(f.name)
        return c

ast_casts = {'bitcast', 'addrspacecast'}

def slot_of(m, gep):
    """(struct, field) addressed by a gep's last struct step, else None"""
    t = gep.extra; st = None
    idx = gep.ops[2:]
    for v in idx:
        rt = m.resolve(t)
        if isinstance(rt, tuple) and rt[0] == 'st':
            st = (m.sname(t) if isinstance(t, str) else '?', m.fname(t, v) if isinstance(t, str) else v)
            t = rt[1][v]
        elif isinstance(rt, tuple) and rt[0] in ('arr', 'vec'):
            t = rt[2]
        else: break
    return st

def chain_slot(f, a):
    """(struct, field) an address lies in, looking through array indexing"""
    n = 0
    while n < 10 and isinstance(a, str) and a in f.defs:
        d = f.defs[a]
        if d.op != 'getelementptr': return None
        sl = slot_of(f.mod, d)
        if sl: return sl
        a = d.ops[0]; n += 1
    return None

def rootv(f, a):
    """SSA value an address is derived from by geps and casts"""
    n = 0
    while n < 40 and isinstance(a, str) and a in f.defs and f.defs[a].op in ('getelementptr', 'bitcast', 'addrspacecast'):
        a = f.defs[a].ops[0]; n += 1
    return a

def root_global(f, a):
    n = 0
    while n < 30:
        n += 1
        if isinstance(a, tuple):
            if a[0] == 'gep': a = a[2][0][1]; continue
            if a[0] == 'cast': a = a[3]; continue
            return None
        if not isinstance(a, str): return None
        if a[0] == '@': return a
        d = f.defs.get(a)
        if d is None: return None
        if d.op == 'getelementptr' or d.op in ast_casts: a = d.ops[0]; continue
        return None

# ------------------------------------------------------------ effects
def noret_funcs(m):
    """functions that never return: no reachable ret, or declared noreturn"""
    out = set()
    for d in m.decls.values():
        at = ' '.join(m.attrs.get(a, '') for a in d.attr_refs)
        if 'noreturn' in at: out.add(d.name)
    ch = True
    while ch:
        ch = False
        for f in m.funcs.values():
            if f.name in out: continue
            if not returns(f, out): out.add(f.name); ch = True
    return out

def returns(f, noret):
    seen = set(); wl = [f.blocks[0]]
    while wl:
        b = wl.pop()
        if b in seen: continue
        seen.add(b)
        stop = False
        for i in b.insts:
            if i.op == 'call' and isinstance(i.extra, str) and i.extra in noret: stop = True; break
            if i.op == 'ret': return True
        if not stop: wl += b.succs
    return False

# ------------------------------------------------------------ values
def strip(f, v):
    """through integer/pointer casts that keep the value"""
    while isinstance(v, str) and v in f.defs and f.defs[v].op in ('zext', 'sext', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
        v = f.defs[v].ops[0]
    return v

def pidx(f, v):
    for k, (n, _) in enumerate(f.params):
        if n == v: return k
    return None

def vname(f, v):
    """source variable name for an SSA value, from debug info or IR naming"""
    return re.sub(r'[.\d]*$', '', v[1:]) if isinstance(v, str) else str(v)

class Ex:
    """canonical expressions. Values become nested tuples:
       ('c',n) ('p',k) ('g',name) ('al',name) ('ld',addr) ('at',base,off|steps...)
       ('op',opc,a,b) ('phi',name) ('call',callee,inst)"""
    def __init__(s, f, width=False):
        s.f = f; s.m = f.mod; s.memo = {}; s.width = width
    def e(s, v):
        if isinstance(v, int): return ('c', v)
        if isinstance(v, tuple):
            if v[0] == 'f': return ('cf', v[1])
            if v[0] == 'gep':
                b = s.e(v[2][0][1]); return s._gep(v[1], b, [x for _, x in v[2][1:]])
            if v[0] == 'cast': return s.e(v[3])
            return ('k', str(v))
        if v in ('null', 'zeroinitializer'): return ('c', 0)
        if v in ('undef', 'poison'): return ('undef',)
        if v[0] == '@': return ('g', v)
        if v in s.memo: return s.memo[v]
        k = pidx(s.f, v)
        if k is not None: return ('p', k)
        d = s.f.defs.get(v)
        if d is None: return ('?', v)
        s.memo[v] = ('phi', v)      # guards cycles
        r = s._inst(d)
        s.memo[v] = r
        return r
    def _inst(s, d):
        o = d.op
        if o in ('zext', 'sext', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui'):
            x = s.e(d.ops[0])
            if s.width and o not in ('bitcast', 'freeze'): return ('cv', o, d.ty, x)
            return x
        if o == 'trunc':
            x = s.e(d.ops[0])
            return ('cv', 'trunc', d.ty, x) if s.width else x
        if o == 'load': return ('ld', s.e(d.ops[0]))
        if o == 'getelementptr': return s._gep(d.extra, s.e(d.ops[0]), d.ops[1:])
        if o == 'alloca': return ('al', d.name)
        if o in ir.BIN:
            a, b = s.e(d.ops[0]), s.e(d.ops[1])
            return fold(o, a, b)
        if o in ('icmp', 'fcmp'): return (o, d.extra, s.e(d.ops[0]), s.e(d.ops[1]))
        if o == 'select': return ('sel',) + tuple(s.e(x) for x in d.ops)
        if o == 'phi': return ('phi', d.name)
        if o == 'call':
            n = cname(s.m, d)
            return ('call', n or '*', d.name) 
        if o == 'fneg': return ('op', 'fneg', s.e(d.ops[0]))
        return ('?', d.name)
    def _gep(s, t, b, idx):
        steps = []
        first = True
        for v in idx:
            if first:
                x = s.e(v)
                if x != ('c', 0): steps.append(('i', s.m.size(t), x))
                first = False; continue
            rt = s.m.resolve(t)
            if isinstance(rt, tuple) and rt[0] == 'st':
                steps.append(('f', s.m.sname(t) if isinstance(t, str) else '?', s.m.fname(t, v) if isinstance(t, str) else v)); t = rt[1][v]
            else:
                t = rt[2]; x = s.e(v)
                if x != ('c', 0): steps.append(('i', s.m.size(t), x))
        r = b
        for st in steps:
            if st[0] == 'i' and r[0] == 'at' and r[2][0] == 'i' and r[2][1] == st[1]:
                r = ('at', r[1], ('i', st[1], fold('add', r[2][2], st[2])))
                if r[2][2] == ('c', 0): r = r[1]
            else: r = ('at', r, st)
        return r

COMM = {'add', 'mul', 'and', 'or', 'xor', 'fadd', 'fmul'}
def fold(o, a, b):
    if a[0] == 'c' and b[0] == 'c':
        x, y = a[1], b[1]
        try:
            r = {'add': x + y, 'sub': x - y, 'mul': x * y, 'shl': x << y if 0 <= y < 64 else None, 'and': x & y, 'or': x | y, 'xor': x ^ y}.get(o)
            if r is not None: return ('c', r)
        except Exception: pass
    if o == 'sub' and b[0] == 'c': o, b = 'add', ('c', -b[1])
    if o == 'shl' and b[0] == 'c' and 0 <= b[1] < 63: o, b = 'mul', ('c', 1 << b[1])
    if o == 'mul' and ('c', 1) in (a, b): return b if a == ('c', 1) else a
    if o in ('add', 'or', 'xor') and b == ('c', 0): return a
    if o in ('add', 'or', 'xor') and a == ('c', 0): return b
    if o == 'mul' and ('c', 0) in (a, b): return ('c', 0)
    if o in COMM and repr(a) > repr(b): a, b = b, a
    if o == 'add' and a[0] == 'c' and b[0] == 'op' and b[1] == 'add' and b[2][0] == 'c':
        return fold('add', ('c', a[1] + b[2][1]), b[3])
    return ('op', o, a, b)

def walk(e):
    """all sub-expressions"""
    yield e
    if isinstance(e, tuple):
        for x in e:
            if isinstance(x, tuple): yield from walk(x)

def guards(f, bb):
    """(branch condition value, polarity) pairs that must hold for bb to be reached:
    conditions of dominating branches with bb only reachable through one side"""
    out = []
    d = f.dom(); b = bb
    while True:
        p = d.get(b)
        if p is None: break
        t = p.term
        if t.op == 'br' and t.ops and len(p.succs) == 2:
            for k, x in enumerate(t.extra):
                sx = f.bb[x]
                if f.dominates(sx, bb) and len([q for q in sx.preds]) == 1:
                    out.append((t.ops[0], k == 0, p))
        elif t.op == 'switch':
            for cv, lab in t.extra[1]:
                sx = f.bb[lab]
                if f.dominates(sx, bb) and len(sx.preds) == 1: out.append((('sw', t.ops[0], cv), True, p))
        b = p
    return out

# ------------------------------------------------------------ write summaries
EXT_WRITES = {  # external functions: which arguments' targets they write
    'MPI_Irecv': {0, 6}, 'MPI_Isend': {6}, 'MPI_Recv': {0, 6}, 'MPI_Send': set(), 'MPI_Allreduce': {1},
    'MPI_Iallreduce': {1, 6}, 'MPI_Waitall': {1}, 'MPI_Wait': {0}, 'MPI_Bcast': {0}, 'MPI_Scan': {1}, 'MPI_Comm_dup': {1}, 'MPI_Comm_free': {0},
    'MPI_Comm_rank': {1}, 'MPI_Comm_size': {1}, 'MPI_Barrier': set(), 'MPI_Abort': set(), 'MPI_Wtime': set(), 'MPI_Comm_f2c': set(),
    'sprintf': {0}, 'snprintf': {0}, 'vsprintf': {0}, 'strcat': {0}, 'strcpy': {0}, 'strlen': set(), 'printf': set(), 'fprintf': set(), 'puts': set(), 'putchar': set(),
    'fwrite': set(), 'fflush': set(), 'exit': set(), 'abort': set(), 'free': set(), 'malloc': set(), 'calloc': set(), 'realloc': {0},
    'cos': set(), 'pow': set(), 'sin': set(), 'sqrt': set(), 'memcmp': set(), 'strcmp': set(),
    'cblas_ddot': set(), 'cblas_dgemv': {10}, 'cblas_dgemm': {12}, 'memset': {0}, 'memcpy': {0}, 'memmove': {0}, 'fabs': set(), 'floor': set(), 'ceil': set(),
}
def ext_writes(m, name, nargs):
    b = name[1:]
    if b.startswith('llvm.mem'): return {0}
    if b.startswith('llvm.'): return {0} if 'va_' in b else set()
    if b in EXT_WRITES: return EXT_WRITES[b]
    return set(range(nargs))           # unknown: assume everything

def deriv(f, roots):
    """SSA values that address memory derived from the given pointer values (no loads)"""
    out = set(roots); ch = True
    while ch:
        ch = False
        for i in f.insts():
            if i.name and i.name not in out and i.ty == 'ptr' or (i.op == 'getelementptr'):
                if i.name in out: continue
                if i.op in ('getelementptr', 'bitcast', 'inttoptr'): src_ = [i.ops[0]]
                elif i.op == 'phi': src_ = i.ops
                elif i.op == 'select': src_ = i.ops[1:]
                else: continue
                if any(isinstance(x, str) and x in out for x in src_): out.add(i.name); ch = True
    return out

class Mod:
    """which parameters' direct targets a function may write; which may be returned"""
    def __init__(s, m):
        s.m = m; s.w = {n: {} for n in m.funcs}; s.r = {n: set() for n in m.funcs}
        s.d = {}
        for f in m.funcs.values():
            for k, (p, t) in enumerate(f.params):
                if t == 'ptr': s.d[f.name, k] = None
        ch = True
        while ch:
            ch = False
            for f in m.funcs.values():
                for k, (p, t) in enumerate(f.params):
                    if t != 'ptr': continue
                    D = s.aliases(f, {p})
                    for i in f.insts():
                        h = s.writes(i, D)
                        if h and k not in s.w[f.name]: s.w[f.name][k] = (i, h); ch = True
                        if i.op == 'ret' and i.ops and i.ops[0] in D and k not in s.r[f.name]: s.r[f.name].add(k); ch = True
    def aliases(s, f, roots):
        D = set(roots)
        while True:
            n = len(D)
            D = deriv(f, D)
            for i in f.insts():
                if i.op == 'call' and i.name and i.ty == 'ptr' and i.name not in D:
                    for t in s.m.cg.targets(i) or ():
                        for k in s.r.get(t, ()):
                            if k < len(i.ops) and i.ops[k] in D: D.add(i.name)
            if len(D) == n: return D
    def writes(s, i, D):
        """does the instruction write memory directly addressed by a value in D"""
        if i.op == 'store': return 'store' if i.ops[1] in D else None
        if i.op == 'call':
            args = [k for k, a in enumerate(i.ops) if isinstance(a, str) and a in D]
            if not args: return None
            for t in s.m.cg.targets(i) or ():
                if t in s.m.funcs:
                    for k in args:
                        if k in s.w[t]: return t
                else:
                    for k in args:
                        if k in ext_writes(s.m, t, len(i.ops)): return t
        return None

# ------------------------------------------------------------ normal form
_addr = {}
def fn_refs(m, v, out):
    if isinstance(v, str):
        if v[:1] == '@' and (v in m.funcs or v in m.decls): out.add(v)
    elif isinstance(v, tuple):
        for x in v: fn_refs(m, x, out)
def addr_taken(m):
    at = set()
    for f in m.funcs.values():
        for i in f.insts():
            for v in i.ops: fn_refs(m, v, at)
    for g in m.globals.values(): fn_refs(m, g['init'], at)
    return at

_norm = {}
def norm(cfg='default', passes=build.NORMAL, keep=None, flags=None):
    """whole program with every internal function whose address is not taken placed
    into its callers: helper functions are invisible to the rules.
    keep(name) -> True: do not inline"""
    k = (cfg, passes, keep, tuple(flags or ()))
    if k not in _norm:
        m = build.module(cfg, inline=keep, helpers=True, passes=passes, flags=flags)
        m.cg = CG(m)
        # inlined bodies that are still there are dead
        at = addr_taken(m); used = set(at)
        for f in m.funcs.values():
            for i in f.insts():
                if i.op == 'call' and isinstance(i.extra, str): used.add(i.extra)
        for n in [n for n, f in m.funcs.items() if f.internal and n not in used]: del m.funcs[n]
        _norm[k] = m
    return _norm[k]

def entry_name(f):
    """name of the exported function, or the slots an address-taken one is stored in"""
    return src(f)

# ------------------------------------------------------------ multi-level write summaries
class Effects:
    """For every function and pointer parameter k: the levels of indirection at which
    memory reached from it is written. (k,0): *p;  (k,1): memory pointers stored in *p
    address; (k,2): deeper. Flow through local variables that hold pointers is followed."""
    MAX = 2
    def __init__(s, m):
        s.m = m
        s.w = {n: {} for n in m.funcs}     # fn -> {(k,l): witness inst}
        s.r = {n: set() for n in m.funcs}  # fn -> {(k,l)} may be returned
        s.info = {}
        for f in m.funcs.values(): s.info[f.name] = s._prep(f)
        work = list(m.funcs); callers = m.cg.callers(); inq = set(work)
        while work:
            n = work.pop(0); inq.discard(n)
            if s._fn(m.funcs[n]):
                for c in callers.get(n, ()):
                    if c in m.funcs and c not in inq: inq.add(c); work.append(c)
    def _prep(s, f):
        pi = [i for i in f.insts() if i.op in ('getelementptr', 'phi', 'select', 'load', 'store', 'call', 'ret', 'bitcast', 'inttoptr', 'ptrtoint', 'extractvalue', 'insertvalue')]
        return pi
    def flow(s, f, roots):
        """roots: {value: level} -> (values {v:set(levels)}, holders {alloca: set(levels)})"""
        V = {v: {l} for v, l in roots.items()}; H = {}
        ch = True
        def add(v, ls):
            nonlocal ch
            if not isinstance(v, str) or not ls: return
            o = V.setdefault(v, set()); k = len(o); o |= ls
            if len(o) != k: ch = True
        while ch:
            ch = False
            for i in s.info[f.name]:
                o = i.op
                if o in ('getelementptr', 'bitcast', 'inttoptr', 'ptrtoint'):
                    if isinstance(i.ops[0], str) and i.ops[0] in V: add(i.name, V[i.ops[0]])
                elif o == 'phi':
                    for x in i.ops:
                        if isinstance(x, str) and x in V: add(i.name, V[x])
                elif o == 'select':
                    for x in i.ops[1:]:
                        if isinstance(x, str) and x in V: add(i.name, V[x])
                elif o == 'load':
                    if i.ty == 'ptr':
                        a = i.ops[0]
                        if isinstance(a, str):
                            if a in V: add(i.name, {min(l + 1, s.MAX) for l in V[a]})
                            b = rootv(f, a)
                            if b in H: add(i.name, H[b])
                elif o == 'store':
                    if i.ty == 'ptr' and isinstance(i.ops[0], str) and i.ops[0] in V:
                        b = rootv(f, i.ops[1]) if isinstance(i.ops[1], str) else None
                        if isinstance(b, str) and b in f.defs and f.defs[b].op == 'alloca':
                            h = H.setdefault(b, set()); k = len(h); h |= V[i.ops[0]]
                            if len(h) != k: ch = True
                elif o == 'call' and i.name:
                    for t in s.m.cg.targets(i) or ():
                        for (k, l) in s.r.get(t, ()):
                            if k < len(i.ops) and isinstance(i.ops[k], str):
                                a = i.ops[k]
                                if a in V: add(i.name, {min(x + l, s.MAX) for x in V[a]})
                                b = rootv(f, a)
                                if l >= 1 and b in H: add(i.name, {min(x + l - 1, s.MAX) for x in H[b]})
                    b = str(i.extra)
                    if b in ('@realloc', '@memcpy', '@memmove') and i.ops[0] in V: add(i.name, V[i.ops[0]])
                elif o == 'call' and str(i.extra).startswith('@llvm.memcpy'):
                    pass
                if o == 'call' and (str(i.extra).startswith('@llvm.memcpy') or str(i.extra).startswith('@llvm.memmove')):
                    # copying an object that holds pointers into a local one
                    d = rootv(f, i.ops[0]) if isinstance(i.ops[0], str) else None
                    if isinstance(d, str) and d in f.defs and f.defs[d].op == 'alloca' and isinstance(i.ops[1], str):
                        src_l = set()
                        if i.ops[1] in V: src_l |= {min(l + 1, s.MAX) for l in V[i.ops[1]]}
                        b = rootv(f, i.ops[1])
                        if b in H: src_l |= H[b]
                        if src_l:
                            h = H.setdefault(d, set()); k = len(h); h |= src_l
                            if len(h) != k: ch = True
        return V, H
    def writes_of(s, f, V, H):
        """[(level, inst, what)] writes to memory at the levels in V (level l value -> writes level l)"""
        out = []
        for i in s.info[f.name]:
            if i.op == 'store':
                a = i.ops[1]
                if isinstance(a, str) and a in V:
                    for l in V[a]: out.append((l, i, 'store'))
            elif i.op == 'call':
                for k, a in enumerate(i.ops):
                    if not isinstance(a, str): continue
                    ls = V.get(a); b = rootv(f, a); hs = H.get(b)
                    if not ls and not hs: continue
                    for t in s.m.cg.targets(i) or ():
                        if t in s.m.funcs:
                            for (kk, l) in s.w[t]:
                                if kk == k:
                                    for x in ls or (): out.append((min(x + l, s.MAX), i, t))
                                    if l >= 1:
                                        for x in hs or (): out.append((min(x + l - 1, s.MAX), i, t))
                        elif k in ext_writes(s.m, t, len(i.ops)):
                            for x in ls or (): out.append((x, i, t))
        return out
    def _fn(s, f):
        ch = False
        for k, (p, t) in enumerate(f.params):
            if t != 'ptr': continue
            V, H = s.flow(f, {p: 0})
            for l, i, what in s.writes_of(f, V, H):
                if (k, l) not in s.w[f.name]: s.w[f.name][k, l] = (i, what); ch = True
            for i in s.info[f.name]:
                if i.op == 'ret' and i.ops and isinstance(i.ops[0], str) and i.ops[0] in V:
                    for l in V[i.ops[0]]:
                        if (k, l) not in s.r[f.name]: s.r[f.name].add((k, l)); ch = True
        return ch

def parallel(fn, args, r):
    """runs fn(report, arg) for each argument in a process of its own and merges the reports"""
    import multiprocessing as mp, report, traceback
    def child(a, q):
        x = report.Report(r.pid, r.tier)
        try:
            fn(x, a); q.send(('ok', (x.viol, x.cov, x.notes, x.assume, x.obl, x.inst)))
        except Broken as e: q.send(('broken', str(e)))
        except BaseException: q.send(('err', traceback.format_exc()))
        q.close()
    ps = []
    for a in args:
        x, y = mp.Pipe(False)
        p = mp.get_context('fork').Process(target=child, args=(a, y)); p.start(); y.close(); ps.append((p, x))
    for p, x in ps:
        try: k, v = x.recv()
        except EOFError: raise Broken('analysis process ended early')
        p.join()
        if k == 'broken': raise Broken(v)
        if k == 'err': raise RuntimeError(v)
        viol, cov, notes, assume, obl, inst = v
        for w in viol:
            if not any(o['key'] == w['key'] and o['rule'] == w['rule'] for o in r.viol): r.viol.append(w)
        for kk, vv in cov.items():
            if isinstance(vv, dict) and isinstance(r.cov.get(kk), dict): r.cov[kk].update(vv)
            elif isinstance(vv, (int, float)) and isinstance(r.cov.get(kk), (int, float)): r.cov[kk] += vv
            elif isinstance(vv, list) and isinstance(r.cov.get(kk), list): r.cov[kk] += [z for z in vv if z not in r.cov[kk]]
            else: r.cov[kk] = vv
        r.notes += notes; r.assume += [z for z in assume if z not in r.assume]
        r.obl += obl
        for kk, vv in inst.items(): r.inst[kk] = r.inst.get(kk, 0) + vv

# ------------------------------------------------------------ branch facts
INV = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SWP = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'eq': 'eq', 'ne': 'ne'}
class Facts:
    """conditions known to hold at a point: forward must-analysis over the branches taken,
    paths that end in a routine that does not return are dropped"""
    def __init__(s, f, noret):
        s.f = f; s.x = Ex(f); s.cache = {}
        dead = set()
        for b in f.blocks:
            for i in b.insts:
                if i.op == 'unreachable' or i.op == 'call' and isinstance(i.extra, str) and i.extra in noret: dead.add(b); break
        s.dead = dead
        TOP = None; s.inn = {b: TOP for b in f.blocks}; s.inn[f.blocks[0]] = frozenset()
        wl = [f.blocks[0]]
        while wl:
            b = wl.pop(0)
            if b in dead: continue
            cur = s.inn[b]
            t = b.term
            for x in b.succs:
                add = set()
                if t.op == 'br' and t.ops and len(b.succs) == 2: s.split(t.ops[0], f.bb[t.extra[0]] is x, add)
                elif t.op == 'switch':
                    cs = [c for c, l in t.extra[1] if f.bb[l] is x]
                    if f.bb[t.extra[0]] is not x and len(cs) == 1: add.add(('sw', t.ops[0], cs[0]))
                    elif f.bb[t.extra[0]] is x and not cs: add |= {('swn', t.ops[0], c) for c, l in t.extra[1]}
                new = cur | add
                # a condition computed again in x is no longer known
                new = frozenset(z for z in new if not (isinstance(z[0], str) and z[0] in f.defs and f.defs[z[0]].bb is x and False))
                o = s.inn[x]; m = new if o is None else o & new
                if m != o: s.inn[x] = m; wl.append(x)
    def split(s, v, pol, out):
        """facts implied by condition v being pol"""
        if not isinstance(v, str): return
        out.add((v, pol)); d = s.f.defs.get(v)
        if d is None: return
        if d.op == 'and' and pol or d.op == 'or' and not pol:
            for y in d.ops: s.split(y, pol, out)
        elif d.op == 'xor' and d.ops[1] in (1, -1): s.split(d.ops[0], not pol, out)
        elif d.op == 'select' and d.ty == 'i1':
            c, a, b = d.ops
            if a == 1 and not pol: s.split(c, False, out); s.split(b, False, out)
            elif b == 0 and pol: s.split(c, True, out); s.split(a, True, out)
        elif d.op in ('zext', 'freeze'): s.split(d.ops[0], pol, out)
        elif d.op == 'icmp' and d.extra in ('ne', 'eq') and d.ops[1] == 0 and isinstance(d.ops[0], str):
            z = s.f.defs.get(d.ops[0])
            if z is not None and z.op in ('zext', 'select', 'or', 'and') : s.split(d.ops[0], (d.extra == 'ne') == pol, out)
    def at(s, b):
        """[(predicate, a, b)] canonical comparisons that hold on entry to block b"""
        if b in s.cache: return s.cache[b]
        out = []
        for z in s.inn.get(b) or ():
            if len(z) == 3:
                a, c = s.x.e(z[1]), ('c', z[2])
                out.append(('eq' if z[0] == 'sw' else 'ne', a, c)); continue
            v, pol = z; d = s.f.defs.get(v)
            if d is None: continue
            if d.op == 'icmp':
                p = d.extra if pol else INV[d.extra]; a, c = s.x.e(d.ops[0]), s.x.e(d.ops[1])
                out.append((p, a, c)); out.append((SWP[p], c, a))
            elif d.op == 'fcmp': out.append((('fcmp', d.extra, pol), s.x.e(d.ops[0]), s.x.e(d.ops[1])))
            else: out.append(('ne' if pol else 'eq', s.x.e(v), ('c', 0)))
        s.cache[b] = out
        return out
    def unreachable(s, b): return s.inn.get(b) is None
    def lower(s, b, v):
        """greatest constant known to be <= v (signed), or None"""
        best = None
        for p, a, c in s.at(b):
            if a == v and c[0] == 'c':
                k = c[1]
                if p in ('sge', 'eq'): n = k
                elif p == 'sgt': n = k + 1
                elif p == 'ult' and k >= 0: n = 0
                else: continue
                best = n if best is None else max(best, n)
        return best
    def upper(s, b, v):
        best = None
        for p, a, c in s.at(b):
            if a == v and c[0] == 'c':
                k = c[1]
                if p in ('sle', 'eq'): n = k
                elif p in ('slt', 'ult'): n = k - 1
                elif p == 'ule': n = k
                else: continue
                best = n if best is None else min(best, n)
        return best

class Assume:
    """conditional constant propagation: which blocks can run when the given expressions (what is loaded
    from a place) have the given values; everything else is unknown. Paths end at routines that do not return."""
    def __init__(s, f, x, env, noret):
        s.f, s.x = f, x
        TOP, BOT = object(), object()
        val = {}; s.exec = set(); edges = set()
        W = lambda ty: int(ty[1:]) if isinstance(ty, str) and ty.startswith('i') and ty[1:].isdigit() else 64 if ty == 'ptr' else None
        ty = {i.name: i.ty for i in f.insts() if i.name}
        dead = {}
        for b in f.blocks:
            for k, i in enumerate(b.insts):
                if i.op == 'unreachable' or i.op == 'call' and isinstance(i.extra, str) and i.extra in noret: dead[b] = k; break
        def cmpty(i): return i.ty if i.op == 'icmp' else None
        def get(v, t=None):
            if isinstance(v, bool): return int(v)
            if isinstance(v, int): return v
            if v in ('null', 'zeroinitializer', 'false'): return 0
            if v == 'true': return 1
            if isinstance(v, str) and v in f.defs: return val.get(v, TOP)
            if isinstance(v, str) and v.startswith('%'):
                c = env.get(s.x.e(v)); return BOT if c is None else c
            return BOT
        def sx(v, w): v &= (1 << w) - 1; return v - (1 << w) if v >> (w - 1) else v
        def ux(v, w): return v & ((1 << w) - 1)
        ub = getattr(f, '_ub', None)
        if ub is None:
            ub = f._ub = {}
            for b in f.blocks:
                for j in b.insts:
                    for z in j.ops:
                        if isinstance(z, str) and z.startswith('%'):
                            l = ub.setdefault(z, [])
                            if not l or l[-1] is not b: l.append(b)
        subj = {}
        for i in f.insts():
            if i.op == 'load':
                e = ('ld', s.x.e(i.ops[0]))
                if e in env: subj[i.name] = env[e]
                if ('at', i.name) in env: subj[i.name] = env['at', i.name]
            elif i.op == 'call' and i.name and env:
                e = s.x.e(i.name)
                if e in env: subj[i.name] = env[e]
        def ev(i):
            if i.name in subj: return subj[i.name]
            if i.op in ('load', 'call', 'alloca', 'getelementptr', 'extractvalue'): return BOT
            if i.op == 'phi':
                r = TOP
                for v, l in zip(i.ops, i.extra):
                    if (f.bb[l] if isinstance(l, str) else l, i.bb) not in edges: continue
                    q = get(v)
                    if q is TOP: continue
                    if r is TOP: r = q
                    elif r is not q and (q is BOT or r is BOT or r != q): return BOT
                return r
            a = [get(v) for v in i.ops]
            if i.op == 'select':
                if a[0] is TOP: return TOP
                if a[0] is BOT:
                    return a[1] if a[1] is a[2] or (a[1] not in (TOP, BOT) and a[2] not in (TOP, BOT) and a[1] == a[2]) else (TOP if TOP in (a[1], a[2]) else BOT)
                return a[1] if a[0] & 1 else a[2]
            if TOP in [q for q in a if q is TOP]: return TOP
            if i.op in ('and', 'or') and i.ty == 'i1':
                for q in a:
                    if q is not BOT and (q & 1) == (0 if i.op == 'and' else 1): return q & 1
            if any(q is BOT for q in a): return BOT
            w = W(i.ty)
            if i.op == 'icmp':
                sw = W(ty.get(i.ops[0], None)) or W(ty.get(i.ops[1], None)) or W(i.ty) or 64
                if sw == 1 and not any(ty.get(o) == 'i1' for o in i.ops): sw = 64
                p = i.extra
                u, v = (sx(a[0], sw), sx(a[1], sw)) if p[0] == 's' else (ux(a[0], sw), ux(a[1], sw))
                return int({'eq': u == v, 'ne': u != v, 'lt': u < v, 'le': u <= v, 'gt': u > v, 'ge': u >= v}[p if p in ('eq', 'ne') else p[1:]])
            if w is None: return BOT
            o = i.op
            if o == 'add': return ux(a[0] + a[1], w)
            if o == 'sub': return ux(a[0] - a[1], w)
            if o == 'mul': return ux(a[0] * a[1], w)
            if o == 'and': return ux(a[0] & a[1], w)
            if o == 'or': return ux(a[0] | a[1], w)
            if o == 'xor': return ux(a[0] ^ a[1], w)
            if o == 'shl' and ux(a[1], w) < w: return ux(a[0] << ux(a[1], w), w)
            if o == 'lshr' and ux(a[1], w) < w: return ux(a[0], w) >> ux(a[1], w)
            if o in ('zext', 'sext', 'trunc', 'freeze'):
                sw = W(ty.get(i.ops[0])) or 64
                return sx(a[0], sw) if o == 'sext' else ux(ux(a[0], sw), w)
            return BOT
        wl = [f.blocks[0]]; s.exec.add(f.blocks[0])
        n = 0
        while wl and n < 100000:
            n += 1
            b = wl.pop(0)
            for k, i in enumerate(b.insts):
                if b in dead and k > dead[b]: break
                if i.name:
                    o = val.get(i.name, TOP); v = ev(i)
                    if o is not TOP and v is not o and (o is BOT or v is TOP or v is BOT or v != o): v = BOT
                    if v is not o and (v is TOP or o is TOP or v is BOT or o is BOT or v != o):
                        val[i.name] = v
                        for u in ub.get(i.name, ()):
                            if u in s.exec and u not in wl: wl.append(u)
            if b in dead: continue
            t = b.term; go = b.succs
            if t.op == 'br' and t.ops:
                c = get(t.ops[0])
                if c is TOP: go = []
                elif c is not BOT: go = [f.bb[t.extra[0 if c & 1 else 1]]]
            elif t.op == 'switch':
                c = get(t.ops[0])
                if c is TOP: go = []
                elif c is not BOT:
                    w = W(ty.get(t.ops[0])) or 32
                    hit = [l for k, l in t.extra[1] if ux(k, w) == ux(c, w)]
                    go = [f.bb[hit[0] if hit else t.extra[0]]]
            for y in go:
                if (b, y) not in edges:
                    edges.add((b, y)); s.exec.add(y)
                    if y not in wl: wl.append(y)
        s.val = val; s.edges = edges
    def runs(s, b): return b in s.exec

class PN:
    """addresses and integers as polynomials over atoms (byte exact, conversions dropped):
    atoms: ('p',k) ('g',name) ('al',name) ('ld',poly) ('call',callee,name) ('x',name) ('op',...)"""
    def __init__(s, f): s.f, s.m, s.memo = f, f.mod, {}
    @staticmethod
    def k(p): return tuple(sorted(p.items(), key=repr))
    @staticmethod
    def const(c): return {(): c} if c else {}
    @staticmethod
    def atom(a): return {(a,): 1}
    @staticmethod
    def add(a, b, s=1):
        r = dict(a)
        for m, c in b.items():
            r[m] = r.get(m, 0) + s * c
            if not r[m]: del r[m]
        return r
    @staticmethod
    def mul(a, b):
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                q = tuple(sorted(m + n, key=repr)); r[q] = r.get(q, 0) + c * d
        return {m: c for m, c in r.items() if c}
    def n(s, v):
        if isinstance(v, bool): return s.const(int(v))
        if isinstance(v, int): return s.const(v)
        if isinstance(v, tuple):
            if v[0] == 'gep': return s.gep(v[1], s.n(v[2][0][1]), [x for _, x in v[2][1:]])
            if v[0] == 'cast': return s.n(v[3])
            return s.atom(('k', str(v)))
        if v in ('null', 'zeroinitializer', 'false'): return {}
        if v == 'true': return s.const(1)
        if v[0] == '@': return s.atom(('g', v))
        if v in s.memo: return s.memo[v]
        k = pidx(s.f, v)
        if k is not None: return s.atom(('p', k))
        d = s.f.defs.get(v)
        if d is None: return s.atom(('?', v))
        s.memo[v] = s.atom(('x', v))
        s.memo[v] = r = s.inst(d)
        return r
    def inst(s, d):
        o = d.op
        if o in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze'):
            return s.n(d.ops[0])
        if o == 'load': return s.atom(('ld', s.k(s.n(d.ops[0]))))
        if o == 'getelementptr': return s.gep(d.extra, s.n(d.ops[0]), d.ops[1:])
        if o == 'alloca': return s.atom(('al', d.name))
        if o == 'add' or o == 'or' and s.disjoint(d): return s.add(s.n(d.ops[0]), s.n(d.ops[1]))
        if o == 'sub': return s.add(s.n(d.ops[0]), s.n(d.ops[1]), -1)
        if o == 'mul': return s.mul(s.n(d.ops[0]), s.n(d.ops[1]))
        if o == 'shl' and isinstance(d.ops[1], int): return s.mul(s.n(d.ops[0]), s.const(1 << d.ops[1]))
        if o == 'call': return s.atom(('call', cname(s.m, d) or '*', d.name))
        if o == 'phi': return s.atom(('x', d.name))
        if o in ('icmp', 'fcmp'): return s.atom((o, d.extra, s.k(s.n(d.ops[0])), s.k(s.n(d.ops[1]))))
        if o in ir.BIN or o == 'select': return s.atom((o,) + tuple(s.k(s.n(x)) for x in d.ops))
        return s.atom(('x', d.name))
    def disjoint(s, d):
        """x | c is x + c when every term of x is a multiple of a power of two above c"""
        c = d.ops[1]
        if not isinstance(c, int) or isinstance(c, bool) or c < 0: return False
        w = 1 << c.bit_length(); x = s.n(d.ops[0])
        return bool(x) and all(v % w == 0 for v in x.values())
    def gep(s, t, b, idx):
        p = b; first = True
        for x in idx:
            if not first:
                rt = s.m.resolve(t)
                if rt[0] == 'st':
                    p = s.add(p, s.const(s.m.field_off(t, x))); t = rt[1][x]; continue
                t = rt[2]
            first = False
            p = s.add(p, s.mul(s.n(x), s.const(s.m.size(t))))
        return p
    def show(s, p, names=None):
        def a(z):
            if z[0] == 'p': return (names[z[1]] if names else f'arg{z[1]}')
            if z[0] == 'ld': return '*(' + q(dict(z[1])) + ')'
            if z[0] in ('g', 'al', 'x', '?'): return z[1].strip('@%')
            if z[0] == 'call': return z[1] + '()'
            return str(z[0]) + str(z[1]) if isinstance(z[1], str) else str(z[0])
        def q(p): return ' + '.join(('' if c == 1 and m else str(c)) + ('*' if c != 1 and m else '') + '*'.join(a(z) for z in m) for m, c in sorted(p.items(), key=repr)) or '0'
        return q(p)

class LP(PN):
    """polynomials that know loops: a variable stepped by a fixed amount is start + step*('iv',depth); one stepped by
    a varying amount is start + ('acc',depth,step); after the loop the trip count takes the place of the counter.
    Loops are expected with their test at the head and closed (lcssa)."""
    def __init__(s, f):
        super().__init__(f); s.head = {L.head: L for L in f.loops()}; s.trips = {}
    def inst(s, d):
        if d.op == 'phi':
            L = s.head.get(d.bb)
            if L is not None: return s.header(d, L)
            if len(d.ops) == 1 or len(set(map(str, d.ops))) == 1:
                v = d.ops[0]; p = s.n(v); q = s.f.defs.get(v) if isinstance(v, str) else None
                if q is not None:
                    M = s.f.loop_of(q.bb)
                    while M is not None and d.bb not in M.body:
                        p = s.after(p, M); M = M.parent
                return p
            return s.atom(('x', d.name))
        if d.op == 'load' and s.table(d) is not None: return s.table(d)
        return super().inst(d)
    def table(s, d): return None
    def header(s, d, L):
        out = [v for v, l in zip(d.ops, d.extra) if (s.f.bb[l] if isinstance(l, str) else l) not in L.body]
        back = [v for v, l in zip(d.ops, d.extra) if (s.f.bb[l] if isinstance(l, str) else l) in L.body]
        if len(set(map(str, out))) != 1 or len(set(map(str, back))) != 1: return s.atom(('x', d.name))
        keep = dict(s.memo); me = ('x', d.name); s.memo[d.name] = s.atom(me)
        nx = s.n(back[0]); s.memo = keep
        if nx.get((me,)) != 1:
            if s.once(d, L, out[0]): return s.add(s.n(out[0]), s.mul(s.add(nx, s.n(out[0]), -1), s.atom(('iv', L.depth))))
            return s.atom(me)
        step = s.add(nx, s.atom(me), -1)
        if s.mentions(step, lambda a: a == me): return s.atom(me)
        start = s.n(out[0])
        iv = ('iv', L.depth)
        if not s.mentions(step, lambda a: a == iv or a[0] == 'acc' and a[1] == L.depth or a[0] == 'x' and a[1] in s.f.defs and s.f.defs[a[1]].bb in L.body):
            return s.add(start, s.mul(step, s.atom(iv)))
        return s.add(start, s.atom(('acc', L.depth, s.k(step))))
    def once(s, d, L, first):
        """a loop that goes on only while the variable has its first, constant value, which it never has again"""
        t = L.head.term; c = s.f.defs.get(t.ops[0]) if t.ops and isinstance(t.ops[0], str) else None
        if c is None or c.op != 'icmp' or not all(isinstance(v, int) for v in d.ops) or len(set(d.ops)) != 2: return False
        return c.extra == ('eq' if s.f.bb[t.extra[0]] in L.body else 'ne') and set(map(str, c.ops)) == {d.name, str(first)}
    def mentions(s, p, pred):
        def at(a):
            if pred(a): return True
            return any(poly(x) for x in a[1:] if isinstance(x, tuple))
        def poly(k):
            if k and isinstance(k, tuple) and all(isinstance(t, tuple) and len(t) == 2 and isinstance(t[0], tuple) and isinstance(t[1], int) for t in k):
                return any(at(a) for m, c in k for a in m)
            return any(poly(x) for x in k if isinstance(x, tuple))
        return any(at(a) for m in p for a in m)
    def trip(s, L):
        """number of times the body runs, as a polynomial"""
        if L in s.trips: return s.trips[L]
        s.trips[L] = r = s._trip(L); return r
    def _trip(s, L):
        ex = L.exits()
        if len({b for b, x in ex}) != 1 or ex[0][0] is not L.head: return s.atom(('trip?', L.head.name))
        t = L.head.term
        c = s.f.defs.get(t.ops[0]) if t.ops and isinstance(t.ops[0], str) else None
        if c is None or c.op != 'icmp': return s.atom(('trip?', L.head.name))
        iv = ('iv', L.depth)
        D = s.add(s.n(c.ops[1]), s.n(c.ops[0]), -1)
        a = {m: v for m, v in D.items() if iv in m}; b = {m: v for m, v in D.items() if iv not in m}
        if set(a) == {(iv,)} and not s.mentions(b, lambda z: z == iv):
            k = -a[iv,]
            stay = s.f.bb[t.extra[0]] in L.body
            pr = c.extra if stay else INV[c.extra]          # the test under which the loop goes on
            incl = pr in ('ule', 'sle', 'uge', 'sge')
            if pr == 'eq':
                if set(b) <= {()} and not b.get((), 0): return s.const(1)
            elif incl and abs(k) == 1: return s.add({m: v // k for m, v in b.items()}, s.const(1))
            elif not incl and all(v % k == 0 for v in b.values()): return {m: v // k for m, v in b.items()}
        return s.atom(('trip', c.extra, s.k(D)))
    def after(s, p, L):
        iv = ('iv', L.depth); t = s.trip(L)
        p = s.subst(p, lambda a: t if a == iv else s.atom(('end', a[2], s.k(t))) if a[0] == 'acc' and a[1] == L.depth else None, deep=lambda a: not (a[0] == 'acc' and a[1] == L.depth))
        return p
    def subst(s, p, fn, deep=lambda a: True):
        """replace atoms; nested polynomials are rebuilt, constants folded"""
        r = {}
        for m, c in p.items():
            q = s.const(c) or {}
            for a in m: q = s.mul(q, s.satom(a, fn, deep))
            r = s.add(r, q)
        return r
    def satom(s, a, fn, deep):
        z = fn(a)
        if z is not None: return z
        if a[0] in ('p', 'g', 'al', 'x', 'iv', '?', 'call', 'k', 'trip?'): return s.atom(a)
        if not deep(a): return s.atom(a)
        b = tuple(s.k(s.subst(dict(x), fn, deep)) if isinstance(x, tuple) else x for x in a)
        z = fn(b)
        if z is not None: return z
        return s.fold(b)
    def fold(s, a):
        def cv(k):
            if k == (): return 0
            return k[0][1] if len(k) == 1 and k[0][0] == () else None
        if a[0] == 'xor' and len(a) == 3:
            x, y = cv(a[1]), cv(a[2])
            if x is not None and y is not None: return s.const(x ^ y)
        if a[0] == 'icmp':
            x, y = cv(a[2]), cv(a[3])
            D = s.add(dict(a[2]), dict(a[3]), -1)
            if not D: return s.const(int(a[1] in ('eq', 'ule', 'uge', 'sle', 'sge')))
            if x is not None and y is not None and a[1] in ('eq', 'ne'): return s.const(int((x == y) == (a[1] == 'eq')))
            if len(D) == 1 and a[1] in ('eq', 'ne'):
                (m, c), = D.items()
                if len(m) == 1 and m[0][0] in ('g', 'al'): return s.const(int(a[1] == 'ne'))
        if a[0] == 'select':
            c = cv(a[1])
            if c is not None: return dict(a[2] if c else a[3])
        return s.atom(a)
    def ctx(s, b, skip=lambda blk, side: False):
        """(loops around a block as trip counts, outer first; other conditions it depends on)"""
        ls = []; L = s.f.loop_of(b)
        while L is not None: ls.append(L); L = L.parent
        loops = tuple(s.k(s.trip(x)) for x in reversed(ls))
        conds = []
        for v, pol, blk in guards(s.f, b):
            M = s.head.get(blk)
            if M is not None and any(e[0] is blk for e in M.exits()): continue
            if not isinstance(v, tuple) and skip(blk, s.f.bb[blk.term.extra[0 if pol else 1]]): continue
            if isinstance(v, tuple): conds.append((('sw', s.k(s.n(v[1])), v[2]), True)); continue
            d = s.f.defs.get(v) if isinstance(v, str) else None
            if d is not None and d.op == 'icmp':
                pr = d.extra if pol else INV[d.extra]; x, y = s.k(s.n(d.ops[0])), s.k(s.n(d.ops[1]))
                if repr(x) > repr(y): x, y, pr = y, x, SWP[pr]
                conds.append((pr, x, y))
            else: conds.append(('c', s.k(s.n(v)), pol))
        return loops, tuple(reversed(conds))

def rpo(f):
    """reverse post-order in which a loop comes before what follows it"""
    dep = {b: (L.depth if L else 0) for b in f.blocks for L in [f.loop_of(b)]}
    nx = lambda b: iter(sorted(b.succs, key=lambda y: dep[y]))
    out = []; seen = {f.blocks[0]}
    st = [(f.blocks[0], nx(f.blocks[0]))]
    while st:
        b, it = st[-1]
        for x in it:
            if x not in seen: seen.add(x); st.append((x, nx(x))); break
        else: out.append(b); st.pop()
    return out[::-1]
