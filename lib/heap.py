"""flow-sensitive abstract heap: which blocks are live, where their addresses are kept, what is released
values: sets of 'null', 'top', (root, path); root = ('p',k) ('al',name) ('g',name) ('tok',site); path = offsets, one per dereference, the last one inside the current block"""
from math import gcd
from an import *
import ir
ALLOC = {'malloc', 'calloc', 'realloc'}
TOP = frozenset(['top']); NULL = frozenset(['null'])

# an offset is a number, or ('m', S, r): r plus any multiple of S
def many(S, r): return '*' if S < 2 else ('m', S, r % S)
def plus(o, c):
    """sum of two offsets"""
    if isinstance(o, int) and isinstance(c, int): return o + c
    if isinstance(c, tuple) and isinstance(o, int): o, c = c, o
    if o == '*' or c == '*': return '*'
    if isinstance(c, int): return many(o[1], o[2] + c)
    return many(gcd(o[1], c[1]), o[2] + c[2])
def meets(a, b):
    if a == '*' or b == '*': return True
    if isinstance(a, int) and isinstance(b, int): return a == b
    if isinstance(a, int): a, b = b, a
    if isinstance(b, int): return (b - a[2]) % a[1] == 0
    return (a[2] - b[2]) % gcd(a[1], b[1]) == 0
def hull(os):
    """one offset for several"""
    if '*' in os: return '*'
    g = 0; r = None
    for o in os:
        b, s = (o, 0) if isinstance(o, int) else (o[2], o[1])
        g = gcd(g, s)
        if r is None: r = b
        else: g = gcd(g, abs(b - r))
    return r if g == 0 else many(g, r)
class St:
    __slots__ = ('env', 'mem', 'tok')
    def __init__(s, env=None, mem=None, tok=None): s.env, s.mem, s.tok = env or {}, mem or {}, tok or {}
    def copy(s): return St(dict(s.env), dict(s.mem), dict(s.tok))
    def join(s, o):
        ch = False
        for a, b in ((s.env, o.env), (s.tok, o.tok)):
            for k, v in b.items():
                w = a.get(k)
                if w is None: a[k] = v if a is s.env else v | {'-'} if a is s.tok and k not in a else v; ch = True
                elif not v <= w:
                    n = w | v if a is s.tok else clip(w | v)
                    if n != w: a[k] = n; ch = True
        for k in s.tok:
            if k not in o.tok and '-' not in s.tok[k]: s.tok[k] = s.tok[k] | {'-'}; ch = True
        for k, v in o.mem.items():
            w = s.mem.get(k)
            if w is None: s.mem[k] = v | UND(k); ch = ch or True
            elif not v <= w:
                n = clip(w | v)
                if n != w: s.mem[k] = n; ch = True
        for k in s.mem:
            if k not in o.mem:
                u = s.mem[k] | UND(k)
                if u != s.mem[k]: s.mem[k] = u; ch = True
        return ch

def UND(k):
    """content of a cell nothing was stored to: of a parameter's block, what the caller left; else undefined"""
    (root, path) = k
    if not isinstance(path[-1], int): return frozenset()
    return frozenset([(root, path + (0,))]) if root[0] in ('p', 'g') else frozenset(['und'])
def livein(f):
    """pointers an instruction of the block, or of one after it, still reads"""
    use, dfn, phi = {}, {}, {}
    for b in f.blocks:
        u, d = set(), set()
        for i in b.insts:
            if i.op == 'phi':
                d.add(i.name)
                for v, l in zip(i.ops, i.extra):
                    if isinstance(v, str): phi.setdefault(f.bb[l] if isinstance(l, str) else l, set()).add(v)
                continue
            for v in names(list(i.ops)): 
                if v not in d: u.add(v)
            if i.name: d.add(i.name)
        use[b], dfn[b] = u, d
    inn = {b: set() for b in f.blocks}; ch = True
    while ch:
        ch = False
        for b in reversed(f.blocks):
            o = set(phi.get(b, ()))
            for x in b.succs: o |= inn[x]
            n = use[b] | (o - dfn[b])
            if n != inn[b]: inn[b] = n; ch = True
    return inn
def names(vs):
    for v in vs:
        if isinstance(v, str): yield v
        elif isinstance(v, (tuple, list)): yield from names(v)

class Heap:
    def __init__(s, f, summ, noret, consts=None):
        s.consts = consts or {}
        s.f, s.m, s.summ, s.noret = f, f.mod, summ, noret
        s.leaks = {}; s.double = {}; s.foreign = {}; s.freed = {}; s.stores = {}; s.used = {}; s.sites = {}; s.ret = []; s.calls = []; s.origin = {}
    # ---------------------------------------------------------------- values
    def val(s, v, st):
        if isinstance(v, (int, bool)): return NULL if not v else TOP
        if isinstance(v, tuple):
            if v[0] == 'gep': return s.gep(v[1], s.val(v[2][0][1], st), [x for _, x in v[2][1:]], st)
            if v[0] == 'cast': return s.val(v[3], st)
            return TOP
        if v in ('null', 'zeroinitializer'): return NULL
        if v in ('undef', 'poison'): return frozenset()
        if v[0] == '@': return frozenset([(('g', v), (0,))])
        k = pidx(s.f, v)
        if k is not None: return frozenset([(('p', k), (0,))])
        return st.env.get(v, frozenset())
    def known(s, v): return s.consts.get(pidx(s.f, v)) if isinstance(v, str) else v
    def cint(s, v):
        if isinstance(v, bool): return int(v)
        return v if isinstance(v, int) else None
    def gep(s, t, base, idx, st):
        off = 0; first = True
        for x in idx:
            if not first:
                rt = s.m.resolve(t)
                if rt[0] == 'st': off = plus(off, s.m.field_off(t, x)); t = rt[1][x]; continue
                t = rt[2]
            first = False; c = s.cint(x); n = s.m.size(t)
            off = plus(off, c * n if c is not None else many(n, 0))
        return frozenset((it[0], it[1][:-1] + (plus(it[1][-1], off),)) if isinstance(it, tuple) else it for it in base)
    def load(s, addr, st):
        out = set()
        for it in addr:
            if not isinstance(it, tuple): out.add('top'); continue
            root, path = it; o = path[-1]; hit = False
            for (r, p), c in st.mem.items():
                if r == root and p[:-1] == path[:-1] and meets(p[-1], o):
                    out |= c; hit = hit or isinstance(p[-1], int) and p == path
            if not hit: out |= UND(it) if isinstance(o, int) else frozenset([(root, path + (0,))]) if root[0] in ('p', 'g') else frozenset()
        return frozenset(clip(out))
    def write(s, addr, val, st):
        one = len(addr) == 1
        for it in addr:
            if not isinstance(it, tuple): continue
            if one and isinstance(it[1][-1], int): st.mem[it] = val
            else: st.mem[it] = st.mem.get(it, UND(it) if isinstance(it[1][-1], int) else frozenset()) | val
    # ---------------------------------------------------------------- run
    MANY = 32
    def run(s):
        """states with different blocks live are kept apart, up to so many at one place"""
        s.rel = set(); s.gone = set(); s.run1()
        if s.rel:                               # once more, minding the tests for null of what is released
            k = s.rel; n = {(a, b[:-1]) for a, b in k if a[0] == 'g' and len(b) > 2}; s.__init__(s.f, s.summ, s.noret, s.consts); s.rel = k; s.gone = n; s.run1()
    def run1(s):
        f = s.f; order = rpo(f); pos = {b: k for k, b in enumerate(order)}
        inn = {order[0]: {frozenset(): St()}}; work = {order[0]}; n = 0; s.final = False; s.live = None; merged = set()
        while work:
            b = min(work, key=pos.get); work.discard(b); n += 1
            if n > 60 * len(order) + 400: raise RuntimeError('no fixpoint ' + f.name)
            for q0 in list(inn[b].values()):
                for x, q in s.block(b, q0.copy(), order):
                    if x not in pos: continue
                    q = s.enter(b, x, q); k = None if x in merged else frozenset(q.tok.items()); d = inn.setdefault(x, {})
                    if k in d:
                        if d[k].join(q): work.add(x)
                        continue
                    d[k] = q; work.add(x)
                    if len(d) > s.MANY:
                        merged.add(x); vs = list(d.values()); d.clear(); d[None] = vs[0]
                        for w in vs[1:]: d[None].join(w)
        s.final = True; s.live = livein(f)
        cut = {b for b in f.blocks if any(i.op == 'call' and ((cname(s.m, i) or '') in ('exit', 'abort', 'MPI_Abort') or i.extra in s.noret) for i in b.insts)}
        back = {b for b in order if b.term.op == 'ret' and b not in cut}; wl = list(back)
        while wl:
            for x in wl.pop().preds:
                if x not in back and x not in cut: back.add(x); wl.append(x)
        for b in order:
            for q0 in list(inn.get(b, {}).values()):
                for x, q in s.block(b, q0.copy(), order):
                    if x in back: s.lost(b, x, s.enter(b, x, q))
    def lost(s, b, x, q):
        ts = [t for t, v in q.tok.items() if t[0] == 'tok' and v == {'L'}]
        if not ts: return
        seen = set(); wl = []
        def add(v):
            for it in v:
                if isinstance(it, tuple) and it[0][0] == 'tok' and it[0] not in seen: seen.add(it[0]); wl.append(it[0])
        by = {}
        for (root, path), v in q.mem.items():
            if root[0] == 'tok': by.setdefault(root, []).append(v)
            else: add(v)
        for n in s.live[x]: add(q.env.get(n, ()))
        for d in x.insts:
            if d.op != 'phi': break
            add(q.env.get(d.name, ()))
        while wl:
            for v in by.get(wl.pop(), ()): add(v)
        for t in ts:
            if t not in seen: s.leaks.setdefault(t, (s.sites[t][0], 'lost'))
    def enter(s, b, x, q):
        q = q.copy(); new = {}
        for d in x.insts:
            if d.op != 'phi': break
            if d.ty != 'ptr': continue
            v = next((v for v, l in zip(d.ops, d.extra) if (s.f.bb[l] if isinstance(l, str) else l) is b), None)
            if v is not None: new[d.name] = s.val(v, q)
        q.env.update(new); return q
    def block(s, b, st, order):
        for i in b.insts:
            if i.op == 'phi': continue
            if s.inst(i, st) is False: return []
        t = b.term
        if t.op == 'ret':
            if s.final: s.ret.append((t, st, s.val(t.ops[0], st) if t.ops and t.ty == 'ptr' or t.ops and isinstance(t.ops[0], str) else frozenset()))
            return []
        out = []
        c = s.f.defs.get(t.ops[0]) if t.op == 'br' and t.ops and isinstance(t.ops[0], str) else None
        v = t.ops[0] if t.op == 'br' and t.ops else None
        if c is not None and c.op == 'icmp' and c.extra in ('eq', 'ne') and all(isinstance(s.known(x), int) for x in c.ops): v = (s.known(c.ops[0]) == s.known(c.ops[1])) == (c.extra == 'eq')
        if isinstance(v, (bool, int)) and len(t.extra) == 2: return [(s.f.bb[t.extra[0 if v else 1]], st)]
        if c is not None and c.op == 'icmp' and c.extra in ('eq', 'ne') and len(b.succs) == 2:
            nul = [k for k in (0, 1) if c.ops[k] == 'null' or c.ops[k] == 0]
            p = c.ops[1 - nul[0]] if nul else None
            if isinstance(p, str) and p in st.env:
                yes, no = (0, 1) if c.extra == 'eq' else (1, 0)
                v = st.env[p]
                z = st.copy(); z.env[p] = NULL
                for it in v:                       # not live where its only name is null
                    if isinstance(it, tuple) and it[0][0] == 'tok' and it[1] == (0,) and it[0] in z.tok: z.tok[it[0]] = z.tok[it[0]] - {'L'} | {'-'}
                for it in v:
                    if it in s.rel: z.tok.setdefault(('rel',) + it, frozenset('N'))
                d = s.f.defs.get(p)
                if d is not None and d.op == 'load':
                    a = s.val(d.ops[0], z)
                    if len(a) == 1: s.write(a, NULL, z)
                nz = st.copy(); nz.env[p] = v - NULL or v
                res = {yes: z, no: nz}
                return [(s.f.bb[t.extra[k]], res[k]) for k in (0, 1) if not (k == no and v == NULL)]
        return [(x, st) for x in dict.fromkeys(b.succs)]
    def inst(s, i, st):
        o = i.op
        if o == 'alloca': st.env[i.name] = frozenset([(('al', i.name), (0,))])
        elif o == 'getelementptr': st.env[i.name] = clip(s.gep(i.extra, s.val(i.ops[0], st), i.ops[1:], st))
        elif o in ('bitcast', 'freeze') and i.ty == 'ptr': st.env[i.name] = s.val(i.ops[0], st)
        elif o == 'select' and i.ty == 'ptr': st.env[i.name] = s.val(i.ops[1], st) | s.val(i.ops[2], st)
        elif o == 'load':
            a = s.val(i.ops[0], st); s.touch(i, a, st)
            if i.ty == 'ptr': st.env[i.name] = s.load(a, st)
        elif o == 'store':
            a = s.val(i.ops[1], st); s.touch(i, a, st)
            if a == NULL: return False                         # no run gets past this
            if s.isptr(i): v = s.val(i.ops[0], st); s.write(a, v, st); s.note_store(a, v, st)
        elif o == 'call': return s.call(i, st)
        elif i.name and i.ty == 'ptr': st.env[i.name] = TOP
    def isptr(s, i): return i.ty == 'ptr' 
    def note_store(s, a, v, st):
        for it in a:
            if it in s.gone and (it[0], it[1] + (0,)) not in v: st.tok[('set',) + it] = frozenset('F')
    def touch(s, i, a, st):
        if not s.final: return
        for it in a:
            if isinstance(it, tuple) and it[0][0] == 'tok' and st.tok.get(it[0]) == {'F'}: s.used.setdefault(it[0], i)
    # ---------------------------------------------------------------- blocks
    def new(s, i, st, kind, key=None):
        t = ('tok', key or i.name or f'@{i.bb.name}.{i.idx}'); s.sites[t] = (i, kind)
        old = st.tok.get(t)
        if old and 'L' in old:
            if not s.held(t, st, ()) and s.final: s.leaks[t] = (i, 'again')
            st.tok[t] = frozenset('L')
        else: st.tok[t] = frozenset('L')
        return frozenset([(t, (0,))])
    def held(s, t, st, skip):
        return any(it != 'top' and it != 'null' and it[0] == t for k, v in st.mem.items() for it in v if k[0][0] != 'al' or not isinstance(k[1][-1], int))
    def release(s, i, v, st, kind):
        toks = [it for it in v if isinstance(it, tuple)]
        live = [it for it in toks if it[0][0] == 'tok' and len(it[1]) == 1]
        for it in toks:
            root, path = it
            if root[0] == 'tok' and len(path) == 1:
                s0 = st.tok.get(root, frozenset())
                if path[0] != 0:
                    if s.final: s.foreign.setdefault((root, path), (i, 'inside'))
                    continue
                if 'L' not in s0 and 'F' in s0 and len(v) == 1 and s.final: s.double.setdefault(root, i)
                st.tok[root] = frozenset(x for x in s0 if x not in 'L-') | {'F'} if len(live) == 1 or True else s0
            elif root[0] == 'al':
                if s.final and kind == 'free': s.foreign.setdefault(it, (i, 'local'))
            else:
                if s.final: s.freed.setdefault((root, path), []).append((i, kind))
                k = ('rel', root, path); s.rel.add((root, path))
                was = st.tok.get(k)
                if was == {'F'} and s.final and (all(isinstance(o, int) for o in path) or not any(s.f.loop_of(j.bb) for j, _ in s.freed[root, path])): s.double.setdefault((root, path), i)
                st.tok[k] = frozenset('F')
    def call(s, i, st):
        n = plain(cname(s.m, i) or '')
        if i.extra in s.noret or n in ('exit', 'abort', 'MPI_Abort'): return False
        if n.startswith('llvm.'):
            if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'): s.copy(i, st)
            elif n.startswith('llvm.memset'): 
                for it in s.val(i.ops[0], st):
                    if isinstance(it, tuple) and isinstance(i.ops[2], int) and isinstance(it[1][-1], int):
                        for o in range(0, min(i.ops[2], 4096), 8): st.mem[(it[0], it[1][:-1] + (it[1][-1] + o,))] = NULL if i.ops[1] == 0 else TOP
            return
        if n in ('malloc', 'calloc'): st.env[i.name] = s.new(i, st, 'heap'); return
        if n == 'realloc':
            v = s.val(i.ops[0], st); s.release(i, v, st, 'realloc'); w = s.new(i, st, 'heap'); st.env[i.name] = w
            for x in w: s.origin.setdefault(x[0], set()).update(v)
            return
        if n == 'free': s.release(i, s.val(i.ops[0], st), st, 'free'); return
        if n == 'MPI_Comm_dup':
            for it in s.val(i.ops[1], st):
                if isinstance(it, tuple): s.write(frozenset([it]), s.new(i, st, 'comm'), st)
            return
        if n == 'MPI_Comm_free':
            a = s.val(i.ops[0], st)
            s.release(i, s.load(a, st), st, 'comm'); s.write(a, NULL, st); return
        fn = s.m.funcs.get(i.extra)
        fns = [fn] if fn is not None else [s.m.funcs[x] for x in sorted(s.m.cg.targets(i) or ()) if x in s.m.funcs]
        if s.final: s.calls.append((i, fns, [s.val(v, st) for v in i.ops]))
        sms = [x for x in (s.summ.of(g.name, {k: s.known(v) for k, v in enumerate(i.ops) if isinstance(s.known(v), int)}) for g in fns) if x] if s.summ else []
        sm = sms[0] if sms else None
        if sms and fn is None: sm = dict(free=[x for x in sm['free'] if not x[1]], own=[x for x in sm['own'] if all(x in o['own'] for o in sms)], grow=set(), ret=any(o['ret'] for o in sms))
        if sm:
            for k, path, kind in sm['free']:
                if not path and k < len(i.ops): s.release(i, s.val(i.ops[k], st), st, kind); continue
                for it in s.arg(i, k, path, st): s.release(i, s.load(frozenset([it]), st), st, kind)
            for k, path, kind in sm['own']:
                for it in s.arg(i, k, path, st):
                    v = s.load(frozenset([it]), st)
                    if (k, path, kind) in sm['grow']:
                        if any(isinstance(z, tuple) and z[0][0] == 'tok' and 'L' in st.tok.get(z[0], ()) for z in v): continue
                    t = s.new(i, st, kind, key=f'{i.name or i.bb.name + '.' + str(i.idx)}:{k}:{path}')
                    if (k, path, kind) in sm['grow']:
                        for x in t: s.origin.setdefault(x[0], set()).update(v)
                    s.write(frozenset([it]), (v if (k, path, kind) in sm['grow'] and v - {(it[0], it[1] + (0,))} else frozenset()) | t, st)
        if i.name and i.ty == 'ptr':
            if sm and sm['ret']: st.env[i.name] = s.new(i, st, 'heap')
            else: st.env[i.name] = TOP
    def arg(s, i, k, path, st):
        if k >= len(i.ops): return
        v = s.val(i.ops[k], st)
        for d, o in enumerate(path):
            v = frozenset((it[0], it[1][:-1] + (plus(it[1][-1], o),)) for it in v if isinstance(it, tuple))
            if d < len(path) - 1: v = s.load(v, st)
        yield from (it for it in v if isinstance(it, tuple))
    def copy(s, i, st):
        n = i.ops[2] if isinstance(i.ops[2], int) else None
        if n is None or n > 4096: return
        d, q = s.val(i.ops[0], st), s.val(i.ops[1], st)
        if len(d) != 1 or len(q) != 1: return
        (d,), (q,) = d, q
        if not isinstance(d, tuple) or not isinstance(q, tuple) or not all(isinstance(x, int) for x in (d[1][-1], q[1][-1])): return
        for o in range(0, n, 8):
            a = (q[0], q[1][:-1] + (q[1][-1] + o,)); c = st.mem.get(a)
            b = (d[0], d[1][:-1] + (d[1][-1] + o,))
            if c is not None: st.mem[b] = c
            elif q[0][0] in ('p', 'g'): st.mem[b] = UND(a)
            else: st.mem.pop(b, None)

def grown(h, t, root, path, seen=()):
    """the block takes the place of the one that was in the cell"""
    if t in seen: return False
    if any(k != 'realloc' for _, k in h.freed.get((root, path + (0,)), ())): return True
    return any(x == 'null' or isinstance(x, tuple) and (x == (root, path + (0,)) or x[0][0] == 'tok' and grown(h, x[0], root, path, seen + (t,))) for x in h.origin.get(t, ()))

def clip(v, most=4):
    """at most so many positions of one block, and dereferences: more become any position"""
    v = [it if not isinstance(it, tuple) or len(it[1]) <= 6 else 'top' for it in v]; n = {}
    for it in v:
        if isinstance(it, tuple): n.setdefault((it[0], it[1][:-1]), set()).add(it[1][-1])
    wide = {k: hull(o) for k, o in n.items() if len(o) > most or len(o) > 1 and not all(isinstance(x, int) for x in o)}
    return frozenset((it[0], it[1][:-1] + (wide[it[0], it[1][:-1]],)) if isinstance(it, tuple) and (it[0], it[1][:-1]) in wide else it for it in v)

def owners(h, st, retv):
    """at a return: {token: set of (root, path) the block belongs to}; blocks reachable from parameters, globals or the result"""
    own = {}; work = []
    for it in retv:
        if isinstance(it, tuple) and it[0][0] == 'tok' and len(it[1]) == 1: own.setdefault(it[0], set()).add((('ret',), ())); work.append(it[0])
    for (root, path), v in st.mem.items():
        if root[0] in ('p', 'g'):
            for it in v:
                if isinstance(it, tuple) and it[0][0] == 'tok' and len(it[1]) == 1 and meets(it[1][0], 0):
                    if (root, path) not in own.setdefault(it[0], set()): own[it[0]].add((root, path)); work.append(it[0])
    while work:
        t = work.pop()
        for (root, path), v in st.mem.items():
            if root != t: continue
            for it in v:
                if isinstance(it, tuple) and it[0][0] == 'tok' and len(it[1]) == 1 and meets(it[1][0], 0) and it[0] != t:
                    new = {(r, p + path) for r, p in own[t] if len(p) < 6}
                    if not new <= own.setdefault(it[0], set()): own[it[0]] |= new; work.append(it[0])
    exact = {}
    for it in retv:
        if isinstance(it, tuple) and it[0][0] == 'tok' and it[1] == (0,): exact.setdefault(it[0], set()).add((('ret',), ()))
    for (root, path), v in st.mem.items():
        for it in v:
            if isinstance(it, tuple) and it[0][0] == 'tok' and it[1] == (0,):
                if root[0] in ('p', 'g'): exact.setdefault(it[0], set()).add((root, path))
                elif root in own: exact.setdefault(it[0], set()).update((r, p + path) for r, p in own[root] if len(p) < 6)
    return own, exact
