"""P08: set-up leaves no part of an object undefined"""
import re
import an, build
from an import *
from p01 import base_off
EXPLANATION = ('Forward must-write dataflow, byte exact, over the LLVM IR of every function with its callees\' summaries (loops over dimensions unrolled, helpers placed into their callers, calls through tables by all their targets). '
  'For every object a set-up routine creates or fills - gather-scatter handle, each communication method\'s data, split-phase records, router, finders and their local parts - the bytes written on every returning path are compared '
  'with the bytes any other routine reads from such an object before writing them itself; readers are analysed with the option values that set-up stores. Routines called through an object are ones every set-up installs or are asked for first; tables of routines have no holes.')
UNROLL = ',function(loop-simplify,lcssa,loop(loop-unroll-full))|-unroll-threshold=20000|-unroll-partial-threshold=0'
FULL = -1

def mask(o, n): return ((1 << n) - 1) << o
def re_num(t):
    return re.sub(r'\.\d+$', '', t)

class Sum: pass
def actual(g, i, v):
    """what a call passes for a parameter of the routine"""
    for k, p in enumerate(g.params):
        if p[0] == v and k < len(i.ops): return i.ops[k]
    return None

class Def:
    """per function: bytes of what its parameters, fresh blocks and result point to that are written on every path, and
    the bytes read before that"""
    def __init__(s, m, consts=None):
        s.m, s.noret, s.S, s.busy = m, noret_funcs(m), {}, set()
        s.consts = consts or {}
    def of(s, n, consts={}):
        k = (n, tuple(sorted(consts.items())))
        if k in s.S: return s.S[k]
        if n in s.busy or n not in s.m.funcs: return None
        s.busy.add(n); s.S[k] = r = s.run(s.m.funcs[n], consts); s.busy.discard(n)
        return r
    def deep(s, ts, k):
        """the value of parameter k decides branches of the routine"""
        for t in ts:
            f = s.m.funcs[t]
            if k < len(f.params) and f.params[k][1] != 'ptr':
                for i in f.insts():
                    if i.op == 'store' and i.ops[0] == f.params[k][0]: return True
                    if i.op == 'icmp' and i.extra in ('eq', 'ne') and f.params[k][0] in i.ops and any(isinstance(y, int) for y in i.ops): return True
        return False
    def types(s, f):
        T = {}
        for i in f.insts():
            if i.op == 'getelementptr' and len(i.ops) > 2 and isinstance(i.extra, str) and i.extra.startswith('%struct'):
                if i.ops[1] == 0 and isinstance(i.ops[0], str): T.setdefault(i.ops[0], set()).add(i.extra)
        return {v: re_num(max(sorted(c), key=lambda t: s.m.size(t))) for v, c in T.items()}
    def env(s, f, x, consts):
        """consts: {(k,): value of parameter k, (k, off): what the object it points to holds there}"""
        env = {('p', k[0]): v for k, v in consts.items() if len(k) == 1}
        obj = {k: v for k, v in consts.items() if len(k) == 2}
        par = {p[0]: k for k, p in enumerate(f.params)}
        stores = {}
        for i in f.insts():
            if i.op == 'store' and isinstance(i.ops[1], str):
                b, o = base_off(f, i.ops[1])
                if isinstance(b, str) and o is not None: stores.setdefault((b, o), []).append((i, i.ops[0]))
            elif i.op == 'call' and isinstance(i.extra, str) and i.extra in s.m.funcs and i.extra not in s.noret:
                q = s.of(i.extra)
                for k, a in enumerate(i.ops):
                    if not isinstance(a, str): continue
                    b, o = base_off(f, a)
                    if q and isinstance(b, str) and o is not None:
                        for (kk, oo), vs in q.pvals.items():
                            if kk == k: stores.setdefault((b, o + oo), []).append((i, None))
        val = lambda v: v if isinstance(v, int) and not isinstance(v, bool) else consts.get((par[v],)) if isinstance(v, str) and v in par else None
        for i in f.insts():
            if i.op != 'load' or not isinstance(i.ops[0], str) or i.ty == 'ptr': continue
            b, o = base_off(f, i.ops[0])
            if not isinstance(b, str) or o is None: continue
            st = [(w, v) for w, v in stores.get((b, o), ()) if w.bb is i.bb and w.idx < i.idx or i.bb in f.reach(w.bb) and w.bb is not i.bb]
            if not st:
                if b in par and (par[b], o) in obj: env['at', i.name] = obj[par[b], o]
            elif len(st) == 1 and val(st[0][1]) is not None and f.idominates(st[0][0], i): env['at', i.name] = val(st[0][1])
        return env
    def run(s, f, consts={}):
        m = s.m; T = s.types(f); par = {p[0]: k for k, p in enumerate(f.params)}
        R = Sum(); R.f = f; R.x = {}; R.xt = {}; R.inst = []; R.local = {}; R.ptype = {par[v]: t for v, t in T.items() if v in par}
        kind = {}
        for i in f.insts():
            if i.op == 'alloca': kind[i.name] = ('alloca', i.extra if isinstance(i.extra, (str, tuple)) else None, i)
            elif i.op == 'call' and i.name and i.ty == 'ptr':
                c = cname(m, i)
                if c == 'malloc' and isinstance(i.ops[0], int): kind[i.name] = ('malloc', i.ops[0], i)
                elif c == 'calloc': kind[i.name] = ('calloc', None, i)
        order = rpo(f); inn = {f.blocks[0]: {b: FULL for b, k in kind.items() if k[0] == 'malloc'}}; rets = []
        x = Ex(f); A = Assume(f, x, s.env(f, x, consts), s.noret); alias = {}; R.vals = {}
        def key(a):
            b, o = base_off(f, a)
            return (alias.get(b, b), o) if isinstance(b, str) else (None, None)
        def expose(st, b, o, n, i, how):
            if b is None or o is None: return
            w = st.get(b, 0)
            mk = mask(o, n)
            if w == FULL or (w & mk) == mk: return
            if b in par: R.x.setdefault((par[b], o, n), (i, how))
            elif b in kind:
                if kind[b][0] != 'calloc': R.local.setdefault((b, o, n), (i, how))
            elif b in f.defs and f.defs[b].op == 'load' and b in T: R.xt.setdefault((T[b], o, n), (i, how))
            elif b in f.defs and f.defs[b].op in ('phi', 'select', 'getelementptr') and b in T: R.xt.setdefault((T[b], o, n), (i, how))
        def write(st, b, o, n):
            if b is None or o is None or o < 0: return
            if st.get(b, 0) != FULL: st[b] = st.get(b, 0) | mask(o, n)
        for _ in range(6):
            old = {b: dict(v) for b, v in inn.items()}; R.x, R.xt, R.local, R.inst, rets = {}, {}, {}, [], []
            for b in order:
                if b not in inn: continue
                st = dict(inn[b]); dead = False
                for i in b.insts:
                    if i.op == 'alloca' or i.op == 'call' and i.name in kind and kind[i.name][0] == 'malloc': st[i.name] = 0
                    if i.op == 'load':
                        bb, o = key(i.ops[0]); expose(st, bb, o, m.size(i.ty), i, None)
                        if i.ty == 'ptr':
                            alias.pop(i.name, None); q = st.get(('slot', x.e(i.ops[0])))
                            if q: alias[i.name] = q
                            if q and i.name in T: T[q] = T[i.name] if q not in T or m.size(T[i.name]) > m.size(T[q]) else T[q]
                    elif i.op == 'store':
                        bb, o = key(i.ops[1]); write(st, bb, o, m.size(i.ty))
                        if bb is not None: R.vals.setdefault((bb, o), {})[repr(i.ops[0])] = i.ops[0]
                        e = x.e(i.ops[1])
                        for k in [k for k in st if isinstance(k, tuple) and k[0] == 'slot' and (k[1] == e or any(y == ('ld', e) for y in walk(k[1])))]: del st[k]
                        v = alias.get(i.ops[0], i.ops[0]) if isinstance(i.ops[0], str) else None
                        if v in kind and kind[v][0] == 'malloc': st['slot', e] = v
                    elif i.op == 'call':
                        if isinstance(i.extra, str) and i.extra in s.noret: dead = True; break
                        s.call(f, i, st, key, expose, write, kind, R, consts)
                    elif i.op == 'unreachable': dead = True; break
                    elif i.op == 'ret': rets.append((i, st))
                if dead: continue
                for y in b.succs:
                    if (b, y) not in A.edges: continue
                    if y not in inn: inn[y] = dict(st)
                    else:
                        q = inn[y]
                        for k in list(q):
                            if isinstance(k, tuple):
                                if st.get(k) != q[k]: del q[k]
                                continue
                            q[k] = st.get(k, 0) if q[k] == FULL else q[k] if st.get(k, 0) == FULL else q[k] & st.get(k, 0)
            if old == inn: break
        R.pvals = {(par[b], o): v for (b, o), v in R.vals.items() if b in par}
        R.w = {}; R.ret = None; R.kind = kind
        for k, p in enumerate(f.params):
            if p[1] != 'ptr': continue
            v = [st.get(p[0], 0) for _, st in rets]
            w = FULL
            for x in v: w = x if w == FULL else w if x == FULL else w & x
            if rets: R.w[k] = w if w != FULL else 0
        for b, (kd, sz, i) in kind.items():
            if kd != 'malloc': continue
            w = FULL; at = None
            for t, st in rets:
                if not f.idominates(i, t) and b not in st: continue
                if b not in st: continue
                x = st[b]; w = x if w == FULL else w if x == FULL else w & x
            R.inst.append((b, sz, w, T.get(b), i))
        R.T = T; R.rets = rets; R.escapes = lambda b: s.escapes(f, b)
        return R
    def escapes(s, f, b):
        for i in f.insts():
            if i.op == 'ret' and b in i.ops or i.op == 'store' and i.ops[0] == b and base_off(f, i.ops[1])[0] != b: return True
            if i.op == 'phi' and b in i.ops: return True
        return False
    def call(s, f, i, st, key, expose, write, kind, R, consts):
        m = s.m; c = cname(m, i); args = [key(a) if isinstance(a, str) else (None, None) for a in i.ops]
        if c and (c.startswith('llvm.memset') or c == 'memset'):
            b, o = args[0]
            if isinstance(i.ops[2], int): write(st, b, o, i.ops[2])
            elif b in kind and kind[b][0] == 'alloca': st[b] = FULL
            return
        if c and (c.startswith('llvm.memcpy') or c.startswith('llvm.memmove') or c in ('memcpy', 'memmove')):
            (b, o), (b2, o2), n = args[0], args[1], i.ops[2]
            if isinstance(n, int):
                if b is not None and o is not None:
                    if b2 in kind and kind[b2][0] != 'calloc' and o2 is not None and st.get(b2, 0) != FULL:
                        sh = (st.get(b2, 0) >> o2) & ((1 << n) - 1)
                        if st.get(b, 0) != FULL: st[b] = (st.get(b, 0) & ~mask(o, n)) | (sh << o)
                    else: write(st, b, o, n)
            elif b in kind and kind[b][0] == 'alloca': st[b] = FULL
            return
        if c and c.startswith('llvm.'): return
        ts = []
        if isinstance(i.extra, str) and i.extra in m.funcs: ts = [i.extra]
        elif not isinstance(i.extra, str) or i.extra.startswith('%'): ts = [t for t in m.cg.targets(i) if t in m.funcs and t not in s.noret]
        sub = {}
        par = {p[0]: k for k, p in enumerate(f.params)}
        for k, (b, o) in enumerate(args):
            if isinstance(i.ops[k], int) and not isinstance(i.ops[k], bool) and s.deep(ts, k): sub[(k,)] = i.ops[k]
            if b in par and o is not None: sub.update({(k, kk[1] - o): v for kk, v in consts.items() if len(kk) == 2 and kk[0] == par[b]})
            if isinstance(i.ops[k], str) and i.ops[k] in par and (par[i.ops[k]],) in consts: sub[(k,)] = consts[(par[i.ops[k]],)]
        ss = [s.of(t, sub) for t in ts]
        if ts: 
            for k in [k for k in st if isinstance(k, tuple)]: del st[k]
        if ts and all(ss):
            for q in ss:
                for (k, o, n), (w, how) in q.x.items():
                    if k < len(args) and args[k][0] is not None and args[k][1] is not None:
                        expose(st, args[k][0], args[k][1] + o, n, i, (w, how))
                for k, v in q.xt.items(): R.xt.setdefault(k, v)
                for (k, o), vs in q.pvals.items():
                    if k < len(args) and args[k][0] is not None and args[k][1] is not None:
                        for z, v in vs.items(): R.vals.setdefault((args[k][0], args[k][1] + o), {})[z if isinstance(v, int) else (q.f.name, z)] = v if isinstance(v, int) else actual(q.f, i, v)
                for k, t in q.ptype.items():
                    if k < len(args) and args[k][0] is not None and args[k][1] == 0:
                        for pk, p in enumerate(f.params):
                            if p[0] == args[k][0]: R.ptype.setdefault(pk, t)
            for k, (b, o) in enumerate(args):
                if b is None or o is None: continue
                w = FULL
                for q in ss: x = q.w.get(k, 0); w = x if w == FULL else w & x
                if w != FULL and w and st.get(b, 0) != FULL: st[b] = st.get(b, 0) | (w << o if o >= 0 else w >> -o)
            return
        if c == 'MPI_Comm_dup' and args[1][0]: write(st, *args[1], 8)
        elif c in ('MPI_Comm_rank', 'MPI_Comm_size') and args[1][0]: write(st, *args[1], 4)
        else:
            for b, o in args:
                if b in kind and kind[b][0] == 'alloca': st[b] = FULL

SETUP = {'crystal_init': 0}
for d in '23':
    for n in ('findpts_local_setup', 'findptsms_local_setup', 'findpts_el_setup'): SETUP[f'{n}_{d}'] = 0
# the points of an element solver are handed over by its start routine: its reads are judged inside the searches that use it
INNER = {'findpts_el_data_2', 'findpts_el_data_3'}
bare = lambda t: t.split('.', 1)[1] if t else t

def constants(q, b):
    """what the object certainly holds: every store to the place writes the same number"""
    out = {}
    for (bb, o), vs in q.vals.items():
        if bb == b and o is not None and len(vs) == 1:
            v = list(vs.values())[0]
            if isinstance(v, int) and not isinstance(v, bool): out[o] = v
    return out

def collect(m, D):
    """per function its set-up instances, and per type the functions that use one"""
    inst, use, inner = [], {}, {}
    for n in sorted(m.funcs):
        if n in D.noret: continue
        q = D.of(n); f = q.f; nm = src(f)
        for k, t in q.ptype.items():
            if SETUP.get(nm) == k: inst.append((nm, t, q.w.get(k, 0), q, f.params[k][0], ('p', k)))
            else: use.setdefault(t, []).append((n, k))
        for (t, o, z), (i, how) in q.xt.items(): inner.setdefault(t, {}).setdefault((o, z), (nm, i, how))
        for b, sz, w, t, i in q.inst:
            if t and m.size(t) == sz and q.escapes(b): inst.append((nm, t, w, q, b, i))
    return inst, use, inner

def field(m, t, o):
    """name of the part at an offset"""
    nm = []
    for _ in range(6):
        rt = m.resolve(t)
        if rt[0] == 'st':
            k = max((k for k in range(len(rt[1])) if m.field_off(t, k) <= o), default=0)
            try: nm.append('.' + str(m.fname(t, k)) if nm else str(m.fname(t, k)))
            except Exception: nm.append(f'+{o}'); break
            o -= m.field_off(t, k); t = rt[1][k]
        elif rt[0] == 'arr': z = m.size(rt[2]); nm.append(f'[{o // z}]'); o %= z; t = rt[2]
        else: break
    return ''.join(nm)

def compare(m, D, nm, t, w, q, b, use, inner, more={}):
    c = {**constants(q, b), **more}; seen = {}
    for n, k in use.get(t, ()):
        if src(m.funcs[n]) == nm: continue
        u = D.of(n, {(k, o): v for o, v in c.items()})
        for (kk, o, z), (j, how) in u.x.items():
            if kk == k: seen.setdefault((o, z), (src(u.f), j))
    for (o, z), (n, j, how) in inner.get(t, {}).items(): seen.setdefault((o, z), (n, j))
    bad = {k: v for k, v in seen.items() if not (w == FULL or w & mask(*k) == mask(*k))}
    return bad, len(seen)

def part(r, cfg):
    m = norm(cfg, passes=build.NORMAL + UNROLL); D = Def(m)
    inst, use, inner = collect(m, D)
    for nm, t, w, q, b, i in inst:
        T = bare(t); at = i.where if hasattr(i, 'where') else q.f.file
        c = constants(q, b)
        # the set-up itself
        for (k, o, z), (j, how) in q.x.items():
            if i == ('p', k): r.bad('set-up', f'{nm}:{T}.{field(m, t, o)}', j.where, f'{nm} reads {field(m, t, o)} of the object it is filling before giving it a value')
        for (bb, o, z), (j, how) in q.local.items():
            if bb == b: r.bad('set-up', f'{nm}:{T}.{field(m, t, o)}', j.where, f'{nm} reads {field(m, t, o)} of the object it is filling before giving it a value')
        r.ok('set-up')
        if T in INNER: continue
        bad, good = compare(m, D, nm, t, w, q, b, use, inner)
        if bad:
            # options kept in the object: set-up and use with each value
            f = q.f; par = {p[0]: k for k, p in enumerate(f.params)}
            for k in sorted({par[v] for (bb, o), vs in q.vals.items() if bb == b for v in vs.values() if isinstance(v, str) and v in par and f.params[par[v]][1] == 'i32'}):
                left = {}
                for v in (0, 1):
                    q2 = D.of(f.name, {(k,): v}); w2 = q2.w.get(i[1], 0) if isinstance(i, tuple) else [x[2] for x in q2.inst if x[0] == b][0]
                    b2, _ = compare(m, D, nm, t, w2, q2, b, use, inner, {par_o: v for (bb, par_o), vs in q.vals.items() if bb == b and list(vs.values()) == [f.params[k][0]]})
                    left.update(b2)
                if len(left) < len(bad): bad = left
        r.ok('defined', good)
        for (o, z), (n, j) in sorted(bad.items()):
            r.bad('defined', f'{nm}:{T}.{field(m, t, o)}', at, f'{nm} can return without giving {field(m, t, o)} of its {T} a value, which {n} reads ({j.where})')
    r.cov.setdefault('objects', []).append(f'{cfg}: ' + ', '.join(sorted({f'{n}/{bare(t)}' for n, t, *_ in inst})))
    slots(r, m, D)

def replaced(st):
    """every path after the store puts something else there"""
    f = st.fn; a = base_off(f, st.ops[1])
    for i in f.insts():
        if i.op == 'store' and i is not st and i.ops[0] not in ('null', 0) and a[1] is not None and base_off(f, i.ops[1]) == a:
            if i.bb is st.bb and i.idx > st.idx or i.bb is not st.bb and f.postdominates(i.bb, st.bb): return True
    return False

def slots(r, m, D):
    """a routine called through an object or a table is one that was put there"""
    ss = m.cg.slotstores(); null = {}
    for sl, sts in ss.items():
        for st in sts:
            if st.ops[0] in ('null', 0) and not replaced(st): null.setdefault((re_num(sl[0]), sl[1]), st)
    for f in m.funcs.values():
        facts = None
        for i in f.insts():
            if i.op != 'call' or not (isinstance(i.extra, str) and i.extra.startswith('%')): continue
            d = f.defs.get(i.extra)
            if d is None or d.op != 'load' or not isinstance(d.ops[0], str): continue
            sl = chain_slot(f, d.ops[0])
            if sl is not None and (re_num(sl[0]), sl[1]) in null:
                e = Ex(f).e(i.extra); ok = False
                for g in guards(f, i.bb):
                    if tested(f, g, e): ok = True
                if ok: r.ok('slot')
                else: r.bad('slot', f'{src(f)}:{sl[0].split(".")[-1]}.{sl[1]}', i.where, f'{src(f)} calls {sl[1]} without asking whether there is one: {null[re_num(sl[0]), sl[1]].where} leaves it out')
            elif sl is not None: r.ok('slot')
    # tables of routines have no holes
    for g, fs in m.cg.tab.items():
        hole = holes(m, g)
        if hole: r.bad('table', f'{plain(g.lstrip("@"))}', 'static table', f'the table {plain(g.lstrip("@"))} of routines has an empty entry at {", ".join(hole)}')
        else: r.ok('table')

def holes(m, g):
    """index paths of the empty entries of a constant table of routines"""
    out = []
    def go(ty, v, path):
        if v in ('null', 'zeroinitializer') and (ty == 'ptr' or v != 'null'): out.append(''.join(f'[{k}]' for k in path) or 'all of it')
        elif isinstance(v, tuple) and v and v[0] == 'agg':
            for k, (t2, v2) in enumerate(v[1]): go(t2, v2, path + [k])
    d = m.globals.get(g)
    if d and d['kind'] == 'constant': go(d['ty'], d['init'], [])
    return out

def tested(f, g, e):
    c, pol, _ = g
    if not isinstance(c, str) or c not in f.defs: return False
    d = f.defs[c]
    if d.op != 'icmp' or d.extra not in ('eq', 'ne') or not any(o in ('null', 0) for o in d.ops): return False
    v = [o for o in d.ops if o not in ('null', 0)]
    return bool(v) and Ex(f).e(v[0]) == e and (d.extra == 'ne') == pol

def check(r):
    parallel(part, build.ALL if r.tier == 'thorough' else ['nbc'], r)
    r.need('defined', 60); r.need('set-up', 8); r.need('slot', 4)
    r.assume += ['structure copies keep the parts that were defined in the source', 'an element solver gets its points from its start routine before it searches']
