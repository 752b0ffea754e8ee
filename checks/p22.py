"""P22: quadrature nodes, weights and basis polynomials"""
import functools, re, struct
from fractions import Fraction as Q
import mpmath
import an, build, ir
from an import *

EXPLANATION = ('Partial evaluation: the node, quadrature and basis routines are specialised by the compiler for each number of points and order of derivative (constant propagation, complete unrolling), so that what they store is read off as constants or as straight-line arithmetic. '
  'R1 nodes/weights: every stored constant agrees with the node or weight computed to 60 digits from the Legendre polynomials; nodes increase strictly and are symmetric. R2 basis: the straight-line arithmetic of the evaluation routine that the set-up selects for n points is read as exact polynomials in x (abstract interpretation in Q[x], linear in the coefficients): entry i vanishes at all other nodes, '
  'is one at node i with the coefficient the set-up stored, entries n.. and 2n.. are exactly the first and second derivatives, and exactly the entries of the requested order are written. R3 room: every entry of the data array touched by set-up and evaluation lies within the advertised size. R4 general: for arbitrary nodes the stored coefficient is the reciprocal of the basis entry at its own node.')
TAB = range(2, 25); GEN = range(25, 29)
BASIS_GEN = range(2, 8)

def witness(ns, part):
    o = [f'#include <{h}>' for h in ('stddef.h', 'stdlib.h')] + [f'#include "{h}"' for h in ('c99.h', 'name.h', 'poly.h')]
    for n in ns:
        if part == 'q':
            o += [f'void w__nodes__{n}(double*restrict z){{lobatto_nodes(z,{n});}}', f'void w__lq__{n}(double*restrict z,double*restrict w){{lobatto_quad(z,w,{n});}}',
                  f'void w__gn__{n}(double*restrict z){{gauss_nodes(z,{n});}}', f'void w__gq__{n}(double*restrict z,double*restrict w){{gauss_quad(z,w,{n});}}']
        if part == 'b':
            o += [f'unsigned w__size__{n}(void){{return gll_lag_size({n});}}']
            o += [f'void w__nodes__{n}(double*restrict z){{lobatto_nodes(z,{n});}}', f'void w__lag__{n}(double*restrict data){{gll_lag_setup(data,{n});}}']
            o += [f'void w__ev__{n}__{d}(double*restrict p,double*restrict data,double*restrict other,double x){{lagrange_fun*f=gll_lag_setup(other,{n});f(p,data,{n},{d},x);}}' for d in range(3)]
        if part == 'g':
            o += [f'unsigned w__size__{n}(void){{return lagrange_size({n});}}']
            o += [f'void w__ls__{n}(double*restrict data,const double*restrict z){{lagrange_setup(data,z,{n});}}']
            o += [f'void w__le__{n}__{d}(double*restrict p,double*restrict data,double*restrict other,const double*restrict z,double x){{lagrange_fun*f=lagrange_setup(other,z,{n});f(p,data,{n},{d},x);}}' for d in range(3)]
    return '\n'.join(o) + '\n'

STEP = 'sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify,lcssa,loop(loop-rotate,indvars),loop-unroll<O3;full-unroll-max=4000;no-partial;no-runtime;no-peeling>,sroa,gvn,instcombine<no-verify-fixpoint>,simplifycfg,'
UNROLL = 'loop-simplify,lcssa,loop(indvars),loop-unroll<O3;full-unroll-max=4000;no-partial;no-runtime;no-peeling>,sroa,gvn,instcombine<no-verify-fixpoint>,simplifycfg'
PASSES = f'internalize,inline,inline,globaldce,function({STEP}{UNROLL},gvn),inline,inline,function({STEP}{UNROLL},gvn,dse,instcombine<no-verify-fixpoint>,gvn,dse)'

def special(ns, part):
    with build.Scratch() as d:
        objs = build.compile_units('serial', d, only={'poly.c', 'fail.c', 'comm.c', 'gs_local.c', 'tensor.c'})
        w = d + '/wit.c'; open(w, 'w').write(witness(ns, part)); o = d + '/wit.ll'
        build.run([build.CLANG, '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-w', '-g', '-std=gnu11', '-S', '-emit-llvm', *build.incs(), *build.CONFIGS['serial'], w, '-o', o], 'witness')
        a = build.link(objs + [o], d, None)
        t = open(a).read().replace('llvm.loop.unroll.disable', 'llvm.loop.unroll.none').replace(' noinline ', ' ').replace(' optnone ', ' ')
        open(a, 'w').write(t)
        keep = ','.join(sorted(set(re.findall(r'@(w__\w+)\(', t))))
        n = d + '/n.ll'
        build.run([build.OPT, '-S', '-internalize-public-api-list=' + keep, '-unroll-threshold=1000000', '-scalar-evolution-max-constant-evolving-depth=100000', '-memdep-block-scan-limit=100000', '-memssa-check-limit=10000', '-available-load-scan-limit=10000', '-inline-threshold=1000000', '-passes=' + PASSES, a, '-o', n], 'specialise')
        return ir.Module(open(n).read())

def num(v):
    """exact value of a floating constant; infinities and NaN are a value no node or weight has"""
    try: return num_(v)
    except (OverflowError, ValueError): return HUGE

HUGE = Q(10) ** 300

def num_(v):
    if isinstance(v, bool): return None
    if isinstance(v, (int, float)): return Q(v)
    if isinstance(v, tuple) and v[0] in ('f', 'fp', 'float', 'hex'): v = v[1]
    if isinstance(v, (int, float)): return Q(v)
    if isinstance(v, str):
        if v.startswith('0x'): return Q(struct.unpack('>d', bytes.fromhex(v[2:].rjust(16, '0')))[0])
        return Q(float(v))
    return None

# ---------------------------------------------------------------- polynomials over Q
def padd(a, b, s=1):
    n = max(len(a), len(b)); r = [(a[i] if i < len(a) else 0) + s * (b[i] if i < len(b) else 0) for i in range(n)]
    while r and r[-1] == 0: r.pop()
    return r
def pmul(a, b):
    if not a or not b: return []
    r = [Q(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b): r[i + j] += x * y
    while r and r[-1] == 0: r.pop()
    return r
def pder(a): return padd([i * c for i, c in enumerate(a)][1:], [])
def pval(a, x):
    r = Q(0)
    for c in reversed(a): r = r * x + c
    return r

class Unread(Exception): pass

def forward(f, P):
    """load -> operand of the store that reaches it, in a function without loops or joins (distinct parameters do not overlap: restrict)"""
    mem = {}; out = {}; k = lambda v: tuple(sorted(((str(a), c) for a, c in P.n(v).items() if c)))
    for b in rpo(f):
        for i in b.insts:
            if i.op == 'store' and i.ty == 'double': mem[k(i.ops[1])] = i.ops[0]
            elif i.op == 'load' and i.ty == 'double' and k(i.ops[0]) in mem: out[i.name] = mem[k(i.ops[0])]
    return out

class Arith:
    """straight-line arithmetic as {coefficient symbol or None: polynomial in x}"""
    def __init__(s, f, x, load): s.f, s.x, s.load, s.memo, s.P, s.mem = f, x, load, {}, PN(f), None
    def v(s, v):
        c = num(v) if not (isinstance(v, str) and v[:1] == '%') else None
        if c is not None: return {None: [c] if c else []}
        if not isinstance(v, str): raise Unread(str(v))
        if v == s.x: return {None: [Q(0), Q(1)]}
        if v in s.memo: return s.memo[v]
        d = s.f.defs.get(v)
        if d is None: raise Unread(v)
        s.memo[v] = r = s.inst(d, v); return r
    def add(s, a, b, k=1):
        return {z: padd(a.get(z, []), b.get(z, []), k) for z in set(a) | set(b)}
    def mul(s, a, b):
        if set(k for k in a if a[k]) <= {None}: p, q = a.get(None, []), b
        elif set(k for k in b if b[k]) <= {None}: p, q = b.get(None, []), a
        else: raise Unread('product of coefficients')
        return {z: pmul(p, w) for z, w in q.items()}
    def inst(s, d, v):
        o = d.op
        if o == 'fadd': return s.add(s.v(d.ops[0]), s.v(d.ops[1]))
        if o == 'fsub': return s.add(s.v(d.ops[0]), s.v(d.ops[1]), -1)
        if o == 'fmul': return s.mul(s.v(d.ops[0]), s.v(d.ops[1]))
        if o == 'fneg': return s.add({}, s.v(d.ops[0]), -1)
        if o == 'fdiv':
            a, b = s.v(d.ops[0]), s.v(d.ops[1])
            q = b.get(None, [])
            if any(b[k] for k in b if k is not None) or len(q) != 1: raise Unread('division')
            return {z: [c / q[0] for c in w] for z, w in a.items()}
        if o == 'call':
            c = cname(s.f.mod, d) or ''
            if c.startswith('llvm.fmuladd') or c.startswith('llvm.fma.'): return s.add(s.mul(s.v(d.ops[0]), s.v(d.ops[1])), s.v(d.ops[2]))
            raise Unread(c)
        if o == 'load':
            if s.mem is None: s.mem = forward(s.f, s.P)
            return s.v(s.mem[v]) if v in s.mem else s.load(s.P.n(d.ops[0]))
        if o == 'freeze': return s.v(d.ops[0])
        raise Unread(o)

def stores(f, k, size=8):
    """{element: stored value} through parameter k, last one wins (straight-line functions only); None when not straight-line"""
    P = PN(f); out = {}; base = ('p', k)
    if f.loops(): return None
    for b in rpo(f):
        for i in b.insts:
            if i.op != 'store' or i.ty not in ('double',): continue
            p = P.n(i.ops[1])
            if (base,) not in p: continue
            q = dict(p); c = q.pop((), 0)
            if q != {(base,): 1} or c % size: return None
            out[c // size] = (i.ops[0], i)
    return out

def load_sym(k, subst=lambda j: None):
    """loads of element j through parameter k: a fixed value or the symbol j"""
    def ld(p):
        q = dict(p); c = q.pop((), 0)
        if q != {(('p', k),): 1} or c % 8: raise Unread('load')
        z = subst(c // 8)
        return {None: [z] if z else []} if z is not None else {c // 8: [Q(1)]}
    return ld

def d_(c): return [j * t for j, t in enumerate(c)][1:]
def ev_(c, x): return mpmath.polyval(c[::-1], x)

@functools.lru_cache(None)
def coef(n):
    a, b = [mpmath.mpf(1)], [mpmath.mpf(0), mpmath.mpf(1)]
    if n == 0: return a
    for k in range(1, n):
        c = [mpmath.mpf(0)] + [(2 * k + 1) * t / (k + 1) for t in b]
        for j, t in enumerate(a): c[j] -= k * t / (k + 1)
        a, b = b, c
    return b

def bracketed(c, e):
    """one simple root of c in each interval between neighbours of e"""
    out = []; c1 = d_(c)
    for lo, hi in zip(e, e[1:]):
        flo = ev_(c, lo)
        for _ in range(14):
            mid = (lo + hi) / 2
            if (ev_(c, mid) > 0) == (flo > 0): lo = mid
            else: hi = mid
        x = (lo + hi) / 2
        for _ in range(6): x -= ev_(c, x) / ev_(c1, x)
        out.append(x)
    return out

@functools.lru_cache(None)
def legroots(n):
    return [mpmath.mpf(0)] if n == 1 else bracketed(coef(n), [mpmath.mpf(-1)] + legroots(n - 1) + [mpmath.mpf(1)])

@functools.lru_cache(None)
def exact(kind, n):
    """nodes and weights to 60 digits"""
    with mpmath.workdps(60):
        if kind == 'gauss':
            c = coef(n); z = legroots(n)
            w = [2 / ((1 - x * x) * ev_(d_(c), x) ** 2) for x in z]
        else:
            c = coef(n - 1); z = [mpmath.mpf(-1)] + (bracketed(d_(c), legroots(n - 1)) if n > 2 else []) + [mpmath.mpf(1)]
            w = [mpmath.mpf(2) / (n * (n - 1) * ev_(c, x) ** 2) for x in z]
        assert all(z[i] < z[i + 1] for i in range(n - 1)) and len(z) == n
        assert abs(sum(w) - 2) < mpmath.mpf(10) ** -30
        q = lambda v: Q(int(mpmath.nint(v * mpmath.mpf(2) ** 180)), 2 ** 180)
        return [q(x) for x in z], [q(x) for x in w]

def constants(r, m, name, k, n):
    """the n constants a specialised routine stores through parameter k"""
    f = m.funcs['@' + name]; st = stores(f, k)
    if st is None: return None, None
    v = {j: num(x) if not (isinstance(x, str) and x[:1] == '%') else None for j, (x, _) in st.items()}
    if any(x is None for x in v.values()): return None, None
    return v, (st[0][1] if 0 in st else f.blocks[0].insts[0])

def compare(r, who, what, v, want, i, tol):
    n = len(want)
    if sorted(v) != list(range(n)):
        r.bad(what, f'{who}:count', i.where, f'{who} for {n} points gives entries {sorted(v)}'); return False
    good = True
    for j in range(n):
        if abs(v[j] - want[j]) <= tol(want[j]): r.ok(what)
        else:
            good = False
            r.bad(what, f'{who}:{n}', i.where, f'{who} for {n} points: entry {j} is {float(v[j])!r}, the defining polynomial gives {float(want[j])!r}')
    return good

def quad(r, ns):
    m = special(ns, 'q')
    ulp = lambda x: Q(2) ** -52 * max(abs(x), Q(2) ** -30)
    for n in ns:
        for nm, kind in (('nodes', 'lobatto'), ('lq', 'lobatto'), ('gn', 'gauss'), ('gq', 'gauss')):
            z, w = exact(kind, n)
            pub = {'nodes': 'lobatto_nodes', 'lq': 'lobatto_quad', 'gn': 'gauss_nodes', 'gq': 'gauss_quad'}[nm]
            tol = (lambda x: ulp(x)) if n in TAB and kind == 'lobatto' else (lambda x: Q(2) ** -50)
            v, i = constants(r, m, f'w__{nm}__{n}', 0, n)
            if v is None: r.notes.append(f'{pub}({n}): not reduced to constants'); continue
            if compare(r, pub, 'nodes', v, z, i, tol):
                for j in range(n):
                    if j and not v[j - 1] < v[j]: r.bad('nodes', f'{pub}:{n}:order', i.where, f'{pub} for {n} points: entries {j - 1} and {j} do not increase')
                    elif v[j] != -v[n - 1 - j]: r.bad('nodes', f'{pub}:{n}:symmetry', i.where, f'{pub} for {n} points: entries {j} and {n - 1 - j} are not opposite')
                    else: r.ok('nodes')
            if nm in ('lq', 'gq'):
                u, i = constants(r, m, f'w__{nm}__{n}', 1, n)
                if u is None: r.notes.append(f'{pub}({n}): weights not reduced to constants'); continue
                compare(r, pub, 'weights', u, w, i, lambda x: abs(x) * Q(10) ** -12)

TOL = Q(10) ** -11
def close(a, b):
    m = max([abs(c) for c in b] + [Q(1)]); d = padd(a, b, -1)
    return all(abs(c) <= TOL * m for c in d)

def room(r, m, n, who, fs):
    """every entry of the data array the set-up and the evaluation touch lies within the advertised size"""
    f = m.funcs[f'@w__size__{n}']; v = f.blocks[-1].insts[-1].ops
    if len(f.blocks) != 1 or not v or not isinstance(v[0], int): r.notes.append(f'{who}({n}): size not reduced'); return
    size = v[0]
    for nm, k in fs:
        g = m.funcs['@' + nm]; P = PN(g)
        for i in g.insts():
            p = i.ops[1] if i.op == 'store' else i.ops[0] if i.op == 'load' or (i.op == 'call' and re.match(r'llvm\.mem(cpy|move|set)', cname(m, i) or '')) else None
            if p is None: continue
            q = dict(P.n(p)); c = q.pop((), 0)
            if q != {(('p', k),): 1}: continue
            ext = i.ops[2] if i.op == 'call' else 8
            if not isinstance(ext, int): continue
            if 0 <= c and c + ext <= 8 * size: r.ok('room')
            else: r.bad('room', f'{who}:{n}:room', i.where, f'{who} for {n} points: entry {c // 8} of the data array is touched, the size routine provides {size}'); return

def basis(r, ns):
    m = special(ns, 'b')
    for n in ns:
        room(r, m, n, 'gll_lag_setup', [(f'w__lag__{n}', 0)] + [(f'w__ev__{n}__{d}', 1) for d in range(3)])
        z, i0 = constants(r, m, f'w__nodes__{n}', 0, n)
        if z is None or sorted(z) != list(range(n)): r.notes.append(f'basis({n}): nodes not reduced'); continue
        f = m.funcs[f'@w__lag__{n}']; st = stores(f, 0)
        coef = None; off = 0
        if st is not None:
            A = Arith(f, None, load_sym(0))
            def val(x):
                try: w = A.v(x)
                except Unread: return None
                w = {k: p for k, p in w.items() if p}
                return Q(0) if not w else w[None][0] if set(w) == {None} else None
            c = {j: val(x) for j, (x, _) in st.items() if j < 2 * n}
            if sorted(c) == list(range(n)): off = 0
            elif set(range(2 * n)) <= set(c) and [c[j] for j in range(n)] == [z[j] for j in range(n)]: off = n
            elif n <= 24: r.bad('basis', f'gll_lag_setup:{n}:coefficients', i0.where, f'gll_lag_setup for {n} points stores entries {sorted(c)[:40]}'); continue
            else: c = None
            if c is not None and all(c[off + j] is not None for j in range(n)): coef = [c[off + j] for j in range(n)]; ci = st[off][1]
        if coef is None: r.notes.append(f'gll_lag_setup({n}): coefficients not reduced to constants')
        sub = (lambda j: z[j] if j < n else None) if off else (lambda j: None)
        evaluation(r, m, n, f'w__ev__{n}', 'gll_lag_setup', z, off, sub, coef)

def evaluation(r, m, n, wn, who, z, off, sub, coef):
    polys = {}
    for d in range(3):
        f = m.funcs[f'@{wn}__{d}']; st = stores(f, 0)
        if st is None: r.notes.append(f'{who}({n}): evaluation is not straight-line'); return
        if any(i.op == 'call' and (not isinstance(i.extra, str) or i.extra[0] != '@' or '@' + (cname(m, i) or '') in m.funcs) for i in f.insts()) and not st:
            r.notes.append(f'{who}({n}): evaluation not resolved'); return
        i = next(iter(st.values()))[1] if st else f.blocks[0].insts[0]
        if sorted(st) != list(range(n * (d + 1))):
            r.bad('basis', f'{who}:{n}:entries', i.where, f'basis evaluation for {n} points, derivatives up to {d}: entries {sorted(st)} are written instead of 0..{n * (d + 1) - 1}'); return
        x = f.params[-1][0]
        A = Arith(f, x, load_sym(1, sub))
        try: polys[d] = {j: (A.v(v), k) for j, (v, k) in st.items()}
        except Unread as e: r.notes.append(f'{who}({n}): arithmetic not read ({e})'); return
    base = []
    for j in range(n):
        a, i = polys[0][j]
        a = {k: p for k, p in a.items() if p}
        if set(a) != {off + j}:
            r.bad('basis', f'{who}:{n}:coefficient', i.where, f'basis evaluation for {n} points: entry {j} uses coefficients {sorted(map(str, a))}, expected its own'); return
        p = a[off + j]; base.append(p)
        for k in range(n):
            y = pval(p, z[k])
            if k != j and abs(y) > TOL * abs(pval(p, z[j])): r.bad('basis', f'{who}:{n}:zero', i.where, f'basis evaluation for {n} points: entry {j} does not vanish at node {k} ({float(z[k])!r})'); return
            r.ok('basis')
        if len(p) - 1 > n - 1 or pval(p, z[j]) == 0: r.bad('basis', f'{who}:{n}:degree', i.where, f'basis evaluation for {n} points: entry {j} is not a basis polynomial (degree {len(p) - 1})'); return
        if coef is not None:
            if abs(coef[j] * pval(p, z[j]) - 1) <= Q(10) ** -11: r.ok('basis')
            else: r.bad('basis', f'{who}:{n}:one', i.where, f'basis evaluation for {n} points: entry {j} is {float(coef[j] * pval(p, z[j]))!r} at its own node'); return
    for d in (1, 2):
        for o in range(d + 1):
            for j in range(n):
                a, i = polys[d][o * n + j]; a = {k: p for k, p in a.items() if p}
                want = base[j]
                for _ in range(o): want = pder(want)
                if set(a) <= {off + j} and close(a.get(off + j, []), want): r.ok('basis')
                else: r.bad('basis', f'{who}:{n}:derivative{o}', i.where, f'basis evaluation for {n} points: entry {o}*n+{j} (derivatives up to {d}) is not the derivative of order {o} of the basis polynomial'); return
    return base

def general(r, ns):
    m = special(ns, 'g')
    for n in ns:
        z = [Q(3 * j * j + 7 * j + 1, 5 + 2 * j) * (-1) ** j for j in range(n)]      # generic distinct nodes
        room(r, m, n, 'lagrange_setup', [(f'w__ls__{n}', 0)] + [(f'w__le__{n}__{d}', 1) for d in range(3)])
        f = m.funcs[f'@w__ls__{n}']; st = stores(f, 0)
        base = evaluation(r, m, n, f'w__le__{n}', 'lagrange_setup', z, n, lambda j: z[j] if j < n else None, None)
        if base is None: continue
        if st is None or any(n + j not in st for j in range(n)): r.notes.append(f'lagrange_setup({n}): coefficients not read'); continue
        P = PN(f); i0 = f.blocks[0].insts[0]
        def par(v, k):
            q = dict(P.n(v)); c = q.pop((), 0)
            return c if q == {(('p', k),): 1} else None
        kept = set()
        for i in f.insts():
            if i.op == 'call' and re.match(r'llvm\.mem(cpy|move)', cname(m, i) or '') and par(i.ops[0], 0) is not None and par(i.ops[0], 0) == par(i.ops[1], 1) and isinstance(i.ops[2], int):
                kept |= {j for j in range(n) if par(i.ops[0], 0) <= 8 * j < par(i.ops[0], 0) + i.ops[2]}
        for j, (v, i) in st.items():
            x = f.defs.get(v) if isinstance(v, str) else None
            if j < n and x is not None and x.op == 'load' and par(x.ops[0], 1) == 8 * j: kept.add(j)
        if kept != set(range(n)): r.bad('general', f'lagrange_setup:{n}:nodes', i0.where, f'lagrange_setup for {n} points: nodes {sorted(set(range(n)) - kept)} are not kept in the data'); continue
        l0, l1 = (load_sym(k, lambda j: z[j] if j < n else None) for k in (0, 1))
        def ld(p):
            try: return l1(p)
            except Unread: return l0(p)
        A = Arith(f, None, ld)
        for j in range(n):
            v, i = st[n + j]; got = None
            try: got = A.v(v).get(None, [])
            except Unread as e: r.notes.append(f'lagrange_setup({n}): coefficient not read ({e})'); break
            if len(got) == 1 and got[0] * pval(base[j], z[j]) == 1: r.ok('general')
            else: r.bad('general', f'lagrange_setup:{n}', i.where, f'lagrange_setup for {n} points: coefficient {j} is not the reciprocal of the basis product at its node')

def part(r, a):
    k, ns = a
    {'q': quad, 'b': basis, 'g': general}[k](r, ns)

def check(r):
    ch = lambda ns, k: [list(ns)[i::k] for i in range(k)]
    jobs = [('q', x) for x in ch(list(TAB) + list(GEN), 3)] + [('b', x) for x in [[25]] + ch(list(TAB), 4)] + [('g', list(BASIS_GEN))]
    parallel(part, jobs, r)
    r.need('nodes', 200); r.need('basis', 200); r.need('general', 10); r.need('room', 200)
    r.assume += ['basis polynomials are compared in exact arithmetic (rounding of the evaluation itself is not judged)']
    r.cov['points'] = dict(nodes=[2, 28], basis=[2, 25], general_nodes=[BASIS_GEN[0], BASIS_GEN[-1]])
