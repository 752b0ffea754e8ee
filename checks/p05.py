"""P05: blocking, split-phase, scalar, vector, multi-field and transposed forms agree"""
import re
import an, build, ir
from an import *

EXPLANATION = ('Partial evaluation: every public operation and every exchange routine that a method installs is specialised by the compiler for each mode and for both directions; what is left is read as a sequence of steps (local kernels, messages, waits, reductions, calls through the object), each with its arguments and the loops and conditions '
  'around it in canonical form (byte-exact polynomials over the arguments; loop counters, trip counts and running sums are canonical). R1 split-phase: the steps of the starting routines followed by those of the waiting routine equal the steps of the blocking routine, per method and for the public operations, where the record of the outstanding operation is '
  'followed from the store to the load. R2 layout: scalar, vector and multi-field sequences are equal up to the kernel\'s layout, and each kernel is the one of the layouts of its two sides. R3 transpose: the transposed sequence is the plain one under one exchange of index maps and peers, without initialising flagged entries. '
  'R4 trial: the timed trial run exchanges the same messages and touches no user data. R5 all-reduce: the split-phase all-reduce delivers its result where the waiting routine takes it on every path.')
PASSES = ('always-inline,function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify,lcssa,early-cse<memssa>,simplifycfg,loop-simplify,lcssa,adce)')
KERN = {'gs_gather': ('gather', 'plain'), 'gs_gather_vec': ('gather', 'vec'), 'gs_gather_many': ('gather', 'many'), 'gs_gather_vec_to_many': ('gather', 'v2m'),
        'gs_scatter': ('scatter', 'plain'), 'gs_scatter_vec': ('scatter', 'vec'), 'gs_scatter_many': ('scatter', 'many'), 'gs_scatter_many_to_vec': ('scatter', 'm2v'), 'gs_scatter_vec_to_many': ('scatter', 'v2m'),
        'gs_init': ('init', 'plain'), 'gs_init_vec': ('init', 'vec'), 'gs_init_many': ('init', 'many')}
STEPS = {'MPI_Irecv', 'MPI_Isend', 'MPI_Recv', 'MPI_Send', 'MPI_Waitall', 'MPI_Wait', 'comm_allreduce', 'comm_iallreduce', 'comm_barrier', 'gs_init_array', 'gs_gather_array', 'comm_wait', 'MPI_Iallreduce', 'MPI_Allreduce'}
MODES = ('plain', 'vec', 'many')
SLOTS = ('exec', 'exec_irecv', 'exec_isend', 'exec_wait')

def api_witness():
    o = [f'#include <{h}>' for h in ('stddef.h', 'stdlib.h', 'string.h', 'float.h', 'math.h')]
    o += [f'#include "{h}"' for h in ('c99.h', 'name.h', 'fail.h', 'types.h', 'gs_defs.h', 'mem.h', 'comm.h', 'crystal.h', 'gs.h')]
    o += ['extern buffer wb__;']
    for t in (0, 1):
        o += [f'void w__gs__plain__{t}(void*u,unsigned vn,gs_dom d,gs_op o,struct gs_data*g){{gs(u,d,o,{t},g,&wb__);}}',
              f'void w__gs__vec__{t}(void*u,unsigned vn,gs_dom d,gs_op o,struct gs_data*g){{gs_vec(u,vn,d,o,{t},g,&wb__);}}',
              f'void w__gs__many__{t}(void*u,unsigned vn,gs_dom d,gs_op o,struct gs_data*g){{gs_many(u,vn,d,o,{t},g,&wb__);}}',
              f'void w__igs__plain__{t}(void*u,unsigned vn,gs_dom d,gs_op o,struct gs_data*g,int*h){{igs(u,d,o,{t},g,&wb__,h);}}',
              f'void w__igs__vec__{t}(void*u,unsigned vn,gs_dom d,gs_op o,struct gs_data*g,int*h){{igs_vec(u,vn,d,o,{t},g,&wb__,h);}}',
              f'void w__igs__many__{t}(void*u,unsigned vn,gs_dom d,gs_op o,struct gs_data*g,int*h){{igs_many(u,vn,d,o,{t},g,&wb__,h);}}']
    o += ['void w__wait(int h){gs_wait(h);}']
    return '\n'.join(o) + '\n'

API = ('gs', 'gs_vec', 'gs_many', 'igs', 'igs_vec', 'igs_many', 'gs_wait')

def residual(cfg):
    with build.Scratch() as d:
        objs = build.compile_units(cfg, d)
        w = d + '/wit.c'; open(w, 'w').write(api_witness()); o = d + '/wit.ll'
        build.run([build.CLANG, '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-w', '-g', '-std=gnu11', '-S', '-emit-llvm', *build.incs(), *build.CONFIGS[cfg], w, '-o', o], 'witness')
        a = build.link(objs + [o], d, None); t = open(a).read()
        t = build.inline_helpers(t)
        # which exchange routines each method installs
        pre = d + '/pre.ll'; open(a, 'w').write(t)
        build.run([build.OPT, '-S', '-passes=always-inline,function(mem2reg,simplifycfg)', a, '-o', pre], 'inline')
        m0 = ir.Module(open(pre).read()); m0.cg = CG(m0)
        methods = installs(m0)
        execs = sorted({x for v in methods.values() for x in v.values() if x})
        extra = []
        for e in execs:
            f = m0.funcs[e]
            if len(f.params) != 9: raise build.Broken(f'{e}: not the signature of an exchange routine')
            ty = [p[1] for p in f.params]
            for mode, mv in list(zip(MODES, range(3))) + [('dry', 3)]:
                for tr in (0, 1):
                    ps = f'ptr %u, {ty[2]} %vn, {ty[3]} %dom, {ty[4]} %op, ptr %ed, ptr %cm, ptr %bf'
                    vn = '1' if mode in ('plain', 'dry') else '%vn'
                    extra.append(f'define void @w__{e[1:]}__{mode}__{tr}({ps}) {{\nentry:\n  call void {e}(ptr %u, {ty[1]} {mv}, {ty[2]} {vn}, {ty[3]} %dom, {ty[4]} %op, {ty[5]} {tr}, ptr %ed, ptr %cm, ptr %bf)\n  ret void\n}}\n')
        names = [e[1:] for e in execs] + ['gslib_' + n for n in API]
        for n in names:
            t = re.sub(r'^(define [^\n]*@' + re.escape(n) + r'\([^\n]*?)( alwaysinline)?( #\d+)?( !dbg !\d+)? \{$', lambda k: k.group(1) + ' alwaysinline' + (k.group(3) or '') + (k.group(4) or '') + ' {', t, flags=re.M)
        k = t.index('\ndefine ')
        t = t[:k + 1] + '\n'.join(extra) + t[k:]
        open(a, 'w').write(t)
        n = d + '/n.ll'
        build.run([build.OPT, '-S', '-passes=' + PASSES, a, '-o', n], 'specialise')
        m = ir.Module(open(n).read()); m.cfg = cfg
        return m, methods

def installs(m):
    """set-up routine -> {slot: exchange routine or None}"""
    out = {}
    for f in m.funcs.values():
        st = {}
        for i in f.insts():
            if i.op != 'store' or i.ty != 'ptr': continue
            d = f.defs.get(i.ops[1]) if isinstance(i.ops[1], str) else None
            if d is None or d.op != 'getelementptr': continue
            sl = slot_of(m, d)
            if sl and sl[0] == 'gs_remote' and sl[1] in SLOTS: st.setdefault(sl[1], set()).add(i.ops[0] if isinstance(i.ops[0], str) else '?')
        if 'exec' in st and all(len(v) == 1 for v in st.values()) and all(next(iter(v))[0] in '@n' for v in st.values()):
            out[src(f)] = {k: (lambda x: None if x == 'null' else x)(next(iter(v))) for k, v in st.items()}
    return out

class Step:
    def __init__(s, kind, var, args, ctx, inst, P=None): s.kind, s.var, s.args, s.ctx, s.inst, s.P = kind, var, args, ctx, inst, P     # P: (polynomials, substitutions applied)
    def key(s): return (s.kind, tuple(LP.k(a) for a in s.args), s.ctx)

class Trace:
    """steps of one specialised routine"""
    def __init__(s, m, f, sub=None, skipconds=()):
        s.m, s.f = m, f; s.P = LP(f); s.steps = []; s.PS = (s.P, ((lambda p: s.P.subst(p, sub)),) if sub else ())
        noret = noret_funcs(m); F = Facts(f, noret)
        s.order = rpo(f); s.F = F
        for b in s.order:
            if b in F.dead or F.unreachable(b): continue
            for i in b.insts:
                if i.op == 'call': s.call(i, sub)
    def poly(s, v, sub):
        p = s.P.n(v)
        return s.P.subst(p, sub) if sub else s.P.subst(p, lambda a: None)
    def call(s, i, sub):
        m, P = s.m, s.P
        if isinstance(i.extra, str) and i.extra[0] == '@': targets = i.extra; callee = None
        else:
            p = s.poly(i.extra, sub); callee = p; targets = table(m, p)
        n = None
        if targets is not None:
            n = plain(m.base(targets)); g = m.funcs.get(targets)
            if n.startswith('llvm.') and not n.startswith('llvm.mem'): return
            if g is not None and n not in KERN and n not in STEPS:
                if not any(x.op in ('call', 'store', 'load') for x in g.insts()): return     # does nothing
        args = [s.poly(v, sub) for v in i.ops]
        ctx = s.context(i.bb, sub, callee)
        if n is None:
            s.steps.append(Step(('slot', P.k(callee)), None, args, ctx, i, s.PS)); return
        if n in KERN:
            k, v = KERN[n]; s.steps.append(Step((k,), v, args, ctx, i, s.PS))
        elif n in STEPS: s.steps.append(Step((n,), None, args[:2] if n == 'MPI_Waitall' else args, ctx, i, s.PS))
        elif n.startswith('llvm.memcpy') or n.startswith('llvm.memmove') or n in ('memcpy', 'memmove'): s.steps.append(Step(('copy',), None, args[:3], ctx, i, s.PS))
        elif n == 'realloc' : s.steps.append(Step(('realloc',), None, args, ctx, i, s.PS))
        elif n in m.funcs and n not in ('fail', 'die') or n.startswith('MPI_'): s.steps.append(Step((n,), None, args, ctx, i, s.PS))
    def context(s, b, sub, callee):
        loops, conds = s.P.ctx(b, lambda blk, side: any(x in s.F.dead for x in blk.succs if x is not side))
        f = (lambda k: s.P.k(s.P.subst(dict(k), sub))) if sub else (lambda k: k)
        out = []
        for c in conds:
            if len(c) == 3 and isinstance(c[1], tuple) and isinstance(c[2], tuple):
                x, y = f(c[1]), f(c[2])
                if callee is not None and c[0] == 'ne' and s.P.k(callee) in (x, y) and () in (x, y): continue   # only called when there is one
                z = s.P.fold(('icmp', c[0], x, y))
                if z == s.P.const(1): continue
                out.append((c[0], x, y))
            elif c[0] == 'c': out.append(('c', f(c[1]), c[2]))
            else: out.append(c)
        return tuple(f(l) for l in loops), tuple(out)

def table(m, p):
    """function a constant entry of a constant table of functions stands for"""
    if len(p) != 1: return None
    (mm, c), = p.items()
    if c != 1 or len(mm) != 1: return None
    a = mm[0]
    if a[0] == 'g' and a[1] in m.funcs: return a[1]
    if a[0] != 'ld': return None
    q = dict(a[1]); off = q.pop((), 0)
    if len(q) != 1: return None
    (gm, gc), = q.items()
    if gc != 1 or len(gm) != 1 or gm[0][0] != 'g': return None
    g = m.globals.get(gm[0][1])
    if g is None or g['kind'] != 'constant' or not isinstance(g['init'], tuple) or g['init'][0] != 'agg': return None
    k = off // 8
    if off % 8 or not 0 <= k < len(g['init'][1]): return None
    v = g['init'][1][k][1]
    return v if isinstance(v, str) and v[0] == '@' else None

def canon(steps):
    """keys with anonymous values numbered by appearance, and where those values come from"""
    num = {}; todo = []
    def go(x, P=None):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'x' and isinstance(x[1], str):
                if x[1] not in num: num[x[1]] = len(num); todo.append((x[1], P))
                return ('x', num[x[1]])
            if len(x) == 3 and x[0] == 'call' and isinstance(x[2], str): return ('call', x[1], num.setdefault(x[2], len(num)))
            if len(x) == 2 and x[0] in ('al', 'trip?') and isinstance(x[1], str): return (x[0], num.setdefault(x[1], len(num)))
            return tuple(go(y, P) for y in x)
        return x
    out = [go(s.key(), s.P) for s in steps]
    while todo:
        n, Q = todo.pop(0)
        P, fns = Q
        inc = phi_in(P, n)
        if inc is None: continue
        for fn in fns: inc = [fn(p) for p in inc]
        out.append(('value', num[n], tuple(go(P.k(p), Q) for p in inc)))
    return out

def phi_in(P, n):
    """what flows into a merge: entry value first"""
    d = P.f.defs.get(n)
    if d is None or d.op != 'phi': return None
    L = P.head.get(d.bb)
    inside = lambda l: L is not None and (P.f.bb[l] if isinstance(l, str) else l) in L.body
    return [P.n(v) for v, l in sorted(zip(d.ops, d.extra), key=lambda z: inside(z[1]))]

def scales(r, T, name, buf, vn):
    """in the vector form every offset into the buffer and every count is proportional to the number of components"""
    P = T.P
    def size(z): return z[0] == 'ld' and any(y[0] == 'g' and P.m.globals.get(y[1], {}).get('kind') == 'constant' for q, _ in z[1] for y in q) and P.mentions(dict(z[1]), lambda y: y == ('p', 2))
    def hom(p, ptr, seen, byt):
        for m, c in p.items():
            d = sum(1 for a in m if a == ('p', vn)); e = sum(1 for a in m if size(a))
            if ptr and c == 1 and len(m) == 1 and m[0] == ('p', buf): continue
            if len(m) == 1 and m[0][0] == 'x':
                if m[0] in seen: continue
                inc = phi_in(P, m[0][1])
                if inc is not None and all(hom(q, ptr, seen | {m[0]}, byt) for q in inc): continue
                return False
            if len(m) == 1 and m[0][0] == 'select' and all(hom(dict(q), ptr, seen, byt) for q in m[0][2:]): continue
            k = sum(1 for a in m if a[0] == 'acc' and hom(dict(a[2]), False, seen, byt) or a[0] == 'end' and hom(dict(a[1]), False, seen, byt))
            if d + k != 1 or byt and e + k != 1: return False
        return True
    for s in T.steps:
        k = s.kind[0]
        cnt = [1] if k in ('MPI_Isend', 'MPI_Irecv', 'gs_init_array') else [4] if k == 'comm_allreduce' else [5] if k == 'comm_iallreduce' else [2] if k == 'copy' else []
        ptr = [0] if k in ('MPI_Isend', 'MPI_Irecv', 'gs_init_array', 'init') else [0, 1] if k in ('gather', 'scatter', 'copy') else [3, 5] if k == 'comm_allreduce' else [4, 6] if k == 'comm_iallreduce' else []
        for j in cnt + ptr:
            p = s.args[j]
            if j in ptr and P.k(p) == P.k(P.atom(('p', 0))): continue
            if hom(p, j in ptr, frozenset(), j in ptr or k not in ('gs_init_array', 'comm_allreduce', 'comm_iallreduce')): r.ok('layout')
            else: r.bad('layout', f'{name}:{k}:{j}', s.inst.where, f'{name}: {"position" if j in ptr else "count"} {P.show(p)[:120]} of {k} is not proportional to the number of components and the size of the type')

def check(r):
    parallel(part, build.ALL, r)
    r.need('split-phase', 60); r.need('layout', 60); r.need('transpose', 40); r.need('trial', 10); r.need('all-reduce', 4)
    r.assume += ['transpose flags are 0 or 1 and the caller passes a buffer', 'the total of a message list equals the sum of its sizes (set-up)']

def subst_all(steps, P, fn):
    return [Step(s.kind if s.kind[0] != 'slot' else ('slot', P.k(P.subst(dict(s.kind[1]), fn))), s.var, [P.subst(a, fn) for a in s.args],
        (tuple(P.k(P.subst(dict(l), fn)) for l in s.ctx[0]), tuple((c[0], P.k(P.subst(dict(c[1]), fn)), P.k(P.subst(dict(c[2]), fn))) if len(c) == 3 and isinstance(c[1], tuple) and isinstance(c[2], tuple) else c for c in s.ctx[1])), s.inst, s.P and (s.P[0], s.P[1] + ((lambda p: P.subst(p, fn)),))) for s in steps]

def show(P, s):
    return f'{s.kind[0]}{"/" + s.var if s.var else ""}({", ".join(P.show(a) for a in s.args)})'[:160]

def part(r, cfg):
    m, methods = residual(cfg)
    mpi = cfg != 'serial'
    def tr(n, sub=None): return Trace(m, m.funcs['@w__' + n], sub)
    # ------------------------------------------------ methods
    for setup, sl in sorted(methods.items()):
        for s in SLOTS:
            if s not in sl: r.bad('split-phase', f'{setup}:{s}', setup, f'{setup} leaves {s} unset')
        T = {(s, md, t): tr(f'{sl[s][1:]}__{md}__{t}') for s in SLOTS if sl.get(s) for md in MODES + ('dry',) for t in (0, 1)}
        if not sl.get('exec'):
            r.bad('split-phase', f'{setup}:exec', setup, f'{setup} installs no exchange'); continue
        name = setup
        for md in MODES:
            for t in (0, 1):
                A = T['exec', md, t]; a = norm_steps(A.steps, A.P, mpi)
                b = []
                for s in SLOTS[1:]:
                    if sl.get(s): b += T[s, md, t].steps
                b = norm_steps(b, A.P, mpi)
                same(r, A.P, 'split-phase', f'{name}:{md}:{"transposed" if t else "plain"}', a, b, f'{name} ({md}, {"transposed" if t else "not transposed"}): starting and waiting', 'the blocking exchange')
                layout(r, A.P, name, md, a, 0); layout(r, A.P, name + ' split', md, b, 0)
        for s in SLOTS:
            if not sl.get(s): continue
            for t in (0, 1):
                ref = T[s, 'vec', t]; scales(r, ref, f'{name}:{s}', 6, 1)
                one = subst_all(ref.steps, ref.P, lambda a: {(): 1} if a == ('p', 1) else None)
                P = ref.P
                same(r, P, 'layout', f'{name}:{s}:plain', T[s, 'plain', t].steps, one, f'{name}.{s}: the scalar form', 'the vector form with one component')
                same(r, P, 'layout', f'{name}:{s}:many', T[s, 'many', t].steps, ref.steps, f'{name}.{s}: the multi-field form', 'the vector form')
                trial(r, P, f'{name}:{s}', T[s, 'dry', t].steps, T[s, 'plain', t].steps)
            for md in MODES:
                swap(r, T[s, md, 0].P, f'{name}:{s}', T[s, md, 0].steps, T[s, md, 1].steps, 4)
    r.cov.setdefault('methods', {})[cfg] = {k: {s: (v or 'none').lstrip('@') for s, v in x.items()} for k, x in sorted(methods.items())}
    # ------------------------------------------------ public operations
    W = m.funcs['@w__wait']
    for md in MODES:
        for t in (0, 1):
            A = tr(f'gs__{md}__{t}'); a = clean(A)
            B = tr(f'igs__{md}__{t}'); rec = record(m, B)
            if rec is None:
                r.bad('split-phase', f'igs:{md}:record', B.f.blocks[0].insts[0].where, f'igs ({md}) keeps no record of the operation'); continue
            C = tr('wait', sub=recsub(m, W, rec))
            B = tr(f'igs__{md}__{t}', sub=ownrec(B, rec))
            b = clean(B) + clean(C)
            slots(r, A.P, md, t, a, b)
            layout(r, A.P, 'gs', md, a, 0); layout(r, A.P, 'igs', md, b, 0)
    def again(n, kind):
        x = tr(n)
        if kind == 'gs': return x
        rec = record(m, x)
        return tr(n, sub=ownrec(x, rec)) if rec else x
    for kind in ('gs', 'igs'):
        for t in (0, 1):
            ref = again(f'{kind}__vec__{t}', kind); v = nomode(clean(ref)); P = ref.P
            one = subst_all(v, P, lambda a: {(): 1} if a == ('p', 1) else None)
            same(r, P, 'layout', f'{kind}:plain', nomode(clean(again(f'{kind}__plain__{t}', kind))), one, f'{kind}: the scalar form', 'the vector form with one component')
            same(r, P, 'layout', f'{kind}:many', nomode(clean(again(f'{kind}__many__{t}', kind))), v, f'{kind}: the multi-field form', 'the vector form')
        for md in MODES:
            x0, x1 = again(f'{kind}__{md}__0', kind), again(f'{kind}__{md}__1', kind)
            swap(r, x0.P, f'{kind}', clean(x0), clean(x1), 4, api=True)
    sub0 = lambda t: (lambda a: None)
    if mpi: iallreduce(r, m)

def clean(T):
    """steps on user data and buffer only: memory of the record of outstanding operations is not a step of the exchange"""
    out = []
    for s in T.steps:
        if s.kind == ('realloc',):
            if not T.P.mentions(s.args[0], lambda a: a == ('g', '@wb__')): continue
            s = Step(s.kind, None, s.args, s.ctx, s.inst, s.P)
        elif s.kind[0] in ('copy', 'malloc', 'free'): continue
        # conditions about the record table are not part of the exchange
        conds = tuple(c for c in s.ctx[1] if not any(isinstance(k, tuple) and T.P.mentions(dict(k), lambda a: a[0] == 'g' and a[1] != '@wb__' and T.m.globals.get(a[1], {}).get('kind') != 'constant') for k in c[1:3] if isinstance(k, tuple)))
        out.append(Step(s.kind, s.var, s.args, (s.ctx[0], conds), s.inst, s.P))
    return out

def nomode(steps):
    """the mode handed to the exchange differs by design"""
    return [Step(s.kind, s.var, [s.args[0]] + s.args[2:], s.ctx, s.inst, s.P) if s.kind[0] == 'slot' and len(s.args) == 9 else s for s in steps]

def list_total(P):
    """start + sum of the sizes of a list of messages = start + its stored total"""
    def ends(a):
        # start + sum of (size of message k) * unit over all messages of a list = start + unit * total of the list
        if a[0] != 'end': return None
        step, trip = dict(a[1]), dict(a[2])
        if len(step) != 1 or len(trip) != 1: return None
        (tm, tc), = trip.items()
        if tc != 1 or len(tm) != 1 or tm[0][0] != 'ld': return None
        (sm, sc), = step.items()
        size = [z for z in sm if z[0] == 'ld' and any(('iv', 1) in q for q, _ in z[1])]
        if len(size) != 1: return None
        base = [z for q, _ in size[0][1] for z in q if z[0] == 'ld']
        if len(base) != 1: return None
        # list structure {n, p, size, total}
        na, sa = dict(tm[0][1]), dict(base[0][1])
        if P.add(sa, na, -1) != P.const(16): return None
        tot = P.atom(('ld', P.k(P.add(na, P.const(24)))))
        rest = list(sm); rest.remove(size[0])
        r = P.mul(P.const(sc), tot)
        for z in rest: r = P.mul(r, P.atom(z))
        return r
    return ends

def norm_steps(steps, P, mpi):
    """[start all-reduce; wait for it; copy the result back] is an all-reduce; the end of a list of messages lies at its total"""
    out = list(steps); k = 0
    while k < len(out):
        s = out[k]
        if s.kind == ('comm_iallreduce',):
            req, cm, dom, op, v, n, b = s.args
            j = k + 1; waited = copied = False; cut = []
            while j < len(out) and out[j].kind in (('MPI_Waitall',), ('MPI_Wait',), ('comm_wait',), ('copy',)):
                x = out[j]
                if x.kind == ('copy',):
                    if P.k(x.args[0]) == P.k(v) and P.k(x.args[1]) == P.k(b) and sized(P, x.args[2], n, dom): copied = True; cut.append(j)
                    else: break
                else:
                    q = x.args[1] if x.kind != ('MPI_Wait',) else x.args[0]
                    if P.k(q) == P.k(req) and all(okcond(P, c, cm) for c in x.ctx[1]): waited = True; cut.append(j)
                    else: break
                j += 1
            if (copied and waited) or not mpi and (not copied or copied):
                out[k] = Step(('comm_allreduce',), None, [cm, dom, op, v, n, b], s.ctx, s.inst, s.P)
                for j in reversed(cut): del out[j]
        k += 1
    return subst_all(out, P, list_total(P))

def okcond(P, c, cm):
    """only skipped when there is one process"""
    if len(c) != 3 or not isinstance(c[1], tuple) or not isinstance(c[2], tuple): return False
    np = P.k(P.atom(('ld', P.k(P.add(cm, P.const(4))))))
    cmpf = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b}[c[0][-2:]]
    def at(k, v): return v if k == np else 0 if k == () else k[0][1] if len(k) == 1 and k[0][0] == () else None
    return np in (c[1], c[2]) and all(at(c[1], v) is not None and at(c[2], v) is not None and cmpf(at(c[1], v), at(c[2], v)) for v in (2, 3, 4, 1 << 20))

def sized(P, nb, n, dom):
    """n elements of the type: n times an entry of a constant table selected by the type"""
    def size(z): return z[0] == 'ld' and any(y[0] == 'g' and P.m.globals.get(y[1], {}).get('kind') == 'constant' for q, _ in z[1] for y in q) and P.mentions(dict(z[1]), lambda y: (y,) in dom)
    return any(size(z) and P.k(P.mul(n, P.atom(z))) == P.k(nb) for mm in nb for z in mm)

def same(r, P, rule, key, a, b, who, what):
    ca, cb = canon([Step(s.kind, None, s.args, s.ctx, s.inst, s.P) for s in a]), canon([Step(s.kind, None, s.args, s.ctx, s.inst, s.P) for s in b])
    for k in range(max(len(ca), len(cb))):
        if k < len(ca) and k < len(cb) and ca[k] == cb[k]: r.ok(rule); continue
        x = a[k] if k < len(a) else None; y = b[k] if k < len(b) else None
        i = (y or x or (b or a)[-1]).inst
        r.bad(rule, key, i.where, f'{who} does not take the same steps as {what}: step {k + 1} is {show(P, a[k]) if x else "missing"} in one and {show(P, b[k]) if y else "missing"} in the other' + (' (under another condition or loop)' if x and y and x.kind == y.kind and [P.k(q) for q in x.args] == [P.k(q) for q in y.args] else ''))
        return

def layout(r, P, name, md, steps, u):
    for s in steps:
        if s.var is None: continue
        role = lambda p: 'user' if P.mentions(p, lambda a: a == ('p', u)) else 'buf'
        if s.kind == ('init',): want = md
        else:
            o, i = role(s.args[0]), role(s.args[1])
            want = md if md != 'many' else 'many' if (o, i) == ('user', 'user') else 'vec' if (o, i) == ('buf', 'buf') else 'v2m' if (o, i) == ('user', 'buf') else 'm2v'
        if s.var == want: r.ok('layout')
        else: r.bad('layout', f'{name}:{s.kind[0]}:{md}', s.inst.where, f'{name}: the {s.kind[0]} of the {md} form uses the kernel of another layout ({s.var} instead of {want})')

def trial(r, P, key, dry, plain):
    for s in dry:
        if s.kind[0] in ('gather', 'scatter', 'init') and any(P.mentions(a, lambda z: z == ('p', 0)) for a in s.args):
            r.bad('trial', key, s.inst.where, f'{key}: the trial run touches user data'); return
    user = lambda s: s.kind[0] in ('gather', 'scatter', 'init') and any(P.mentions(a, lambda z: z == ('p', 0)) for a in s.args)
    a = [s for s in dry if not user(s)]; b = [s for s in plain if not user(s)]
    strip = lambda z: [Step(s.kind, None, s.args, s.ctx, s.inst, s.P) for s in z if s.kind[0] not in ('gather', 'scatter', 'init')]
    same(r, P, 'trial', key, strip(a), strip(b), f'{key}: the trial run', 'the real exchange')

def offsets(P, k, ed, out):
    """constant offsets of loads off the object, in order of appearance"""
    def go(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'ld':
                q = dict(x[1]); c = q.pop((), 0)
                if q == {(('p', ed),): 1}: out.append(c); return
            for y in x: go(y)
    go(k)

def swap(r, P, key, a, b, ed, api=False):
    """b is a with the index maps exchanged"""
    if api:
        ini = [s for s in a if s.kind == ('init',)]
        if not ini: r.bad('transpose', f'{key}:init', a[0].inst.where, f'{key}: flagged entries are not initialised'); return
        if any(s.kind == ('init',) for s in b): r.bad('transpose', f'{key}:init', b[0].inst.where, f'{key}: the transposed form initialises flagged entries'); return
        a = [s for s in a if s.kind != ('init',)]
    if len(a) != len(b): r.bad('transpose', key, (b or a)[0].inst.where, f'{key}: the transposed form takes {len(b)} steps instead of {len(a)}'); return
    # find the exchange: offsets that differ position by position
    pi = {}
    # a polynomial is a sum: pairs are found by trying the exchange suggested by each differing step
    diffs = []
    for x, y in zip(a, b):
        for p, q in [(P.k(p), P.k(q)) for p, q in zip(x.args, y.args)] + list(zip(x.ctx[0], y.ctx[0])):
            u, v = [], []; offsets(P, p, ed, u); offsets(P, q, ed, v)
            diffs.append([set(u) - set(v), set(v) - set(u), y])
    while True:
        more = False
        for d in diffs:
            for c in list(d[0]):
                if c in pi and pi[c] in d[1]: d[0].discard(c); d[1].discard(pi[c])
        todo = [d for d in diffs if d[0] and len(d[0]) == len(d[1])]
        for d in sorted(todo, key=lambda d: len(d[0]))[:1]:
            for c, e in zip(sorted(d[0]), sorted(d[1])):
                for m1, m2 in ((c, e), (e, c)):
                    if pi.setdefault(m1, m2) != m2: r.bad('transpose', key, d[2].inst.where, f'{key}: the transposed form exchanges the maps in one step and not in another'); return
            more = True
        if not more: break
    def fn(z):
        if z[0] != 'ld': return None
        q = dict(z[1]); c = q.pop((), 0)
        if q == {(('p', ed),): 1} and c in pi: return P.atom(('ld', P.k(P.add(q, P.const(pi[c])))))
        return None
    def nodeep(z):
        if z[0] != 'ld': return True
        q = dict(z[1]); q.pop((), 0)
        return q != {(('p', ed),): 1}
    sub = lambda p: P.subst(p, fn, nodeep)
    fa = [Step(s.kind if s.kind[0] != 'slot' else s.kind, None, [sub(p) for p in s.args], (tuple(P.k(sub(dict(l))) for l in s.ctx[0]), tuple((c[0], P.k(sub(dict(c[1]))), P.k(sub(dict(c[2])))) if len(c) == 3 and isinstance(c[1], tuple) and isinstance(c[2], tuple) else c for c in s.ctx[1])), s.inst, (s.P[0], s.P[1] + (sub,))) for s in a]
    if api:   # the exchange is told the direction
        for x, y in zip(fa, b):
            if x.kind[0] == 'slot' and len(x.args) == 9:
                if x.args[5] == {} and y.args[5] == {(): 1}: x.args[5] = y.args[5]
                else: r.bad('transpose', f'{key}:flag', y.inst.where, f'{key}: the exchange is not told the direction asked for'); return
    maps = [s for s in a if s.kind[0] in ('gather', 'scatter')]
    if maps and not pi: r.bad('transpose', key, maps[0].inst.where, f'{key}: the transposed form uses the same maps in the same roles'); return
    same(r, P, 'transpose', key, fa, b, f'{key}: the form with maps exchanged', 'the transposed form')

def record(m, B):
    """what a starting routine keeps: {offset in the record: value}; the record is the block stored in the table of outstanding operations"""
    P, f = B.P, B.f
    best = None
    st = {}
    for i in f.insts():
        if i.op != 'store': continue
        a = P.n(i.ops[1]); off = a.get((), 0); base = {k: v for k, v in a.items() if k != ()}
        st.setdefault(P.k(base), {})[off] = P.subst(P.n(i.ops[0]), lambda z: None)
    # the record holds the object, the data and the flag
    for b, d in st.items():
        vals = [P.k(v) for v in d.values()]
        if P.k(P.atom(('p', 0))) in vals and P.k(P.atom(('p', 4))) in vals:
            if best is None or len(d) > len(best): best = d
    return best

def ownrec(B, rec):
    """the starting routine reads back what it has just put into the record: through the new block or through the table it stored it in"""
    P, f = B.P, B.f; at = set()
    for i in f.insts():
        if i.op == 'store' and i.ty == 'ptr':
            v = P.n(i.ops[0])
            if len(v) == 1 and list(v.items())[0][1] == 1 and len(list(v)[0]) == 1 and list(v)[0][0][0] == 'call' and list(v)[0][0][1] in ('malloc', 'calloc', 'realloc'):
                at |= {P.k(P.atom(('ld', P.k(P.n(i.ops[1]))))), P.k(v)}
    def fn(a):
        if a[0] != 'ld': return None
        q = dict(a[1]); c = q.pop((), 0)
        if P.k(q) in at and c in rec: return rec[c]
        return None
    return fn

def recsub(m, W, rec):
    P = LP(W)
    # in the waiting routine the record is *(table + 8*handle)
    def isrec(q):
        if len(q) != 1: return False
        (mm, c), = q.items()
        if c != 1 or len(mm) != 1 or mm[0][0] != 'ld': return False
        z = dict(mm[0][1])
        return z.get((('p', 0),)) == 8 and any(k and k[0][0] == 'ld' and any(y[0] == 'g' for q2, _ in k[0][1] for y in q2) for k in z)
    def fn(a):
        if a[0] != 'ld': return None
        q = dict(a[1]); c = q.pop((), 0)
        if isrec(q) and c in rec: return rec[c]
        return None
    return fn

def slots(r, P, md, t, a, b):
    """public operation: local gather, initialisation, exchange, local scatter; the exchange is one call through the object or its three parts"""
    key = f'gs:{md}:{"transposed" if t else "plain"}'
    xa = [s for s in a if s.kind[0] == 'slot']; xb = [s for s in b if s.kind[0] == 'slot']
    if len(xa) != 1: r.bad('split-phase', key, a[0].inst.where, f'gs ({md}): {len(xa)} exchanges instead of one'); return
    if len(xb) != 3: r.bad('split-phase', key, b[0].inst.where, f'igs/gs_wait ({md}): {len(xb)} parts of the exchange instead of three'); return
    o = slot_off(P, xa[0])
    offs = [slot_off(P, x) for x in xb]
    if o is None or offs != [o + 8, o + 16, o + 24]:
        r.bad('split-phase', key + ':order', xb[0].inst.where, f'igs/gs_wait ({md}): the parts of the exchange are not receive, send, wait in this order')
    for x in xb:
        for k, (p, q) in enumerate(zip(xa[0].args, x.args)):
            if P.k(p) == P.k(q): r.ok('split-phase')
            else: r.bad('split-phase', f'{key}:arg{k}', x.inst.where, f'igs/gs_wait ({md}): argument {k + 1} of a part of the exchange is {P.show(q)} instead of {P.show(p)}')
    at = b.index(xb[0]); tail = b.index(xb[2])
    bb = b[:at] + [xa[0]] + b[tail + 1:]
    mid = [s for s in b[at + 1:tail] if s.kind[0] != 'slot']
    if mid: r.bad('split-phase', key + ':between', mid[0].inst.where, f'igs/gs_wait ({md}): other steps between the parts of the exchange')
    same(r, P, 'split-phase', key, a, bb, f'gs ({md})', 'igs followed by gs_wait')

def slot_off(P, s):
    k = dict(s.kind[1])
    if len(k) != 1: return None
    (mm, c), = k.items()
    if len(mm) != 1 or mm[0][0] != 'ld': return None
    return dict(mm[0][1]).get((), 0)

def iallreduce(r, m):
    f = next((f for f in m.funcs.values() if src(f) == 'comm_iallreduce'), None)
    if f is None: return
    P = LP(f); F = Facts(f, noret_funcs(m))
    pn = {re.sub(r'[.\d]+$', '', p[1:]): k for k, (p, _) in enumerate(f.params)}
    v, n, b, dom = ('p', 4), ('p', 5), ('p', 6), ('p', 2)
    good = set()
    for i in f.insts():
        if i.op != 'call': continue
        c = cname(m, i)
        if c == 'MPI_Iallreduce' and P.n(i.ops[0]) == P.atom(v) and P.n(i.ops[1]) == P.atom(b): good.add(i.bb)
        if c and (c.startswith('llvm.memcpy') or c.startswith('llvm.memmove')) and P.n(i.ops[0]) == P.atom(b) and P.n(i.ops[1]) == P.atom(v) and sized(P, P.n(i.ops[2]), P.atom(n), P.atom(dom)): good.add(i.bb)
    A = Assume(f, F.x, {F.x.e(f.params[5][0]): 1}, noret_funcs(m))     # with elements to reduce
    def onward(x, p):
        """where x goes when entered from p"""
        t = x.term; c = f.defs.get(t.ops[0]) if t.op in ('br', 'switch') and t.ops and isinstance(t.ops[0], str) else None
        if c is not None and c.op == 'phi' and c.bb is x:
            v = next((v for v, l in zip(c.ops, c.extra) if (f.bb[l] if isinstance(l, str) else l) is p), None)
            if v in ('true', 'false'): v = int(v == 'true')
            if isinstance(v, int):
                if t.op == 'br': return [f.bb[t.extra[0 if v & 1 else 1]]]
                return [f.bb[next((l for k, l in t.extra[1] if k == v), t.extra[0])]]
        return [y for y in x.succs if (x, y) in A.edges]
    wl = [(f.blocks[0], None)]; seen = set()
    while wl:
        x, p = wl.pop()
        if (x, p) in seen or x in F.dead or not A.runs(x): continue
        seen.add((x, p))
        if x in good: r.ok('all-reduce'); continue
        if x.term.op == 'ret': r.bad('all-reduce', 'comm_iallreduce', x.term.where, 'comm_iallreduce can return without the result being delivered to the buffer the waiting routine copies from'); continue
        wl += [(y, x) for y in onward(x, p)]
