"""P17: the Fortran interface forwards the same operation"""
import re
import an, build, ir
from an import *

EXPLANATION = ('Partial evaluation of every Fortran-callable routine with constant codes (types, operations, transpose flags, dimensions, small counts), C routines kept as calls; what is left is compared, byte-exactly (addresses and integers as polynomials over the arguments), '
  'with the documented correspondence. R1 call: the right C routine is called on every path that returns, and only that one. R2 argument: each argument is the documented one (pointer, value behind the pointer, stride times element size, translated code, object of the handle, '
  'contents of argument arrays). R3 result: what the C routine reports is stored in the caller\'s variable. R4 communicator: the caller\'s communicator is converted, and its size compared with the number given. R5 sort: keys from last to first, the first one starting afresh, each at the width of its array, then every array permuted.')

DOMS = {1: 'gs_double', 2: 'gs_sint', 3: 'gs_slong'}
OPC = {1: 'gs_add', 2: 'gs_mul', 3: 'gs_min', 4: 'gs_max'}
SIZE = {1: 8, 2: 4, 3: 8}
KEEP = ('setupms_aux_2', 'setupms_aux_3', 'gs_setup_aux')
def F(n): return f'GS_FORTRAN_NAME({n},{n.upper()})'

# ---------------------------------------------------------------- witness unit
def variants():
    """(routine, tag, [arguments: None = a parameter, int = pointer to that constant], check)"""
    V = []
    trip = [(d, 1, 0) for d in (1, 2, 3)] + [(1, o, 0) for o in (2, 3, 4)] + [(1, 1, t) for t in (1, 2, -1)]
    for d, o, t in trip:
        k = f'{d}{o}{t}'.replace('-', 'm')
        V.append(('gs_op', k, [None, None, d, o, t], dict(kind='gs', to='gs', args=['p1', ('dom', d), ('op', o), ('tr', t), 'obj', '0'])))
        V.append(('igs_op', k, [None, None, d, o, t, None], dict(kind='gs', to='igs', args=['p1', ('dom', d), ('op', o), ('tr', t), 'obj', '0', 'p5'])))
        V.append(('gs_op_vec', k, [None, None, None, d, o, t], dict(kind='gs', to='gs_vec', args=['p1', 'L2', ('dom', d), ('op', o), ('tr', t), 'obj', '0'])))
        V.append(('igs_op_vec', k, [None, None, None, d, o, t, None], dict(kind='gs', to='igs_vec', args=['p1', 'L2', ('dom', d), ('op', o), ('tr', t), 'obj', '0', 'p6'])))
        V.append(('gs_op_many', k, [None] * 8 + [d, o, t], dict(kind='gs', to='gs_many', args=[('arr', [f'p{j}' for j in range(1, 7)]), 'L7', ('dom', d), ('op', o), ('tr', t), 'obj', '0'])))
        V.append(('igs_op_many', k, [None] * 8 + [d, o, t, None], dict(kind='gs', to='igs_many', args=[('arr', [f'p{j}' for j in range(1, 7)]), 'L7', ('dom', d), ('op', o), ('tr', t), 'obj', '0', 'p11'])))
        for n in ((3,) if (o, t) == (1, 0) else (1,)):
            V.append(('gs_op_fields', k + f'n{n}', [None, None, None, n, d, o, t], dict(kind='gs', to='gs_many', args=[('arr', [('fld', j, SIZE[d]) for j in range(n)]), ('c', n), ('dom', d), ('op', o), ('tr', t), 'obj', '0'])))
    V.append(('gs_op_wait', '', [None], dict(kind='plain', to='gs_wait', args=['L0'])))
    V.append(('gs_free', '', [None], dict(kind='gs', to='gs_free', args=['obj'])))
    V.append(('gs_unique', '', [None] * 4, dict(kind='comm', to='gs_unique', args=['p0', 'L1', 'new'], comm=(2, 3))))
    V.append(('gs_setup_pick', '', [None] * 6, dict(kind='comm', to='gs_setup_aux', args=['new', 'p1', 'L2', '0', 'L5', ('c', 1)], comm=(3, 4), opt=True)))
    V.append(('gs_setup', '', [None] * 5, dict(kind='comm', to='gs_setup_aux', args=['new', 'p1', 'L2', '0', ('enum', 'gs_auto'), ('c', 1)], comm=(3, 4), opt=True)))
    # point search
    for ms in ('', 'ms'):
        pts = [None] * (21 if ms else 18)
        a = ['p1', 'S2*4', 'p3', 'S4*4', 'p5', 'S6*4', 'p7', 'S8*8', 'p9', 'S10*8']
        for nd in (2, 3):
            xv = [('arr', ['p11', 'p13', 'p15'][:nd]), ('arr4', ['S12*8', 'S14*8', 'S16*8'][:nd])]
            s = ['p17', 'S18*4', 'p19'] if ms else []
            V.append((f'findpts{ms}', f'{nd}', pts, dict(kind='fp', to=f'findpts{ms}_{nd}', other=f'findpts{ms}_{5 - nd}', nd=nd, args=a + xv + s + [f'L{len(pts) - 1}', 'data'])))
            V.append((f'findpts{ms}_eval', f'{nd}', [None] * 13, dict(kind='fp', to=f'findpts{ms}_eval_{nd}', other=f'findpts{ms}_eval_{5 - nd}', nd=nd, args=['p1', 'S2*8', 'p3', 'S4*4', 'p5', 'S6*4', 'p7', 'S8*4', 'p9', 'S10*8', 'L11', 'p12', 'data'])))
            V.append((f'findpts{ms}_eval_local', f'{nd}', [None] * 9, dict(kind='fp', to=f'findpts{ms}_local_eval_{nd}', other=f'findpts{ms}_local_eval_{5 - nd}', nd=nd, args=['p1', 'S2*8', 'p3', 'S4*4', 'p5', 'S6*8', 'L7', 'p8', ('local', nd)])))
            V.append((f'findpts{ms}_free', f'{nd}', [None], dict(kind='fp', to=f'findpts{ms}_free_{nd}', other=f'findpts{ms}_free_{5 - nd}', nd=nd, args=['data'])))
            V.append((f'findpts{ms}_setup', f'{nd}', [None] * 3 + [nd] + [None] * (17 if ms else 15), dict(kind='comm', to=f'setupms_aux_{nd}', other=f'setupms_aux_{5 - nd}', opt=True, comm=(1, 2),
                args=['new', ('arr', ['p4', 'p5', 'p6'][:nd]), ('arr4', ['L7', 'L8', 'L9'][:nd]), 'L10', ('arr4', ['L11', 'L12', 'L13'][:nd]), 'D14', 'L15', 'L16', 'L17', 'D18'] + (['p19', 'p20', ('c', 1)] if ms else ['0', '0', '0']))))
    # tuples
    V.append(('crystal_ituple_transfer', '', [None] * 6, dict(kind='gs', to='sarray_transfer_many', result=3,
        args=[('arr', [('rec', ['p1', 'L3', 'L4'])]), ('arr4', ['S2*4']), ('c', 1), ('c', 1), '0', ('c', 1), ('key', 5, 0), ('key', 5, 1), 'S2*4', 'obj'])))
    V.append(('crystal_tuple_transfer', '', [None] * 10, dict(kind='gs', to='sarray_transfer_many', result=1,
        args=[('arr', [('rec', ['p3', 'L1', 'L2']), ('rec', ['p5', 'L1', 'L2']), ('rec', ['p7', 'L1', 'L2'])]), ('arr4', ['S4*4', 'S6*8', 'S8*8']), ('c', 3), ('c', 1), '0', ('c', 1), ('key', 9, 0), ('key', 9, 3), 'S4*4', 'obj'])))
    V.append(('crystal_setup', '', [None] * 3, dict(kind='comm', to=None, args=[], comm=(1, 2))))
    V.append(('crystal_free', '', [None], dict(kind='gs', to='crystal_free', args=['obj'])))
    for nk in (1, 2, 3):
        V.append(('crystal_ituple_sort', f'{nk}', [None] * 5 + [nk], dict(kind='sort', nk=nk, n=3, keys=4, parts=[(1, 2, 4, 'sortp_ui')])))
        V.append(('crystal_tuple_sort', f'{nk}', [None] * 9 + [nk], dict(kind='sort', nk=nk, n=1, keys=8, parts=[(2, 3, 4, 'sortp_ui'), (4, 5, 8, 'sortp_ul'), (6, 7, 8, None)])))
    return V

def witness(V):
    o = [f'#include <{h}>' for h in ('stddef.h', 'stdlib.h', 'string.h', 'float.h', 'math.h')]
    o += [f'#include "{h}"' for h in ('c99.h', 'name.h', 'fail.h', 'types.h', 'gs_defs.h', 'mem.h', 'comm.h', 'crystal.h', 'gs.h')]
    o += [f'#undef {n}' for n in sorted({v[0] for v in V})]
    seen = set()
    for n, tag, a, c in V:
        if n not in seen:
            o.append(f'void {F(n)}({",".join(["void*"] * len(a))});'); seen.add(n)
        ps = ','.join(f'void*p{i}' for i, x in enumerate(a))
        ks = ''.join(f'int k{i}={x};' for i, x in enumerate(a) if x is not None)
        o.append(f'void w__{n}__{tag}({ps}){{{ks}{F(n)}({",".join(f"p{i}" if x is None else f"&k{i}" for i, x in enumerate(a))});}}')
    for e in list(DOMS.values()) + list(OPC.values()) + ['gs_auto']: o.append(f'int r__{e}(void){{return {e};}}')
    return '\n'.join(o) + '\n'

PASSES = ('always-inline,function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify,lcssa,loop(loop-rotate,indvars),loop-unroll<O3;full-unroll-max=8;no-partial;no-runtime;no-peeling>,'
          'sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,early-cse<memssa>,adce)')
def residual(cfg, V):
    with build.Scratch() as d:
        objs = build.compile_units(cfg, d)
        w = d + '/wit.c'; open(w, 'w').write(witness(V)); o = d + '/wit.ll'
        build.run([build.CLANG, '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-w', '-g', '-std=gnu11', '-S', '-emit-llvm', *build.incs(), *build.CONFIGS[cfg], w, '-o', o], 'witness')
        a = build.link(objs + [o], d, None); t = open(a).read()
        t = build.inline_helpers(t, lambda n: n in KEEP)
        t = re.sub(r'^(define (?:dso_local )?\w+ @fgslib_\w+\([^\n]*?)( #\d+)?( !dbg !\d+)? \{$', lambda m: m.group(1) + ' alwaysinline' + (m.group(2) or '') + (m.group(3) or '') + ' {', t, flags=re.M)
        t = t.replace('llvm.loop.unroll.disable', 'llvm.loop.unroll.none')
        open(a, 'w').write(t)
        n = d + '/n.ll'
        build.run([build.OPT, '-S', '-unroll-threshold=20000', '-passes=' + PASSES, a, '-o', n], 'specialise')
        return ir.Module(open(n).read())

def check(r):
    parallel(part, build.ALL, r)
    r.need('call', 150); r.need('argument', 1000); r.need('result', 2); r.need('communicator', 3); r.need('sort', 10)
    r.assume += ['type codes 1, 2, 3 are real*8, integer and global integer; operation codes 1 to 4 are sum, product, minimum, maximum',
                 'a set-up routine that is no longer recognisable by name (gs_setup_aux, setupms_aux_2/3) leaves its arguments unjudged']

def part(r, cfg):
    V = variants(); m = residual(cfg, V); m.cfg = cfg
    enum = {}
    for f in m.funcs.values():
        k = re.match(r'@r__(\w+)$', f.name)
        if k: enum[k.group(1)] = f.blocks[-1].term.ops[0]
    noret = noret_funcs(m)
    for n, tag, a, c in V:
        f = m.funcs[f'@w__{n}__{tag}']
        T(r, m, f, n, a, c, enum, noret).run()

class T:
    def __init__(s, r, m, f, n, a, c, enum, noret):
        s.r, s.m, s.f, s.n, s.a, s.c, s.enum, s.noret = r, m, f, n, a, c, enum, noret
        s.P = PN(f); s.F = Facts(f, noret); s.x = Ex(f)
        s.names = None
    def bad(s, rule, key, i, text): s.r.bad(rule, f'{s.n}:{key}', i.where if i is not None else 'src', f'{s.n}: {text}')
    def calls(s, names):
        return [i for i in s.f.insts() if i.op == 'call' and i.bb not in s.skip and base(s.m, i) in names]
    def every(s, cs):
        """each live way to a return passes one of the calls, and no path two"""
        bl = {c.bb for c in cs}
        wl = [s.f.blocks[0]]; seen = set()
        while wl:
            b = wl.pop()
            if b in seen or b in s.F.dead or b in s.skip: continue
            seen.add(b)
            if b in bl: continue
            if b.term.op == 'ret': return False
            wl += [y for y in b.succs if s.A is None or (b, y) in s.A.edges]
        return True
    A = None
    def run(s):
        c = s.c; s.skip = {b for b in s.f.blocks if s.F.unreachable(b)} | s.F.dead
        if c['kind'] == 'sort': return s.sort()
        if c['kind'] == 'fp':
            # the object's dimension decides
            env = {}
            nd = s.ndim()
            if nd: env = {e: c['nd'] for e in nd}
            A = Assume(s.f, s.x, env, s.noret)
            s.skip |= {b for b in s.f.blocks if not A.runs(b)}; s.A = A
        if c.get('comm'): s.comm()
        if c['to'] is None: return
        cs = s.calls({c['to']})
        if not cs:
            if c.get('opt') and c['to'] not in {s.m.base(n) for n in s.m.funcs}: return
            return s.bad('call', 'call', None, f'does not call {c["to"]}')
        oc = s.calls({c.get('other')}) + [i for i in s.calls(ROUTINES) if base(s.m, i) != c['to'] and base(s.m, i) != c.get('other')]
        if oc: return s.bad('call', 'other', oc[0], f'calls {base(s.m, oc[0])} where it should call {c["to"]}')
        if not s.every(cs): return s.bad('call', 'path', cs[0], f'may return without calling {c["to"]}')
        for i in cs:
            if any(j is not i and (j.bb is i.bb or reaches(i.bb, j.bb)) for j in cs): return s.bad('call', 'twice', i, f'may call {c["to"]} twice')
        s.r.ok('call')
        for i in cs:
            for k, want in enumerate(c['args']): s.arg(i, k, want)
            if 'result' in c: s.result(i, c['result'])
    # ------------------------------------------------------------ expected values
    def par(s, k): return s.P.atom(('p', k))
    def load(s, k):
        if s.a[k] is not None: return s.P.const(s.a[k])
        return s.P.atom(('ld', s.P.k(s.par(k))))
    def want(s, w):
        P = s.P
        if isinstance(w, tuple):
            if w[0] == 'c': return P.const(w[1])
            if w[0] == 'dom': return P.const(s.enum[DOMS[w[1]]])
            if w[0] == 'op': return P.const(s.enum[OPC[w[1]]])
            if w[0] == 'enum': return P.const(s.enum[w[1]])
            if w[0] == 'tr': return P.const(int(w[1] != 0))
            if w[0] == 'fld': return P.add(s.par(1), P.mul(s.load(2), P.const(w[1] * w[2])))
            if w[0] == 'key': 
                k = P.mul(P.add(s.load(w[1]), P.const(-1)), P.const(4))
                return P.add(s.par(w[2]), k) if w[2] else k
        if w == '0': return {}
        if w[0] == 'p': return s.par(int(w[1:]))
        if w[0] in 'LD': return s.load(int(w[1:]))
        if w[0] == 'S':
            k, z = w[1:].split('*'); return P.mul(s.load(int(k)), P.const(int(z)))
    def obj(s, p):
        """p is (a pointer loaded from) the entry of a registry selected by the first argument: (ok, offset)"""
        if len(p) < 1: return None
        off = p.get((), 0); at = [(m, c) for m, c in p.items() if m]
        if len(at) != 1 or at[0][1] != 1 or len(at[0][0]) != 1: return None
        a = at[0][0][0]
        if a[0] != 'ld': return None
        q = dict(a[1])                       # address of the entry: registry + size*handle (+ field)
        h = ('ld', s.P.k(s.par(0)))
        reg = [m for m in q if len(m) == 1 and m[0][0] == 'ld' and len(dict(m[0][1])) == 1 and list(dict(m[0][1]))[0][0][0] == 'g']
        if len(reg) != 1 or q.get((h,), 0) not in (8, 16, 24, 32) or set(q) - {reg[0], (h,), ()}: return None
        return list(dict(reg[0][0][1]))[0][0][1], q.get((), 0), off
    def ndim(s):
        out = set()
        for i in s.f.insts():
            if i.op == 'load' and i.ty == 'i32':
                p = s.P.n(i.name)
                if s.obj(p) and s.obj(p)[2] == 0: out.add(('ld', s.x.e(i.ops[0])))
        return out
    def localoff(s, nd):
        for t in s.m.types:
            if s.m.sname(t) == f'findpts_data_{nd}':
                for k in range(len(s.m.resolve(t)[1])):
                    if s.m.fname(t, k) == 'local': return s.m.field_off(t, k)
        return None
    def arg(s, i, k, w):
        if k >= len(i.ops): return s.bad('argument', f'{k}', i, f'argument {k + 1} is missing')
        v = i.ops[k]; p = s.P.n(v)
        lab = f'{base(s.m, i)}:{k}'
        if w == 'new': return
        if w in ('obj', 'data') or isinstance(w, tuple) and w[0] == 'local':
            o = s.obj(p); off = s.localoff(w[1]) if isinstance(w, tuple) else 0
            if off is None: return
            if not o or o[2] != off: return s.bad('argument', lab, i, f'argument {k + 1} of {base(s.m, i)} is not the object of the handle')
            s.r.ok('argument'); return
        if isinstance(w, tuple) and w[0] in ('arr', 'arr4'):
            z = 8 if w[0] == 'arr' else 4
            for j, y in enumerate(w[1]):
                q = s.cell(s.P.add(p, s.P.const(z * j)), i)
                if q is None: s.r.notes_add(f'{s.n}: element {j} of argument {k + 1} could not be followed') if hasattr(s.r, 'notes_add') else None; continue
                if isinstance(y, tuple) and y[0] == 'rec':
                    for (off, u) in zip((s.foff('array', 'ptr'), s.foff('array', 'n'), s.foff('array', 'max')), y[1]):
                        g = s.cell(s.P.add(q, s.P.const(off)), i)
                        if g is None: continue
                        s.cmp(i, f'{lab}:{j}:{off}', g, s.want(u), f'part of element {j + 1} of argument {k + 1} of {base(s.m, i)}')
                else: s.cmp(i, f'{lab}:{j}', q, s.want(y), f'element {j + 1} of argument {k + 1} of {base(s.m, i)}')
            return
        s.cmp(i, lab, p, s.want(w), f'argument {k + 1} of {base(s.m, i)}')
    def foff(s, st, fl):
        for t in s.m.types:
            if s.m.sname(t) == st:
                for k in range(len(s.m.resolve(t)[1])):
                    if s.m.fname(t, k) == fl: return s.m.field_off(t, k)
    def cmp(s, i, key, got, want, what):
        if got == want: s.r.ok('argument')
        elif any(z[0] in ('x', 'select') for m in got for z in m if m):
            # chosen at run time: unfolded
            s.bad('argument', key, i, f'{what} is {s.P.show(got)}, expected {s.P.show(want)}')
        else: s.bad('argument', key, i, f'{what} is {s.P.show(got)}, expected {s.P.show(want)}')
    def cell(s, addr, at):
        """what the last store before the call put at this address"""
        best = None
        for j in s.f.insts():
            if j.op == 'store' and s.P.n(j.ops[1]) == addr and s.f.idominates(j, at):
                if best is None or s.f.idominates(best, j): best = j
        if best is None: return None
        return s.P.n(best.ops[0])
    def result(s, i, k):
        st = [j for j in s.f.insts() if j.op == 'store' and s.P.n(j.ops[1]) == s.par(k) and j.bb not in s.skip]
        for j in st:
            if s.P.n(j.ops[0]) == s.P.n(i.name) and j.bb is i.bb or s.P.n(j.ops[0]) == s.P.n(i.name) and s.f.pdominates(j.bb, i.bb): s.r.ok('result'); return
        s.bad('result', 'result', i, f'does not store what {base(s.m, i)} reports in argument {k + 1}')
    def comm(s):
        c, n = s.c['comm']; P = s.P
        f2c = s.calls({'MPI_Comm_f2c'})
        if s.m.cfg != 'serial':
            if not f2c: return s.bad('communicator', 'comm', None, 'does not use the communicator it is given')
            for i in f2c:
                if P.n(i.ops[0]) != s.load(c): return s.bad('communicator', 'comm', i, 'uses another value as its communicator')
            for i in s.calls({'MPI_Comm_dup'}):
                if not any(P.n(i.ops[0]) == P.n(j.name) for j in f2c): return s.bad('communicator', 'dup', i, 'works on another communicator than the one given')
        # the number of processes is compared with the one given
        rets = [b for b in s.f.blocks if b.term.op == 'ret' and b not in s.skip]
        want = s.x.e(None) if False else None
        ok = rets and all(any(p == 'eq' and (a == ('ld', ('p', n)) or q == ('ld', ('p', n))) for p, a, q in s.F.at(b)) for b in rets)
        if ok: s.r.ok('communicator')
        else: s.bad('communicator', 'np', None, 'does not compare the number of processes with the one given')
    # ------------------------------------------------------------ sorting
    def sort(s):
        c = s.c; P = s.P; nk = c['nk']
        names = {p[3] for p in c['parts'] if p[3]}
        calls = [i for i in s.f.insts() if i.op == 'call' and i.bb not in s.skip and (base(s.m, i) or '').startswith('sortp_')]
        n = s.load(c['n'])
        if not calls: return s.bad('sort', 'sort', None, 'does not sort')
        bykey = {}
        for i in calls:
            buf, flag, adr, cnt, step = i.ops
            # which array, which key
            p = P.n(adr); hit = None
            for (base_, cnt_, size, fn) in c['parts']:
                if not fn: continue
                for j in range(nk):
                    kv = P.atom(('ld', P.k(P.add(s.par(c['keys']), P.const(4 * j)))))
                    w = P.add(s.par(base_), P.mul(P.add(kv, P.const(-1)), P.const(size)))
                    if base_ != c['parts'][0][0]: w = P.add(w, P.mul(s.load(c['parts'][0][1]), P.const(-size)))
                    if p == w: hit = (j, base_, cnt_, size, fn)
            if not hit: s.bad('sort', 'address', i, f'sorts by {P.show(p)}, which is not a requested column'); continue
            j, b_, cn, size, fn = hit
            bn = base(s.m, i)
            if bn not in ((fn,) if fn == 'sortp_ui' else ('sortp_ul', 'sortp_ull')): s.bad('sort', 'width', i, f'sorts a column of {size}-byte integers with {bn}'); continue
            if P.n(cnt) != n: s.bad('sort', 'count', i, 'sorts another number of columns than given'); continue
            if P.n(step) != P.mul(s.load(cn), P.const(size)): s.bad('sort', 'stride', i, f'steps through the columns by {P.show(P.n(step))}'); continue
            s.r.ok('sort')
            bykey.setdefault(j, []).append(i)
            fl = P.n(flag)
            if j == nk - 1 and fl != {}: s.bad('sort', 'first', i, 'starts from an old order')
            elif j != nk - 1 and (fl == {} or set(fl) != {()}): s.bad('sort', 'next', i, 'does not continue from the order of the less significant keys')
            else: s.r.ok('sort')
            o = s.obj(P.n(buf))
            if not o: s.bad('sort', 'buffer', i, 'does not use the scratch space of the handle')
        for j in range(nk):
            if j not in bykey: s.bad('sort', 'keys', None, f'with {nk} keys, key {j + 1} is not used'); return
        # the key number says which array it is in
        if c['parts'][1:]:
            b0, mi, b1 = c['parts'][0][0], c['parts'][0][1], c['parts'][1][0]
            for j in range(nk):
                lds = {('ld', s.x.e(i.ops[0])) for i in s.f.insts() if i.op == 'load' and P.n(i.ops[0]) == P.add(s.par(c['keys']), P.const(4 * j))}
                for kv, arr in ((1, b0), (2, b0), (3, b1), (4, b1)):
                    A = Assume(s.f, s.x, {**{l: kv for l in lds}, ('ld', ('p', mi)): 2, ('ld', ('p', c['parts'][1][1])): 2}, s.noret)
                    run = [i for i in bykey[j] if A.runs(i.bb)]
                    good = [i for i in run if any(z == ('p', arr) for m_ in P.n(i.ops[2]) for z in m_)]
                    if len(run) != len(good) or not good: s.bad('sort', 'column', (run or bykey[j])[0], f'key {kv} with 2 integer columns is not looked up in column {kv if arr == b0 else kv - 2} of argument {arr + 1}'); return
            s.r.ok('sort')
        # least significant first
        for j in range(nk - 1):
            for a in bykey[j]:
                for b in bykey[j + 1]:
                    if reaches(a.bb, b.bb) and a.bb is not b.bb or a.bb is b.bb and s.f.idominates(a, b): s.bad('sort', 'order', a, 'a more significant key is sorted before a less significant one'); return
        s.r.ok('sort')
        perm = [i for i in s.f.insts() if i.op == 'call' and i.bb not in s.skip and base(s.m, i) == 'sarray_permute_buf_']
        for (b_, cn, size, fn) in c['parts']:
            ps = [i for i in perm if P.n(i.ops[2]) == s.par(b_)]
            if len(ps) != 1: s.bad('sort', 'permute', None, f'array {b_ + 1} is permuted {len(ps)} times'); continue
            i = ps[0]
            if P.n(i.ops[0]) != P.const(size) or P.n(i.ops[1]) != P.mul(s.load(cn), P.const(size)) or P.n(i.ops[3]) != n: s.bad('sort', 'permute-args', i, f'array {b_ + 1} is permuted with another size or count'); continue
            for a in calls:
                if reaches(i.bb, a.bb): s.bad('sort', 'permute-order', i, 'permutes before all keys are sorted'); break
            else: s.r.ok('sort')
            # skipped only when the array has no rows
            if not s.every([i]) and not s.skipok(i, cn): s.bad('sort', 'permute-path', i, f'array {b_ + 1} may be left unpermuted')
            else: s.r.ok('sort')
    def skipok(s, i, cn):
        A = Assume(s.f, s.x, {('ld', ('p', cn)): 1}, s.noret)
        s.A = A
        try: return s.every([i])
        finally: s.A = None

ROUTINES = {f'{p}gs{q}' for p in ('', 'i') for q in ('', '_vec', '_many')} | {'gs_wait', 'gs_free', 'gs_unique', 'gs_setup', 'sarray_transfer_many', 'crystal_free'} | {f'findpts{ms}{k}_{n}' for ms in ('', 'ms') for k in ('', '_eval', '_local_eval', '_free', '_setup') for n in (2, 3)}
def base(m, i):
    n = cname(m, i)
    return n
def reaches(a, b):
    seen = set(); wl = list(a.succs)
    while wl:
        y = wl.pop()
        if y is b: return True
        if y in seen: continue
        seen.add(y); wl += y.succs
    return False
