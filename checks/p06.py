"""P06: every data type and operation is served by its own exact kernel"""
import re, struct
import an, build, ir
from an import *

EXPLANATION = ('Partial evaluation: a generated unit calls every kernel entry point with each constant (type, operation) pair; after inlining and constant folding in the compiler what is left of '
  'the library is exactly the code that pair executes (LLVM IR). '
  'R1 element-type: every access to the data has the type of the pair. R2 operation: the values stored are the reduction of the pair (opcode, signedness and direction of comparisons), nothing else. '
  'R3 identity: initialisation stores the neutral element, in the exact representation of the type. R4 layout: element offsets are map index x stride (x 1 or x vector length) x element size; byte counts are element size x count. '
  'R5 message-layer: the reduction handed to MPI is the MPI type and operation of the pair, with the count given. R6 tables of element sizes in all units. R7 callers pass type and operation on unchanged.')
OPS = ['add', 'mul', 'min', 'max', 'bpr']
IRT = {'double': 'double', 'float': 'float', 'int': 'i32', 'long': 'i64', 'long_long': 'i64'}
SZ = {'double': 8, 'float': 4, 'int': 4, 'long': 8, 'long_long': 8}
MPI = {'double': 'MPI_DOUBLE', 'float': 'MPI_FLOAT', 'int': 'MPI_INT', 'long': 'MPI_LONG', 'long_long': 'MPI_LONG_LONG'}
MOP = {'add': 'MPI_SUM', 'mul': 'MPI_PROD', 'min': 'MPI_MIN', 'max': 'MPI_MAX'}
DBL_MAX = 1.7976931348623157e308; FLT_MAX = struct.unpack('f', struct.pack('I', 0x7f7fffff))[0]
def identity(d, op):
    if op in ('add', 'bpr'): return 0
    if op == 'mul': return 1
    b = {'int': 31, 'long': 63, 'long_long': 63}.get(d)
    hi = {'double': DBL_MAX, 'float': FLT_MAX}.get(d) or 2 ** b - 1
    lo = -hi if b is None else -2 ** b
    return hi if op == 'min' else lo

FORMS = {  # entry -> (terms of the offset into out, into in); None: not an argument
 'gather_array': ({'K'}, {'K'}), 'init_array': ({'K'}, None),
 'gather': ({'M'}, {'M'}), 'gather_vec': ({'M*vn', 'K'}, {'M*vn', 'K'}), 'gather_many': ({'*', 'M'}, {'*', 'M'}), 'gather_vec_to_many': ({'*', 'M'}, {'M*vn', 'K'}),
 'init': ({'M'}, None), 'init_vec': ({'M*vn', 'K'}, None), 'init_many': ({'*', 'M'}, None),
 'scatter': ({'M'}, {'M'}), 'scatter_vec': ({'M*vn'}, {'M*vn'}), 'scatter_many': ({'*', 'M'}, {'*', 'M'}),
 'scatter_many_to_vec': ({'M*vn', 'K'}, {'*', 'M'}), 'scatter_vec_to_many': ({'*', 'M'}, {'M*vn', 'K'}),
}
def witness(doms, mpi):
    o = ['#include <' + h + '>' for h in ('stddef.h', 'stdlib.h', 'string.h')] + [f'#include "{h}"' for h in ('name.h', 'fail.h', 'types.h', 'gs_defs.h', 'gs_local.h', 'comm.h')]
    for d in doms:
        D = f'gs_{d}'
        for op in OPS:
            a = f'{d}__{op}'; P = f'gs_{op}'
            o.append(f'void w_gather_array__{a}(void*o,const void*i,uint vn){{gs_gather_array(o,i,vn,{D},{P});}}')
            o.append(f'void w_init_array__{a}(void*o,uint vn){{gs_init_array(o,vn,{D},{P});}}')
            for k in ('', '_vec', '_many', '_vec_to_many'):
                o.append(f'void w_gather{k}__{a}(void*o,const void*i,unsigned vn,const uint*m){{gs_gather{k}(o,i,vn,m,{D},{P});}}')
            for k in ('', '_vec', '_many'):
                o.append(f'void w_init{k}__{a}(void*o,unsigned vn,const uint*m){{gs_init{k}(o,vn,m,{D},{P});}}')
            o.append(f'{d} w_reduce__{a}(const struct comm*c,const {d}*i,uint vn){{return GS_PREFIXED_NAME(comm_reduce__{d})(c,{P},i,vn);}}')
            o.append(f'void w_allreduce__{a}(const struct comm*c,void*o,uint vn,void*i){{comm_allreduce(c,{D},{P},o,vn,i);}}')
            o.append(f'void w_iallreduce__{a}(comm_req*r,const struct comm*c,void*o,uint vn,void*i){{comm_iallreduce(r,c,{D},{P},o,vn,i);}}')
            o.append(f'void w_scan__{a}(void*o,const struct comm*c,const void*v,uint vn,void*i){{comm_scan(o,c,{D},{P},v,vn,i);}}')
        for k in ('', '_vec', '_many', '_many_to_vec', '_vec_to_many'):
            o.append(f'void w_scatter{k}__{d}(void*o,const void*i,unsigned vn,const uint*m){{gs_scatter{k}(o,i,vn,m,{D});}}')
        if mpi: o.append(f'MPI_Datatype r_type__{d}(void){{return {MPI[d]};}}')
    o.append('double w_dot__double__add(const struct comm*c,double*v,double*i,uint vn){return comm_dot(c,v,i,vn);}')
    if mpi: o += [f'MPI_Op r_op__{k}(void){{return {v};}}' for k, v in MOP.items()] + ['MPI_Datatype r_byte(void){return MPI_UNSIGNED_CHAR;}']
    return '\n'.join(o) + '\n'

PASSES = 'always-inline,function(mem2reg,sccp,simplifycfg,instcombine<no-verify-fixpoint>,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,adce)'
def residual(flags, doms, mpi):
    with build.Scratch() as d:
        objs = build.compile_units(None, d, flags=flags, only={'comm.c', 'gs_local.c', 'tensor.c'})
        w = d + '/wit.c'; open(w, 'w').write(witness(doms, mpi)); o = d + '/wit.ll'
        build.run([build.CLANG, '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-w', '-g', '-std=gnu11', '-S', '-emit-llvm', *build.incs(), *flags, w, '-o', o], 'witness')
        a = build.link(objs + [o], d, None); t = open(a).read()
        t = re.sub(r'^(define (?!.*@[wr]_)[^\n]*?)( #\d+)?( !dbg !\d+)? \{$', lambda m: m.group(1) + ' alwaysinline' + (m.group(2) or '') + (m.group(3) or '') + ' {', t, flags=re.M)
        open(a, 'w').write(t.replace(' noinline ', ' ').replace(' optnone ', ' '))
        n = d + '/n.ll'
        build.run([build.OPT, '-S', '-passes=' + PASSES, a, '-o', n], 'specialise')
        return ir.Module(open(n).read())

class W:
    """one residual function"""
    def __init__(s, f, names):
        s.f = f; s.role = {}
        for (p, t) in f.params:
            s.role[p] = p[1:]
        s.memo = {}
    def root(s, v, seen=None):
        """what an address is derived from: an argument, '*o'/'*i', '&local', or None"""
        seen = seen if seen is not None else set()
        if not isinstance(v, str) or v in seen: return set()
        seen.add(v)
        if v in s.role: return {s.role[v]}
        d = s.f.defs.get(v)
        if d is None: return {None}
        if d.op == 'alloca': return {'&' + v}
        if d.op in ('getelementptr', 'bitcast', 'freeze'): return s.root(d.ops[0], seen)
        if d.op in ('phi', 'select'):
            out = set()
            for x in d.ops[d.op == 'select':]: out |= s.root(x, seen)
            return out
        if d.op == 'load' and d.ty == 'ptr':
            b = s.root(d.ops[0], seen)
            a = s.addr(v)
            return {a[0]} if a else {None}
        return {None}
    def side(s, v):
        r = s.root(v)
        return r.pop() if len(r) == 1 else None
    # -- addresses -> (root, {monomial: coefficient in bytes})
    def addr(s, v, depth=0):
        if v in s.memo: return s.memo[v]
        if not isinstance(v, str) or depth > 60: return None
        if v in s.role: return (s.role[v], {})
        d = s.f.defs.get(v)
        if d is None: return None
        if d.op == 'alloca': return ('&' + v, {})
        if d.op == 'load' and d.ty == 'ptr':
            b = s.addr(d.ops[0], depth + 1)
            if b and b[0] in ('o', 'i'):
                good = b[1] == {('K',): 8}
                return ('*' + b[0] if good else None, {}) if good else None
            if b and b[0][0] == '&':            # a pointer kept in a local array
                rs = set()
                for x in s.f.insts():
                    if x.op == 'store' and x.ty == 'ptr':
                        q = s.addr(x.ops[1], depth + 1)
                        if q and q[0] == b[0] and q[1] == b[1]:
                            z = s.addr(x.ops[0], depth + 1); rs.add((z[0], tuple(sorted(z[1].items()))) if z else None)
                if len(rs) == 1 and None not in rs:
                    z = rs.pop(); return (z[0], dict(z[1]))
            return None
        if d.op == 'getelementptr':
            b = s.addr(d.ops[0], depth + 1)
            if b is None: return None
            p = dict(b[1]); t = d.extra; first = True
            for x in d.ops[1:]:
                if not first:
                    rt = s.f.mod.resolve(t)
                    if rt[0] == 'st':
                        k = s.f.mod.field_off(t, x); t = rt[1][x]
                        if k: p[()] = p.get((), 0) + k
                        continue
                    t = rt[2]
                first = False
                e = s.poly(x, depth + 1)
                if e is None: return None
                for m, c in e.items(): p[m] = p.get(m, 0) + c * s.f.mod.size(t)
            return (b[0], {m: c for m, c in p.items() if c})
        if d.op == 'phi':
            s.memo[v] = ('#' + v, {})
            xs = [s.addr(x, depth + 1) for x in d.ops]
            del s.memo[v]
            init = [x for x in xs if x is None or x[0] != '#' + v]; rec = [x for x in xs if x is not None and x[0] == '#' + v]
            if not init or any(x is None for x in init) or any(x != init[0] for x in init): return None
            if any(x is not None and x[0].startswith('#') and x[0] != '#' + v for x in xs): return None
            st = {tuple(sorted(x[1].items())) for x in rec}
            if not rec: return init[0]
            if len(st) != 1: return None
            k = dict(st.pop())
            if set(k) != {()}: return None
            p = dict(init[0][1]); p[('K',)] = p.get(('K',), 0) + abs(k[()])
            if k[()] < 0: p[()] = p.get((), 0) - k[()]; p = {m: c for m, c in p.items() if m in ((), ('K',)) or True}
            r = (init[0][0], {m: c for m, c in p.items() if c}); s.memo[v] = r
            return r
        if d.op in ('bitcast', 'freeze'): return s.addr(d.ops[0], depth + 1)
        if d.op == 'select':
            a, b = s.addr(d.ops[1], depth + 1), s.addr(d.ops[2], depth + 1)
            return a if a == b else None
        return None
    def bufs(s):
        """local buffers: those that are not started with the neutral element"""
        if not hasattr(s, '_b'):
            init = {s.side(i.ops[1]) for i in s.f.insts() if i.op == 'store' and fval(i.ops[0]) is not None}
            s._b = {'&' + i.name for i in s.f.insts() if i.op == 'alloca'} - init
        return s._b
    def poly(s, v, depth=0):
        if isinstance(v, int): return {(): v} if v else {}
        if not isinstance(v, str) or depth > 60: return None
        if v in s.memo: return s.memo[v]
        if v in s.role: return {(s.role[v],): 1}
        d = s.f.defs.get(v)
        if d is None: return None
        if d.op in ('zext', 'sext', 'trunc', 'freeze'): return s.poly(d.ops[0], depth + 1)
        if d.op == 'load':
            return {('M',): 1} if s.side(d.ops[0]) == 'm' else {(v,): 1}
        if d.op in ('add', 'sub', 'mul', 'shl', 'or'):
            a, b = s.poly(d.ops[0], depth + 1), s.poly(d.ops[1], depth + 1)
            if a is None or b is None: return None
            if d.op == 'shl':
                if set(b) - {()}: return None
                b = {(): 1 << b.get((), 0)}; o = 'mul'
            else: o = d.op
            r = {}
            if o == 'mul':
                for m, c in a.items():
                    for n, e in b.items():
                        k = tuple(sorted(m + n)); r[k] = r.get(k, 0) + c * e
            else:
                sg = -1 if o == 'sub' else 1
                for m, c in a.items(): r[m] = r.get(m, 0) + c
                for m, c in b.items(): r[m] = r.get(m, 0) + sg * c
            return {m: ((c + 2 ** 31) % 2 ** 32 - 2 ** 31 if d.ty == 'i32' else c) for m, c in r.items() if c}
        if d.op == 'phi':
            s.memo[v] = {('#' + v,): 1}
            xs = [s.poly(x, depth + 1) for x in d.ops]; del s.memo[v]
            if any(x is None for x in xs): return None
            me = ('#' + v,)
            rec = [x for x in xs if me in x]; init = [x for x in xs if me not in x]
            if not rec:
                return init[0] if all(x == init[0] for x in init) else None
            st = {tuple(sorted((m, c) for m, c in x.items() if m != me)) for x in rec}
            if len(init) != 1 or len(st) != 1 or any(x[me] != 1 for x in rec): return None
            stp = dict(st.pop())
            if set(stp) - {()}: return None
            k = stp.get((), 0)
            if k > 0: r = dict(init[0]); r[('K',)] = r.get(('K',), 0) + k
            else: r = {('K',): -k, (): init[0].get((), 0) + 1}
            r = {m: c for m, c in r.items() if c}; s.memo[v] = r; return r
        return {(v,): 1}

def terms(p):
    return {'*'.join(sorted(m, key=lambda x: (x != 'M', x))) or '1' for m in p}

def check(r):
    parallel(part, [('nbc', True), ('default', True), ('serial', True), ('nolonglong', True), ('tables', False), ('pass', False)], r)
    r.need('operation', 500); r.need('element-type', 900); r.need('identity', 200); r.need('layout', 700); r.need('message-layer', 80); r.need('element-size-table', 10); r.need('passed-on', 30)
    r.assume += ['MPI reductions compute the operation they are named after', 'the exact rounding order of sums and products is not constrained']

def part(r, a):
    cfg, k = a
    if cfg == 'tables': return tables(r)
    if cfg == 'pass': return passed(r)
    flags = build.CONFIGS.get(cfg) or [x for x in build.CONFIGS['nbc'] if 'LONG_LONG' not in x]
    doms = [d for d in IRT if cfg != 'nolonglong' or d != 'long_long']; mpi = '-DGSLIB_USE_MPI' in flags
    m = residual(flags, doms, mpi)
    ref = {}
    for f in m.funcs.values():
        if f.name.startswith('@r_'):
            ref[f.name[3:]] = [i for i in f.insts() if i.op == 'ret'][0].ops[0]
    n = 0
    for f in m.funcs.values():
        if not f.name.startswith('@w_'): continue
        q = f.name[3:].split('__'); ent, d = q[0], q[1]; op = q[2] if len(q) > 2 else None
        one(r, f, ent, d, op, ref, cfg); n += 1
    r.cov['specialised_routines'] = r.cov.get('specialised_routines', 0) + n

def fval(v):
    return v[1] if isinstance(v, tuple) and v[0] == 'f' else v if isinstance(v, int) else None

def one(r, f, ent, d, op, ref, cfg):
    T, S = IRT[d], SZ[d]; key0 = f'{ent}/{d}' + (f'/{op}' if op else ''); what = ent + f' for {d}' + (f', {op}' if op else '')
    w = W(f, None); w.ent = ent
    noret = {i for i in f.insts() if i.op == 'unreachable'}
    live = f.live()
    def bad(rule, k, i, msg): r.bad(rule, f'{key0}:{k}', i.where if i is not None else '?', f'{what}: {msg}')
    data = []   # (inst, kind, side, poly)
    calls = []
    for b in f.blocks:
        for i in b.insts:
            if i.op in ('load', 'store'):
                ad = i.ops[0] if i.op == 'load' else i.ops[1]
                side = w.side(ad)
                if side is None: continue
                a = w.addr(ad)
                if side in ('m', 'c', 'r'): continue
                if side[0] == '&' and i.ty == 'ptr': continue
                if ent.endswith('many') and i.ty == 'ptr' and side in ('o', 'i'): continue
                if ent == 'scatter_many_to_vec' and i.ty == 'ptr' and side == 'i': continue
                if i.ty in ('i32', 'ptr') and side[0] == '&' and ent in ('reduce', 'dot', 'allreduce', 'iallreduce', 'scan') and i.ty != T: continue   # request slots and the like
                if ent == 'dot' and side[0] == '&': continue
                if i.ty != T and raw_copy(w, i) == S: r.ok('element-type'); continue
                if ent == 'scatter_vec' and i.ty == 'i8': r.ok('element-type')
                elif i.ty != T: bad('element-type', i.op + side, i, f'{"reads" if i.op == "load" else "writes"} an element as {i.ty}, not {T}')
                else: r.ok('element-type')
                data.append((i, i.op, side, a and a[1]))
            elif i.op == 'call': calls.append(i)
    stores = [x for x in data if x[1] == 'store']
    # ---- layout
    fm = FORMS.get(ent)
    for i, k, side, p in data:
        if p is None: continue
        if fm:
            want = fm[0] if side.lstrip('*') == 'o' else fm[1] if side.lstrip('*') == 'i' else None
            if want is None: continue
            if side[0] == '*' and '*' not in want or side[0] != '*' and '*' in want: bad('layout', 'indirection' + side, i, f'{"output" if side[-1] == "o" else "input"} is not addressed as {"one array" if "*" not in want else "an array of arrays"}'); continue
            t = terms(p); wt = want - {'*'}
            if ent == 'scatter_vec' and t == {'M*vn', 'K'} and p[('K',)] == f.mod.size(i.ty): p = {m: c for m, c in p.items() if m != ('K',)}; t = terms(p)   # element by element
            if t != wt or any(c != S for c in p.values()):
                bad('layout', f'offset{side}', i, f'the {"output" if side[-1] == "o" else "input"} offset is {show(p)} bytes, expected {S} x ({" + ".join(sorted(wt))})')
            else: r.ok('layout')
        elif side.lstrip('&*')[:1] != '%' or True:
            # reductions: consecutive elements
            q = {m: c for m, c in p.items() if m not in ((), ('vn',))}
            if ent in ('scan', 'allreduce', 'iallreduce', 'reduce', 'dot') and q and q != {('K',): S}: bad('layout', f'offset{side}', i, f'elements are {show(q)} bytes apart, not {S}')
            else: r.ok('layout')
    # ---- values
    if ent.startswith('init'):
        if not stores: bad('identity', 'none', f.blocks[0].insts[0], 'writes nothing')
        for i, k, side, p in stores:
            v = fval(i.ops[0])
            if v is None or v != identity(d, op): bad('identity', 'value', i, f'stores {i.ops[0]} as the neutral element, expected {identity(d, op)!r}')
            else: r.ok('identity')
    elif ent.startswith('scatter'):
        n = 0
        for i, k, side, p in stores:
            c = classes(w, i.ops[0], None, d)
            if c != {'IN'}: bad('operation', 'copy', i, 'writes something else than the value read')
            else: r.ok('operation')
            n += 1
        for i in calls:
            if str(i.extra).startswith('@llvm.memcpy'):
                A, B = w.addr(i.ops[0]), w.addr(i.ops[1]); L = w.poly(i.ops[2]); n += 1
                if A and B and (A[0], B[0]) != ('o', 'i'): bad('operation', 'copy', i, 'copies in the wrong direction')
                for x, sd in ((A, fm[0]), (B, fm[1])):
                    if x is None: continue
                    if terms(x[1]) != sd or any(c != S for c in x[1].values()): bad('layout', 'copy', i, f'copies at offset {show(x[1])}, expected {S} x ({" + ".join(sorted(sd))})')
                    else: r.ok('layout')
                if L is not None and L != {('vn',): S}: bad('layout', 'length', i, f'copies {show(L)} bytes, expected {S} x vn')
                else: r.ok('layout')
        if not n: bad('operation', 'none', f.blocks[0].insts[0], 'writes nothing')
    else:
        comb = 0
        for i, k, side, p in stores:
            v = fval(i.ops[0])
            if v is not None:
                if ent in ('reduce', 'scan'):
                    if v != identity(d, op): bad('identity', 'value', i, f'starts from {i.ops[0]}, expected {identity(d, op)!r}')
                    else: r.ok('identity')
                else: bad('operation', 'const', i, f'stores the constant {v}')
                continue
            if ent == 'dot': continue
            if ent == 'reduce' and raw_copy(w, i) and w.side(w.f.defs[i.ops[0]].ops[0]) in w.bufs(): continue   # the reduced value is copied back
            if op == 'bpr': ok, why = bpr(w, i, d)
            else: ok, why = reduction(w, i, op, d)
            if not ok: bad('operation', 'combine', i, why)
            else: r.ok('operation'); comb += 1
        if ent == 'reduce' and not stores:
            for i in f.insts():
                if i.op == 'ret':
                    if op == 'bpr': ok, why = bpr(w, i, d)
                    else: ok, why = reduction(w, i, op, d)
                    if not ok: bad('operation', 'combine', i, why)
                    else: r.ok('operation'); comb += 1
        need = ent.startswith('gather') or ent in ('reduce', 'scan')
        if need and not comb: bad('operation', 'none', f.blocks[0].insts[0], 'does not combine anything')
        if ent == 'dot': return dot(r, w, f, calls, ref, bad)
        if ent in ('reduce', 'allreduce', 'iallreduce', 'scan'): messages(r, w, f, ent, d, op, S, calls, ref, cfg, bad)

def raw_copy(w, i):
    """size of a plain copy (load used by stores only / store of such a load)"""
    f = w.f
    l = i if i.op == 'load' else f.defs.get(i.ops[0]) if isinstance(i.ops[0], str) else None
    if l is None or l.op != 'load': return None
    us = f.users().get(l.name, [])
    if i.op == 'load' and not all(u.op == 'store' and u.ops[0] == l.name or u.op in ('ret', 'bitcast') for u in us): return None
    return f.mod.size(l.ty)

def show(p): return ' + '.join(f'{c}*' + '*'.join(m) if m else str(c) for m, c in p.items()) or '0'

def same(w, x, y):
    """same value: identical, or two reads of the same place"""
    if x == y: return True
    f = w.f; a, b = (f.defs.get(z) if isinstance(z, str) else None for z in (x, y))
    return a is not None and b is not None and a.op == b.op == 'load' and a.ops[0] == b.ops[0]

SIDE_OUT = ('o', '*o')
def classes(w, v, op, d, seen=None):
    """what a value is made of: IN, OUT (old content), ACC (old content reduced with input); BAD text"""
    f = w.f; seen = seen if seen is not None else {}
    if v in seen: return set()
    if not isinstance(v, str): return {'OUT'} if op and w.ent == 'reduce' and fval(v) == identity(d, op) else {'BAD a constant'}
    seen[v] = 1
    D = f.defs.get(v)
    if D is None: return {'BAD an argument'}
    if D.op == 'load':
        a = w.side(D.ops[0])
        if a is None: return {'BAD an unknown location'}
        if a in ('i', '*i') or a in w.bufs(): return {'IN'}
        return {'OUT'}
    if D.op == 'phi':
        # a branch-based minimum or maximum
        mm = phiminmax(w, D)
        if mm:
            return mmclass(w, mm, op, d, seen)
        out = set()
        for x in D.ops: out |= classes(w, x, op, d, seen)
        return out
    if op is None: return {f'BAD a {D.op}'}
    if D.op in ('add', 'fadd', 'mul', 'fmul'):
        if D.op.lstrip('f') != op: return {f'BAD {D.op} where {op} is expected'}
        if D.ty != IRT[d]: return {f'BAD {D.op} in {D.ty}'}
        return join(classes(w, D.ops[0], op, d, seen), classes(w, D.ops[1], op, d, seen))
    if D.op == 'select':
        c = f.defs.get(D.ops[0]) if isinstance(D.ops[0], str) else None
        if c is None or c.op not in ('icmp', 'fcmp'): return {'BAD a choice without comparison'}
        k = pick(w, c, D.ops[1], D.ops[2], True)
        if k is None: return {'BAD a choice not by comparison of the two'}
        return mmclass(w, (k, D.ops[1], D.ops[2]), op, d, seen)
    if D.op == 'call' and re.match(r'@llvm\.[su](min|max)\.', str(D.extra)):
        k = re.match(r'@llvm\.([su])(min|max)\.', D.extra)
        return mmclass(w, ((k.group(2) if k.group(1) == 's' else 'unsigned ' + k.group(2)), D.ops[0], D.ops[1]), op, d, seen)
    return {f'BAD {D.op}'}

def join(a, b):
    bad = {x for x in a | b if x.startswith('BAD')}
    if bad: return bad
    if not a: return {'ACC'} if b <= {'IN'} else {'BAD input missing'}     # recursive operand
    if not b: return {'ACC'} if a <= {'IN'} else {'BAD input missing'}
    if a <= {'IN'} and b <= {'OUT', 'ACC'} or b <= {'IN'} and a <= {'OUT', 'ACC'}: return {'ACC'}
    return {'BAD combines ' + '/'.join(sorted(a)) + ' with ' + '/'.join(sorted(b))}

def pick(w, c, t, e, pol):
    """min/max computed by: c ? t : e (or the reverse)"""
    p = c.extra; x, y = c.ops
    if not pol: t, e = e, t
    lt = {'slt', 'sle', 'olt', 'ole'}; gt = {'sgt', 'sge', 'ogt', 'oge'}; nlt = {'ult', 'ule'}; ngt = {'ugt', 'uge'}
    fl = c.op == 'fcmp'
    if same(w, x, t) and same(w, y, e): sw = False
    elif same(w, x, e) and same(w, y, t): sw = True
    else: return None
    if p in lt or fl and p in nlt: k = 'min'
    elif p in gt or fl and p in ngt: k = 'max'
    elif p in nlt: k = 'unsigned min'
    elif p in ngt: k = 'unsigned max'
    else: return None
    if sw: k = k.replace('min', '\0').replace('max', 'min').replace('\0', 'max')
    return k

def mmclass(w, mm, op, d, seen):
    k, a, b = mm
    if k != op: return {f'BAD takes the {k}imum' if False else f'BAD {k} where {op} is expected'}
    return join(classes(w, a, op, d, seen), classes(w, b, op, d, seen))

def phiminmax(w, P):
    f = w.f
    if len(P.ops) != 2: return None
    for k in (0, 1):
        b = f.bb[P.extra[k]]; o = f.bb[P.extra[1 - k]]
        # b: block entered by one side of a branch of o
        t = o.term
        if t.op == 'br' and t.ops and b in o.succs and P.bb in o.succs and b.preds == [o]:
            c = f.defs.get(t.ops[0]) if isinstance(t.ops[0], str) else None
            if c is None or c.op not in ('icmp', 'fcmp'): return None
            kind = pick(w, c, P.ops[k], P.ops[1 - k], f.bb[t.extra[0]] is b)
            if kind: return (kind, P.ops[k], P.ops[1 - k])
    return None

def reduction(w, st, op, d):
    f = w.f
    c = classes(w, st.ops[0], op, d)
    bad = sorted(x for x in c if x.startswith('BAD'))
    if bad: return False, 'the stored value is computed by ' + bad[0][4:]
    if c <= {'ACC', 'OUT'} and 'ACC' in c: return True, ''
    if c == {'IN'} and op in ('min', 'max'):
        # conditional store
        for cond, pol, bb in guards(f, st.bb):
            x = f.defs.get(cond) if isinstance(cond, str) else None
            if x is None or x.op not in ('icmp', 'fcmp'): continue
            for q in x.ops:
                D = f.defs.get(q) if isinstance(q, str) else None
                if D is not None and D.op == 'load' and w.addr(D.ops[0]) is not None and (D.ops[0] == st.ops[1] or w.addr(D.ops[0]) == w.addr(st.ops[1])):
                    other = x.ops[1] if q == x.ops[0] else x.ops[0]
                    if same(w, other, st.ops[0]):
                        k = pick(w, x, st.ops[0], q, pol)
                        if k == op: return True, ''
                        return False, f'keeps the {k}, expected {op}'
        return False, 'overwrites the old value without comparing'
    return False, 'the stored value is not the old content combined with the input'

UNS = {'trunc', 'zext', 'fptoui', 'uitofp', 'and', 'bitcast', 'freeze'}
def bsrc(w, v, seen, conv):
    """leaves of a value of the bit-prefix operation"""
    f = w.f
    if v in seen: return set()
    if not isinstance(v, str): return {'OUT'} if w.ent == 'reduce' and fval(v) == 0 else {'BAD a constant'}
    seen.add(v); D = f.defs.get(v)
    if D is None: return {'BAD an argument'}
    if D.op == 'load':
        a = w.side(D.ops[0])
        if a is None: return {'BAD unknown'}
        return {'IN'} if a in ('i', '*i') or a in w.bufs() else {'OUT'}
    if D.op in UNS:
        if D.op == 'and' and D.ops[1] != 0xffffffff: return {f'BAD and {D.ops[1]}'}
        return bsrc(w, D.ops[0], seen, conv)
    if D.op == 'phi':
        out = set()
        for x in D.ops: out |= bsrc(w, x, seen, conv)
        return out
    if D.op == 'lshr':
        if D.ops[1] != 1: return {'BAD shift by other than one'}
        if D.ty != 'i32': return {f'BAD shift in {D.ty}'}
        ok = False
        for cond, pol, bb in guards(f, D.bb):
            c = f.defs.get(cond) if isinstance(cond, str) else None
            if c is None or c.op != 'icmp': continue
            if D.ops[0] in c.ops:
                p = c.extra; gtr = c.ops[0] if p == 'ugt' else c.ops[1] if p == 'ult' else None
                if not pol and p in ('ule', 'uge'): gtr = c.ops[0] if p == 'ule' else c.ops[1]
                elif not pol: continue
                if gtr == D.ops[0]: ok = True
        if not ok: return {'BAD halves the smaller (or an unordered) value'}
        conv.add('shift'); return bsrc(w, D.ops[0], seen, conv)
    if D.op == 'select':
        return bsrc(w, D.ops[1], seen, conv) | bsrc(w, D.ops[2], seen, conv)
    return {f'BAD {D.op}'}

def nonzero_guard(w, b, side):
    """b is reached only if a value from side is compared with zero"""
    f = w.f
    for cond, pol, bb in guards(f, b):
        c = f.defs.get(cond) if isinstance(cond, str) else None
        if c is None or c.op not in ('icmp', 'fcmp'): continue
        if fval(c.ops[1]) != 0: continue
        s_ = bsrc(w, c.ops[0], set(), set())
        if s_ == {side} or side == 'OUT' and s_ and s_ <= {'OUT', 'IN'}:
            eq = c.extra in ('eq', 'oeq', 'ueq')
            yield eq == pol      # True: it is zero

def met(w, st, side):
    """the stored value equals, by comparison, a value from the other side"""
    f = w.f; v = st.ops[0]; lt = set()
    while isinstance(v, str) and f.defs[v].op in UNS: v = f.defs[v].ops[0]
    for cond, pol, bb in guards(f, st.bb):
        c = f.defs.get(cond) if isinstance(cond, str) else None
        if c is None or c.op != 'icmp' or v not in c.ops: continue
        o = c.ops[1] if c.ops[0] == v else c.ops[0]
        if bsrc(w, o, set(), set()) != {side}: continue
        if c.extra == ('eq' if pol else 'ne'): return True
        if not pol and c.extra in ('ult', 'ugt'): lt.add((c.extra == 'ult') == (c.ops[0] == v))
    return len(lt) == 2

def bpr(w, st, d):
    f = w.f; conv = set()
    c = bsrc(w, st.ops[0], set(), conv)
    bad = sorted(x for x in c if x.startswith('BAD'))
    if bad: return False, 'the bit-prefix operation uses ' + bad[0][4:]
    # the phis and lone values: input zero leaves the old value
    if c == {'IN'} and 'shift' not in conv:
        if True in list(nonzero_guard(w, st.bb, 'OUT')) : return True, ''
        return False, 'overwrites the old value although it is not zero'
    if 'shift' not in conv: return False, 'does not form the common ancestor'
    if c in ({'IN'}, {'OUT'}) and met(w, st, ({'IN', 'OUT'} - c).pop()): return True, ''
    if c != {'IN', 'OUT'}: return False, 'does not combine the old content with the input'
    return True, ''

def messages(r, w, f, ent, d, op, S, calls, ref, cfg, bad):
    red = [i for i in calls if i.extra in ('@MPI_Allreduce', '@MPI_Iallreduce')]
    p2p = [i for i in calls if i.extra in ('@MPI_Send', '@MPI_Recv', '@MPI_Isend', '@MPI_Irecv')]
    if cfg == 'serial':
        if red or p2p: bad('message-layer', 'serial', calls[0], 'communicates in the serial configuration')
        return
    std = op in MOP and ent != 'scan'
    if ent == 'iallreduce' and cfg != 'nbc': std = False
    if std and not red: return bad('message-layer', 'none', f.blocks[0].insts[0], 'is not handed to the message layer')
    if ent in ('reduce', 'allreduce') and op == 'bpr' and not p2p: return bad('message-layer', 'none', f.blocks[0].insts[0], 'is not communicated')
    for i in red:
        if op not in MOP: bad('message-layer', 'op', i, 'is handed to the message layer, which has no such operation'); continue
        if i.ops[3] != ref['type__' + d]: bad('message-layer', 'type', i, f'the message type is {i.ops[3]}, expected {MPI[d]}')
        elif i.ops[4] != ref['op__' + op]: bad('message-layer', 'op', i, f'the reduction is {i.ops[4]}, expected {MOP[op]}')
        else: r.ok('message-layer')
        n = w.poly(i.ops[2]); want = {(): 1} if ent == 'reduce' else {('vn',): 1}
        if n is not None and n != want: bad('message-layer', 'count', i, f'the count is {show(n)}, expected {show(want)}')
        else: r.ok('message-layer')
        a, b = w.addr(i.ops[0]), w.addr(i.ops[1])
        if ent != 'reduce' and (a, b) != (('o', {}), ('i', {})): bad('message-layer', 'buffers', i, 'the operand or the result is not the buffer it should be')
        else: r.ok('message-layer')
    for i in p2p:
        n = w.poly(i.ops[1]); u = {(): S} if ent == 'reduce' else {('vn',): S}
        if i.ops[2] != ref['byte']: bad('message-layer', 'bytes', i, f'the message type is {i.ops[2]}, expected bytes')
        elif n is not None and n not in (u, {m: 2 * c for m, c in u.items()} if ent == 'scan' else u): bad('message-layer', 'length', i, f'a message has {show(n)} bytes, expected {show(u)}')
        else: r.ok('message-layer')
    for i in calls:
        if str(i.extra).startswith('@llvm.memcpy'):
            n = w.poly(i.ops[2]); u = {(): S} if ent == 'reduce' else {('vn',): S}
            if n is not None and n != u: bad('layout', 'length', i, f'copies {show(n)} bytes, expected {show(u)}')
            else: r.ok('layout')

def dot(r, w, f, calls, ref, bad):
    red = [i for i in calls if i.extra == '@MPI_Allreduce']
    for i in red:
        if i.ops[3] != ref['type__double'] or i.ops[4] != ref['op__add'] or i.ops[2] != 1: bad('message-layer', 'dot', i, 'the scalar product is not summed over processes as one double')
        else: r.ok('message-layer')

# ------------------------------------------------------------ tables, callers
def tables(r):
    for cfg in ('nbc', 'nolonglong'):
        flags = build.CONFIGS.get(cfg) or [x for x in build.CONFIGS['nbc'] if 'LONG_LONG' not in x]
        want = [SZ[d] for d in IRT if cfg != 'nolonglong' or d != 'long_long']
        m = build.module(None, flags=flags)
        for g in m.globals.values():
            if re.match(r'@gs_dom_size(\.\d+)?$', g['name']):
                v = [x for _, x in g['init'][1]] if isinstance(g['init'], tuple) else []
                if v[:len(want)] != want: r.bad('element-size-table', g['name'][1:].split('.')[0], g['name'], f'the table of element sizes is {v}, expected {want}')
                else: r.ok('element-size-table')
                if g['kind'] != 'constant': r.bad('element-size-table', g['name'][1:].split('.')[0] + ':mutable', g['name'], 'the table of element sizes can be written')
                # it is indexed by a type code
            if re.match(r'@gs_identity_', g['name']):
                d = re.sub(r'\.\d+$', '', g['name'][13:])
                v = [fval(x) for _, x in g['init'][1]] if isinstance(g['init'], tuple) else []
                w = [identity(d, o) for o in OPS]
                v = [x - 2 ** 64 if d != 'int' and isinstance(x, int) and x >= 2 ** 63 else x - 2 ** 32 if d == 'int' and isinstance(x, int) and x >= 2 ** 31 else x for x in v]
                if v != w: r.bad('element-size-table', g['name'][1:], g['name'], f'the table of neutral elements of {d} is {v}, expected {w}')
                else: r.ok('element-size-table')

DOMPOS = {'gs_gather_array': (3, 4), 'gs_init_array': (2, 3)}
for k in ('', '_vec', '_many', '_vec_to_many', '_many_to_vec'):
    DOMPOS['gs_gather' + k] = (4, 5); DOMPOS['gs_scatter' + k] = (4, None)
for k in ('', '_vec', '_many'): DOMPOS['gs_init' + k] = (3, 4)
DOMPOS.update({'comm_allreduce': (1, 2), 'comm_iallreduce': (2, 3), 'comm_scan': (2, 3)})
PAR = {'gs': (1, 2), 'gs_vec': (2, 3), 'gs_many': (2, 3), 'igs': (1, 2), 'igs_vec': (2, 3), 'igs_many': (2, 3)}
def passed(r):
    """inside gs.c the codes reach the kernels as they were given"""
    m = norm('nbc')
    # positions of type and operation in every routine: seeds, then backwards through calls
    pos = {}
    for f in m.funcs.values():
        n = src(f)
        if n in DOMPOS: pos[f.name] = DOMPOS[n]
        elif n in PAR: pos[f.name] = PAR[n]
    slotrole = {}
    ch = True
    def role_ok(f, v, want, seen):
        """value is the parameter/field of the role"""
        if isinstance(v, int): return True
        if not isinstance(v, str) or v in seen: return True
        seen.add(v)
        k = pidx(f, v)
        if k is not None:
            p = pos.get(f.name)
            if p is None or want not in (0, 1): return True
            return p[want] == k
        D = f.defs.get(v)
        if D is None: return True
        if D.op in ('phi',): return all(role_ok(f, x, want, seen) for x in D.ops)
        if D.op == 'select': return all(role_ok(f, x, want, seen) for x in D.ops[1:])
        if D.op == 'load':
            sl = chain_slot(f, D.ops[0])
            if sl and sl[1] in ('dom', 'op'): return sl[1] == ('dom', 'op')[want]
            return True
        return D.op not in ir.BIN
    # indirect kernels and methods: infer positions from callers of known functions
    while ch:
        ch = False
        for f in m.funcs.values():
            if f.name in pos: continue
            found = [None, None]
            for i in f.insts():
                if i.op != 'call': continue
                for t in m.cg.targets(i) or ():
                    p = pos.get(t)
                    if not p: continue
                    for w_ in (0, 1):
                        if p[w_] is None or p[w_] >= len(i.ops): continue
                        k = pidx(f, i.ops[p[w_]]) if isinstance(i.ops[p[w_]], str) else None
                        if k is not None and found[w_] is None: found[w_] = k
            if any(x is not None for x in found): pos[f.name] = tuple(found); ch = True
    for f in m.funcs.values():
        if src(f).startswith('f:'): continue         # Fortran codes: P17
        for i in f.insts():
            if i.op == 'call':
                for t in m.cg.targets(i) or ():
                    p = pos.get(t)
                    if not p: continue
                    for w_ in (0, 1):
                        if p[w_] is None or p[w_] >= len(i.ops): continue
                        if role_ok(f, i.ops[p[w_]], w_, set()): r.ok('passed-on')
                        else: r.bad('passed-on', f'{src(f)}:{plain(m.base(t))}:{"type" if w_ == 0 else "operation"}', i.where, f'{src(f)} does not pass on its {"data type" if w_ == 0 else "operation"} to {plain(m.base(t))}')
            elif i.op == 'store' and isinstance(i.ops[1], str):
                sl = chain_slot(f, i.ops[1])
                if sl and sl[0] == 'nonblocking_private' and sl[1] in ('dom', 'op'):
                    if role_ok(f, i.ops[0], 0 if sl[1] == 'dom' else 1, set()): r.ok('passed-on')
                    else: r.bad('passed-on', f'{src(f)}:{sl[1]}', i.where, f'{src(f)} records another {sl[1]} than it was given')
