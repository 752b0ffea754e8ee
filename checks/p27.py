"""P27: results do not depend on time, addresses, environment or message arrival order"""
import an, build, ir, p07
from an import *

EXPLANATION = ('LLVM IR of every library unit, all configurations, helpers placed into their callers. '
  'R1 every external function called is one whose results depend on its arguments only (or the clock, see R3); anything else (random numbers, environment, files, wildcard or any-completion message calls) is reported. '
  'R2 the source and tag of every receive are never a wildcard, and message status objects are never read. '
  'R3 clock values, followed through data flow and local memory, reach no branch, no memory outside the routine, no result and no call other than printing, except after a reduction over all processes. '
  'R4 a pointer converted to an integer is only ever subtracted from another one.')
PURE = {'MPI_Abort', 'MPI_Allreduce', 'MPI_Barrier', 'MPI_Comm_dup', 'MPI_Comm_f2c', 'MPI_Comm_c2f', 'MPI_Comm_free', 'MPI_Comm_rank', 'MPI_Comm_size', 'MPI_Comm_split',
  'MPI_Iallreduce', 'MPI_Irecv', 'MPI_Isend', 'MPI_Recv', 'MPI_Send', 'MPI_Ssend', 'MPI_Sendrecv', 'MPI_Wait', 'MPI_Waitall', 'MPI_Bcast', 'MPI_Gather', 'MPI_Allgather', 'MPI_Scan', 'MPI_Exscan',
  'MPI_Reduce', 'MPI_Alltoall', 'MPI_Ibarrier',
  'calloc', 'malloc', 'realloc', 'free', 'exit', 'abort', 'fflush', 'fprintf', 'printf', 'puts', 'putchar', 'fputs', 'fputc', 'fwrite', 'sprintf', 'snprintf', 'vsprintf', 'vsnprintf', 'vfprintf', 'vprintf',
  'strcat', 'strncat', 'strcpy', 'strncpy', 'strlen', 'strcmp', 'strncmp', 'memcmp', 'memcpy', 'memmove', 'memset', 'memchr', 'strchr', 'strrchr',
  'cblas_ddot', 'cblas_dgemm', 'cblas_dgemv', 'mxm_', 'mxm', 'cos', 'sin', 'tan', 'acos', 'asin', 'atan', 'atan2', 'pow', 'exp', 'log', 'sqrt', 'fabs', 'floor', 'ceil', 'fmin', 'fmax', 'ldexp', 'frexp', 'fmod',
  'rint', 'round', 'trunc', 'lround', 'cosf', 'fabsf', 'sqrtf', 'abs', 'labs', 'llabs', 'qsort', '__assert_fail', 'memccpy', 'nearbyint', 'hypot', 'cbrt', 'copysign'}
PRINT = {'fprintf', 'printf', 'sprintf', 'snprintf', 'fail', 'diagnostic', 'nek_exitt'}
CLOCK = {'MPI_Wtime'}
WILD_SRC = -1; WILD_TAG = -1
RECV = {'MPI_Recv': (3, 4, 6), 'MPI_Irecv': (3, 4, None)}

class Clock(p07.Div):
    """values derived from the clock"""
    def __init__(s, m):
        s.sink = []
        super().__init__(m)
    def cellof(s, f, a): return None
    def call(s, f, i):
        ch = False
        n = cname(s.m, i)
        d = False
        if n in CLOCK: d = True
        elif n and n.startswith('llvm.'): d = any(s.isdiv(f, v) for v in i.ops)
        elif i.extra in s.m.funcs: d = i.extra in s.retdiv
        if d and i.name and (f.name, i.name) not in s.div: s.div.add((f.name, i.name)); ch = True
        h = s.m.funcs.get(i.extra) if isinstance(i.extra, str) else None
        if h is not None and h.internal:
            for k in range(min(len(i.ops), len(h.params))):
                if (h.name, k) not in s.pdiv and s.isdiv(f, i.ops[k]): s.pdiv.add((h.name, k)); ch = True
        return ch
    def isdiv(s, f, v, user=None):
        k = pidx(f, v) if isinstance(v, str) else None
        if k is not None: return (f.name, k) in s.pdiv and f.internal
        return isinstance(v, str) and (f.name, v) in s.div
    def inst(s, f, i):
        if i.op == 'alloca': return False
        if i.op == 'load':
            r, off = p07.const_off(f, i.ops[0])
            d = f.defs.get(r) if isinstance(r, str) else None
            if d is None or d.op != 'alloca': return False
            for k, x in s.reaching(f, i, r, off):
                if k == 'store' and s.isdiv(f, x.ops[0]): return True
                if k == 'copy':      # copied from another local object
                    q = rootv(f, x.ops[1])
                    if any(y.op == 'store' and isinstance(y.ops[1], str) and rootv(f, y.ops[1]) == q and s.isdiv(f, y.ops[0]) for y in f.insts()): return True
            return False
        return any(s.isdiv(f, v) for v in i.ops)
    def store(s, f, i): return False

def check(r):
    parallel(part, build.ALL, r)
    r.need('external-functions', 250)
    r.need('receive-source-and-tag', 20)
    r.need('clock', 2)
    r.need('addresses', 40)
    r.assume += ['relational comparisons of pointers are within one object', 'MPI delivers messages of one sender and tag in order']

def part(r, cfg):
    m = norm(cfg, passes=p07.PASSES)
    for f in m.funcs.values():
        for i in f.insts():
            if i.op == 'ptrtoint':
                us = f.users().get(i.name, [])
                ok = all(x.op == 'sub' and all(isinstance(v, str) and v in f.defs and f.defs[v].op == 'ptrtoint' for v in x.ops) for x in us)
                if ok: r.ok('addresses')
                else: r.bad('addresses', f'{src(f)}', i.where, f'{src(f)} computes with a memory address (not a difference of two addresses): the result may change from run to run')
            if i.op != 'call': continue
            for t in m.cg.targets(i) or ():
                if t in m.funcs: continue
                n = t[1:]
                if n.startswith('llvm.'): continue
                if n in PURE or n in CLOCK: r.ok('external-functions')
                else: r.bad('external-functions', f'{src(f)}:{n}', i.where, f'{src(f)} calls {n}, whose result is not determined by its arguments')
                if n in RECV:
                    a, b, st = RECV[n]
                    for k, w in ((a, 'source'), (b, 'tag')):
                        if wild(f, i.ops[k], set()): r.bad('receive-source-and-tag', f'{src(f)}:{w}', i.where, f'{src(f)} receives with a wildcard {w}: which message is taken depends on arrival order')
                        else: r.ok('receive-source-and-tag')
                    if st is not None and isinstance(i.ops[st], str) and i.ops[st] in f.defs:
                        q = rootv(f, i.ops[st])
                        if any(x.op == 'load' and rootv(f, x.ops[0]) == q for x in f.insts()):
                            r.bad('receive-source-and-tag', f'{src(f)}:status', i.where, f'{src(f)} reads the status of a message')
    D = Clock(m)
    for f in m.funcs.values():
        for i in f.insts():
            def bad(what): r.bad('clock', f'{src(f)}:{what}', i.where, f'{src(f)}: a clock value that was not reduced over all processes reaches {what}')
            if i.op in ('br', 'switch') and i.ops and D.isdiv(f, i.ops[0]): bad('a branch')
            elif i.op == 'store' and D.isdiv(f, i.ops[0]):
                q = f.defs.get(rootv(f, i.ops[1])) if isinstance(i.ops[1], str) else None
                if q is None or q.op != 'alloca': bad('memory outside the routine')
                else: r.ok('clock')
            elif i.op == 'call' and cname(m, i) in CLOCK: r.ok('clock')
            elif i.op == 'call' and any(D.isdiv(f, v) for v in i.ops):
                n = cname(m, i)
                if n in PRINT or n and n.startswith('llvm.') or isinstance(i.extra, str) and i.extra in m.funcs and m.funcs[i.extra].internal: r.ok('clock')
                else: bad(f'a call of {n or "a routine"}')
            elif i.op == 'ret' and i.ops and D.isdiv(f, i.ops[0]) and not f.internal: bad('the result')
            elif i.op == 'load' and i.name and not D.isdiv(f, i.name):
                pass
    r.cov.setdefault('clock_values', {})[cfg] = len(D.div)

def wild(f, v, seen):
    if isinstance(v, int): return v == -1 or v == 0xffffffff
    if not isinstance(v, str) or v in seen: return False
    seen.add(v); d = f.defs.get(v)
    if d is None: return False
    if d.op in ('phi',): return any(wild(f, x, seen) for x in d.ops)
    if d.op == 'select': return any(wild(f, x, seen) for x in d.ops[1:])
    if d.op in ('zext', 'sext', 'trunc'): return wild(f, d.ops[0], seen)
    return False
