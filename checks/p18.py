"""P18: every loop makes progress towards an exit"""
import re, subprocess
import an, build, ir
from an import *
EXPLANATION = ('LLVM IR of every unit. A loop is accepted when the compiler\'s scalar-evolution analysis (with the language\'s "loops may be assumed finite" rule switched off) bounds its trip count, '
  'or when a value the exit test depends on changes strictly in one direction on every path around the loop (advances, halves, doubles), or when the loop waits for nothing but a condition that a nominated construct establishes '
  '(cycle of a permutation, common ancestor of two paths). Recursion is listed separately: the call graph has no cycle.')
PASSES = 'function(mem2reg,instcombine<no-verify-fixpoint>,simplifycfg,jump-threading,instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify,lcssa)'

def load(cfg):
    with build.Scratch() as d:
        objs = build.compile_units(cfg, d, extra=['-fno-finite-loops'])
        a = build.link(objs, d, PASSES)
        m = ir.Module(open(a).read()); m.cg = CG(m); m.cfg = cfg
        p = subprocess.run([build.OPT, '-disable-output', '-passes=print<scalar-evolution>', a], capture_output=True, text=True)
        if p.returncode: raise Broken('scalar evolution: ' + p.stderr[-500:])
    bounded = set(); fn = None
    for l in p.stderr.split('\n'):
        x = re.match(r'Determining loop execution counts for: @(\S+)', l)
        if x: fn = '@' + x.group(1); continue
        x = re.match(r'Loop %(\S+): (.*)', l)
        if x and 'backedge-taken count is' in x.group(2) and 'redicated' not in x.group(2) : bounded.add((fn, x.group(1)))
    return m, bounded

def check(r):
    parallel(part, ['nbc'] if r.tier == 'quick' else build.ALL, r)
    r.need('bounded', 400); r.need('progress', 100)

def part(r, cfg):
    m, bounded = load(cfg)
    noret = noret_funcs(m)
    for f in m.funcs.values():
        if f.name in noret: continue
        for L in f.loops():
            if not any(b in f.live() for b in L.body): continue
            where = L.head.insts[0].where
            for b in L.body:
                for i in b.insts:
                    if i.dbg: where = i.where; break
                else: continue
                break
            if (f.name, L.head.name) in bounded: r.ok('bounded'); continue
            w = progress(f, L)
            if w: r.ok('progress')
            elif cycle_walk(f, L): r.ok('permutation-cycle')
            elif meet(f, L): r.ok('common-ancestor')
            elif bisection(f, L): r.ok('bisection')
            elif bit_stack(f, L): r.ok('bit-stack')
            elif converges(f, L): r.ok('excluded:floating-point-convergence')
            elif active_set(f, L): r.ok('excluded:active-set')
            else: r.bad('progress', key(f, L), where, f'{src(f)}: this loop is not bounded by a count, and no value its exit test depends on advances on every way round')
    # recursion
    adj = {f.name: {t for t in m.cg.callees(f) if t in m.funcs} for f in m.funcs.values()}
    for f in adj:
        seen = set(); wl = list(adj[f])
        while wl:
            x = wl.pop()
            if x in seen: continue
            seen.add(x); wl += adj[x]
        if f in seen: r.bad('recursion', plain(m.base(f)), m.funcs[f].file, f'{plain(m.base(f))} calls itself (directly or through others): its depth is not bounded')
        else: r.ok('recursion')
    r.cov.setdefault('functions', {})[cfg] = len(m.funcs)

def key(f, L):
    ls = sorted(f.loops(), key=lambda l: l.head.idx)
    return f'{re.sub(r"_(double|float|int|long|long_long|ui|ul|ull|[23])$", "", src(f))}'

# ---- progress
class Cls:
    """how a value relates to the header phi: a set of marks out of
    '0' same, '+' greater, '-' smaller, '/' halved, '*' doubled, '?' unrelated"""
    def __init__(s, f, L, v): s.f, s.L, s.v, s.memo = f, L, v, {}
    def c(s, x):
        if x == s.v: return {'0'}
        if not isinstance(x, str): return {'?'}
        if x in s.memo: return s.memo[x]
        s.memo[x] = set()
        r = s.inst(x); s.memo[x] = r
        return r
    def inst(s, x):
        d = s.f.defs.get(x)
        if d is None or d.bb not in s.L.body and not (d.op == 'phi'): return {'?'}
        o = d.op
        if o in ('add', 'sub'):
            a, b = d.ops
            if o == 'add' and rel(s.c(b)) and not rel(s.c(a)): a, b = b, a
            k = s.c(a)
            if not rel(k): return {'?'}
            if o == 'sub' and s.c(b) == {'/'} and k == {'0'}: return {'/'}        # n - n/2, n - (n+1)/2
            sg = s.sg(b)
            if o == 'sub': sg = {'+': '-', '-': '+'}.get(sg, '?' if sg == '>=0' else sg)
            return comb(k, sg, s.f, b)
        if o == 'getelementptr':
            k = s.c(d.ops[0])
            if not rel(k): return {'?'}
            sg = '0'
            for v in d.ops[1:]:
                t = s.sg(v)
                if t == '0': continue
                sg = t if sg == '0' else ('+' if {sg, t} <= {'+', '>=0'} else '?')
            return comb(k, sg, s.f, d.ops[1])
        if o == 'lshr' and isinstance(d.ops[1], int) and d.ops[1] >= 1 or o in ('udiv',) and isinstance(d.ops[1], int) and d.ops[1] >= 2 or o == 'sdiv' and isinstance(d.ops[1], int) and d.ops[1] >= 2 or o == 'ashr' and isinstance(d.ops[1], int) and d.ops[1] >= 1:
            k = s.c(d.ops[0])
            return {'/'} if k <= {'0', '/', '-'} or half_up(s.f, d.ops[0], s.v) else {'?'}
        if o == 'shl' and isinstance(d.ops[1], int) and d.ops[1] >= 1:
            k = s.c(d.ops[0])
            return {'*'} if k <= {'0', '*', '+', '>=0'} else {'?'}
        if o == 'or':
            k = s.c(d.ops[0])
            return k if rel(k) and k <= {'*'} else {'?'}
        if o in ('zext', 'sext', 'trunc', 'freeze'): return s.c(d.ops[0])
        if o == 'fadd':
            for a, b in (d.ops, d.ops[::-1]):
                if isinstance(b, tuple) and b[0] == 'f' and rel(s.c(a)): return comb(s.c(a), '+' if b[1] > 0 else '-' if b[1] < 0 else '0', s.f, b)
            return {'?'}
        if o == 'select': return s.c(d.ops[1]) | s.c(d.ops[2])
        if o == 'phi':
            hl = next((l for l in s.f.loops() if l.head is d.bb), None)
            if hl is not None and hl is not s.L and hl.body < s.L.body:
                init, step = set(), set()
                w = Cls(s.f, hl, x)
                for v, bn in zip(d.ops, d.extra):
                    if s.f.bb[bn] in hl.body: step |= w.c(v)
                    else: init |= s.c(v)
                if not rel(init): return {'?'}
                if step <= {'+'} and init <= {'0', '>=0', '+'} and group_scan(s.f, hl): return {'+'}
                if step <= {'0', '+', '>=0'}: return {'>=0'} if init == {'0'} else init if init <= {'+', '>=0', '0'} else {'?'}
                if step <= {'0', '-', '/'}: return {'<=0'} if init == {'0'} else init if init <= {'-', '<=0', '0', '/'} else {'?'}
                return {'?'}
            out = set()
            for v in d.ops: out |= s.c(v)
            return out
        return {'?'}

    def sg(s, v):
        """direction of a step; a step that stays the same during the loop and is not a constant
        (an element size, a stride, a count) is taken to be positive"""
        x = sign(s.f, v)
        if x in ('>=0', '?') and isinstance(v, str) and invariant(s.f, s.L, v): return '+'
        if x == '>=0' and nonzero(s.f, v, s.L): return '+'
        if x == '?' and tested(s.f, v, s.L): return '+'
        return x
def tested(f, v, L):
    """a count (call result) that is tested against zero on the way round"""
    d = f.defs.get(v) if isinstance(v, str) else None
    return d is not None and d.op == 'trunc' and nonzero(f, v, L)
def implied(f, L, c):
    """a condition that holds on every way round the loop"""
    for b, x in L.exits():
        if len(b.succs) != 2 or not all(f.dominates(b, l) for l in L.latches): continue
        t = b.term; stay = 0 if f.bb[t.extra[0]] in L.body else 1
        wl = [(t.ops[0], stay == 0)]
        while wl:
            v, pol = wl.pop()
            if v == c: return pol
            d = f.defs.get(v) if isinstance(v, str) else None
            if d is None: continue
            if d.op == 'select' and d.ops[2] == 0 and pol: wl += [(d.ops[0], True), (d.ops[1], True)]
            if d.op == 'select' and d.ops[1] == 1 and not pol: wl += [(d.ops[0], False), (d.ops[2], False)]
            if d.op == 'and' and pol or d.op == 'or' and not pol: wl += [(y, pol) for y in d.ops]
            if d.op == 'xor' and 1 in d.ops: wl += [(y, not pol) for y in d.ops if y != 1]
    return None
def nonzero(f, v, L):
    """tested against zero on the way round, or the size of the group the current element belongs to
    (read from a table at a place computed from what the walking pointer shows)"""
    for b in L.body:
        t = b.term
        if t.op == 'br' and t.ops:
            c = f.defs.get(t.ops[0])
            if c is not None and c.op == 'icmp' and c.extra in ('eq', 'ne') and 0 in c.ops and v in c.ops: return True
    d = f.defs.get(v) if isinstance(v, str) else None
    if d is not None and d.op == 'zext' and d.extra == 'i1':
        k = implied(f, L, d.ops[0])
        if k is None:
            n = f.defs.get(d.ops[0])
            if n is not None and n.op == 'xor' and 1 in n.ops: k = implied(f, L, [y for y in n.ops if y != 1][0]); k = None if k is None else not k
            elif n is not None and n.op == 'icmp':
                for m_ in f.insts():
                    if m_.op == 'icmp' and m_.ops == n.ops and {m_.extra, n.extra} == {'eq', 'ne'}:
                        kk = implied(f, L, m_.name)
                        if kk is not None: k = not kk
        return k is True
    while d is not None and d.op in ('zext', 'sext'): d = f.defs.get(d.ops[0]); 
    if d is not None and d.op == 'load' and isinstance(d.ops[0], str):
        a = f.defs.get(d.ops[0]); b = rootv(f, d.ops[0])
        if a is not None and a.op == 'getelementptr' and b in f.defs and f.defs[b].op == 'alloca':
            return any(isinstance(x, str) and not invariant(f, L, x) for x in a.ops[1:])
    return False
def group_scan(f, hl):
    """a scan that runs over the records whose key equals the key of the record it started from:
    it passes at least that one"""
    for b, x in hl.exits():
        if not b.term.ops: continue
        c = f.defs.get(b.term.ops[0])
        if c is None or c.op != 'icmp' or c.extra not in ('eq', 'ne'): continue
        for u, v in (c.ops, c.ops[::-1]):
            d = f.defs.get(u) if isinstance(u, str) else None
            if d is not None and d.op == 'load' and d.bb in hl.body and isinstance(v, str) and (v not in f.defs or f.defs[v].bb not in hl.body) and not_end(f, v): return True
    return False
def not_end(f, v):
    """a key (an integer), not an end pointer"""
    d = f.defs.get(v)
    return d is None or d.ty != 'ptr'
def bit_stack(f, L):
    """traversal of a binary tree whose path is kept in the bits of one counter: every way round either
    appends a bit or removes one, and the loop leaves when none is left"""
    for p in [i for i in L.head.insts if i.op == 'phi']:
        sh = set()
        users = f.users()
        def chain(x, seen):
            if not isinstance(x, str) or x in seen: return
            seen.add(x); d = f.defs.get(x)
            if d is None or d.bb not in L.body: return
            if d.op in ('shl', 'lshr') and d.ops[1] == 1: sh.add(d.op)
            if d.op in ('shl', 'lshr', 'or', 'phi', 'select', 'and'):
                for y in d.ops: chain(y, seen)
        seen = set()
        for v, bn in zip(p.ops, p.extra):
            if f.bb[bn] in L.body: chain(v, seen)
        if sh == {'shl', 'lshr'}:
            for b, x in L.exits():
                c = f.defs.get(b.term.ops[0]) if b.term.ops else None
                if c is not None and c.op == 'icmp' and c.extra in ('eq', 'ne') and 0 in c.ops and any(y in seen for y in c.ops): return True
    return False
def converges(f, L):
    """iteration that leaves when two successive floating-point values agree (Newton's method
    for the quadrature nodes): not decided here"""
    ex = L.exits()
    for b, x in ex:
        c = f.defs.get(b.term.ops[0]) if b.term.ops else None
        if c is None or c.op != 'fcmp': return False
        sl = slice_of(f, L, c.name)
        if not any(f.defs[y].op == 'phi' and f.defs[y].bb is L.head and f.defs[y].ty == 'double' for y in sl if y in f.defs): return False
        if not any(f.defs[y].op == 'fsub' and any(isinstance(z, str) and z in f.defs and f.defs[z].op == 'phi' for z in f.defs[y].ops) for y in sl if y in f.defs): return False
    return bool(ex)
def active_set(f, L):
    """active-set iteration of the constrained minimisation: leaves when the set of constraints (bits)
    is what it was; not decided here"""
    def back(x, seen):
        d = f.defs.get(x) if isinstance(x, str) else None
        if d is None or d.bb not in L.body or x in seen: return
        seen[x] = d.op
        if d.op in ('and', 'or', 'phi') or d.op == 'select':
            for y in d.ops: back(y, seen)
    for b, x in L.exits():
        c = f.defs.get(b.term.ops[0]) if b.term.ops else None
        if c is None or c.op != 'icmp' or c.extra not in ('eq', 'ne') or c.ty != 'i32': continue
        A, B = {}, {}
        back(c.ops[0], A); back(c.ops[1], B)
        heads = {y for y in A if y in B and f.defs[y].op == 'phi' and f.defs[y].bb is L.head}
        if heads and ('and' in A.values() or 'and' in B.values()): return True
    return False
def bisection(f, L):
    """two bounds, one of which is replaced by the middle on every way round, until they are neighbours"""
    phis = [i for i in L.head.insts if i.op == 'phi']
    def cases(a, b, va, vb, seen=()):
        A = f.defs.get(va) if isinstance(va, str) else None; B = f.defs.get(vb) if isinstance(vb, str) else None
        if va == a and mid(vb, a, b) or vb == b and mid(va, a, b): return True
        if A is not None and B is not None and A.op == B.op == 'phi' and A.bb is B.bb and A.bb is not L.head:
            return all(cases(a, b, x, y) for x, y in zip(A.ops, B.ops))
        if A is not None and B is not None and A.op == B.op == 'select' and A.ops[0] == B.ops[0]:
            return all(cases(a, b, x, y) for x, y in zip(A.ops[1:], B.ops[1:]))
        return False
    def mid(v, a, b):
        E = Ex(f); e = E.e(v); pa, pb = E.e(a), E.e(b)
        halves = lambda x: [('op', 'lshr', x, ('c', 1)), ('op', 'udiv', x, ('c', 2))]
        for h in halves(fold('sub', pb, pa)):
            if e == fold('add', pa, h): return True
        return e in halves(fold('add', pa, pb))
    for a in phis:
        for b in phis:
            if a is b or a.ty != b.ty: continue
            ok = n = 0
            for va, vb, bn in zip(a.ops, b.ops, a.extra):
                if f.bb[bn] in L.body:
                    n += 1; ok += cases(a.name, b.name, va, vb)
            if n and ok == n:
                for bb, x in L.exits():
                    c = f.defs.get(bb.term.ops[0]) if bb.term.ops else None
                    if c is not None and c.op == 'icmp':
                        d = f.defs.get(c.ops[0]) if isinstance(c.ops[0], str) else None
                        if d is not None and d.op == 'sub' and d.ops == [b.name, a.name] and (c.extra, c.ops[1]) in (('ugt', 1), ('ult', 2), ('uge', 2), ('ule', 1)): return True
    return False
def half_up(f, v, root):
    d = f.defs.get(v) if isinstance(v, str) else None
    return d is not None and d.op == 'add' and 1 in d.ops and root in d.ops
def invariant(f, L, v, depth=0):
    d = f.defs.get(v) if isinstance(v, str) else None
    if d is None or d.bb not in L.body: return True
    if depth > 6: return False
    if d.op in ('zext', 'sext', 'trunc', 'mul', 'add', 'shl'): return all(invariant(f, L, x, depth + 1) for x in d.ops)
    if d.op == 'sub' and d.ops[0] == 0: return False
    return False
def rel(k): return bool(k) and '?' not in k
def comb(k, sg, f, b):
    out = set()
    for x in k:
        if sg == '0': out.add(x)
        elif x == '0': out.add({'+': '+', '-': '-', '>=0': '>=0'}.get(sg, '?'))
        elif x in ('+', '>=0') and sg in ('+', '>=0'): out.add('+' if '+' in (x, sg) else '>=0')
        elif x in ('-', '<=0') and sg == '-': out.add('-')
        elif x == '/' and sg == '-': out.add('/')
        elif x == '/' and bit(f, b): out.add('/')
        elif x == '*' and (sg in ('+', '>=0') or bit(f, b)): out.add('*')
        else: out.add('?')
    return out
def bit(f, v):
    """at most one: a masked bit or a comparison"""
    d = f.defs.get(v) if isinstance(v, str) else None
    if d is None: return isinstance(v, int) and v in (0, 1)
    if d.op == 'and': return 1 in d.ops
    if d.op in ('zext', 'select', 'phi', 'sub'): return all(bit(f, x) for x in (d.ops[1:] if d.op == 'select' else d.ops) if x != 0) or d.op == 'zext' and d.extra == 'i1'
    return False
def sign(f, v, depth=0):
    if isinstance(v, int): return '0' if v == 0 else '+' if v > 0 else '-'
    if depth > 6 or not isinstance(v, str): return '?'
    d = f.defs.get(v)
    if d is None: return '>=0'
    if d.op == 'zext': 
        s_ = sign(f, d.ops[0], depth + 1)
        return s_ if s_ in ('+', '>=0') else '>=0'
    if d.op in ('load', 'and', 'udiv', 'urem', 'lshr', 'call'): return '>=0'
    if d.op == 'sext': return sign(f, d.ops[0], depth + 1)
    if d.op in ('add', 'or'):
        a, b = sign(f, d.ops[0], depth + 1), sign(f, d.ops[1], depth + 1)
        if {a, b} <= {'+', '>=0', '0'}: return '+' if '+' in (a, b) else '>=0'
        return '?'
    if d.op == 'mul':
        a, b = sign(f, d.ops[0], depth + 1), sign(f, d.ops[1], depth + 1)
        return '>=0' if {a, b} <= {'+', '>=0'} else '?'
    if d.op == 'sub':
        return '-' if d.ops[0] == 0 and sign(f, d.ops[1], depth + 1) in ('+', '>=0') else '?'
    if d.op == 'shl': return sign(f, d.ops[0], depth + 1)
    if d.op == 'phi':
        return '>=0'
    if d.op == 'select':
        s_ = {sign(f, x, depth + 1) for x in d.ops[1:]}
        return '+' if s_ == {'+'} else '>=0' if s_ <= {'+', '>=0', '0'} else '?'
    return '?'

def slice_of(f, L, v):
    """header phis and other values an exit condition depends on inside the loop
    (data dependence, and for phis inside the loop the branches that choose)"""
    seen = set(); wl = [v]
    while wl:
        x = wl.pop()
        if not isinstance(x, str) or x in seen: continue
        seen.add(x)
        d = f.defs.get(x)
        if d is None or d.bb not in L.body: continue
        wl += [y for y in d.ops if isinstance(y, str)]
        if d.op == 'phi':
            for bn in d.extra:
                b = f.bb[bn]
                if b in L.body:
                    for (c, k) in f.cdeps().get(b, ()):
                        if c in L.body and c.term.op in ('br', 'switch') and c.term.ops: wl.append(c.term.ops[0])
                    if b.term.op == 'br' and b.term.ops: wl.append(b.term.ops[0])
    return seen

def progress(f, L):
    phis = [i for i in L.head.insts if i.op == 'phi']
    ex = [b for b, x in L.exits() if x in f.live() and b.term.ops]
    if not ex: return None
    deps = set()
    for b in ex: deps |= slice_of(f, L, b.term.ops[0])
    for p in phis:
        if p.name not in deps: continue
        c = Cls(f, L, p.name); k = set()
        for v, bn in zip(p.ops, p.extra):
            if f.bb[bn] in L.body: k |= c.c(v)
        if k and (k <= {'+'} or k <= {'-', '/'} or k <= {'+', '*'}):
            if steps_over(f, L, p): continue
            return p.name
    # a pair of bounds that close in on each other, or a value in the object that is cleared bit by bit
    return None

def steps_over(f, L, p):
    """a counter that moves by more than one and whose only test is for equality"""
    if p.ty == 'ptr' or p.ty == 'double': return False
    nxt = {v for v, bn in zip(p.ops, p.extra) if f.bb[bn] in L.body}
    big = False
    for v in nxt:
        d = f.defs.get(v) if isinstance(v, str) else None
        if d is not None and d.op in ('add', 'sub') and p.name in d.ops:
            k = [y for y in d.ops if y != p.name]
            if k and isinstance(k[0], int) and abs(k[0]) > 1: big = True
    if not big: return False
    tests = []
    for b, x in L.exits():
        c = f.defs.get(b.term.ops[0]) if b.term.ops else None
        if c is not None and c.op == 'icmp' and any(y == p.name or y in nxt for y in c.ops): tests.append(c.extra)
    return bool(tests) and all(t in ('eq', 'ne') for t in tests)

def cycle_walk(f, L):
    """following a permutation: each step visits the entry it marks as done (stores the negated
    value where it just read), and leaves when it is back at the start"""
    for b in L.body:
        for i in b.insts:
            if i.op == 'store' and isinstance(i.ops[0], str):
                d = f.defs.get(i.ops[0])
                neg = d is not None and (d.op == 'xor' and -1 in d.ops or d.op == 'sub' and isinstance(d.ops[0], int) and d.ops[0] <= 0)
                if not neg: continue
                src_ = [x for x in d.ops if isinstance(x, str)]
                ld = f.defs.get(src_[0]) if src_ else None
                if ld is not None and ld.op == 'load' and Ex(f).e(ld.ops[0]) == Ex(f).e(i.ops[1]) and ld.bb in L.body: return True
    return False

def meet(f, L):
    """two values, the larger of which is halved on every way round, until they are equal"""
    phis = [i for i in L.head.insts if i.op == 'phi']
    for a in phis:
        for b in phis:
            if a is b: continue
            ok = True; shr = 0
            ca, cb = Cls(f, L, a.name), Cls(f, L, b.name)
            for va, vb, bn in zip(a.ops, b.ops, a.extra):
                if f.bb[bn] not in L.body: continue
                if not pairs(f, L, a.name, b.name, va, vb, ca, cb): ok = False; break
                shr += 1
            if ok and shr: return True
    return False
def pairs(f, L, a, b, va, vb, ca, cb):
    """per way into the latch: exactly one of the two is halved, the other stays"""
    def st(x): return x
    A = f.defs.get(va) if isinstance(va, str) else None; B = f.defs.get(vb) if isinstance(vb, str) else None
    if A is not None and B is not None and A.op == B.op == 'phi' and A.bb is B.bb and A.name != a and B.name != b:
        return all(pairs(f, L, a, b, x, y, ca, cb) for x, y in zip(A.ops, B.ops))
    if A is not None and B is not None and A.op == B.op == 'select' and A.ops[0] == B.ops[0]:
        return all(pairs(f, L, a, b, x, y, ca, cb) for x, y in zip(A.ops[1:], B.ops[1:]))
    ka, kb = ca.c(va), cb.c(vb)
    return (ka, kb) in (({'0'}, {'/'}), ({'/'}, {'0'}))
