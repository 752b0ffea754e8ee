"""message exchanges of the linked program: posts and waits in canonical form, grouped, with the cases their conditions distinguish"""
import itertools
import p05
from an import *
from p05 import Trace, Step, STEPS, MODES, okcond

REQ = 8          # size of a request handle in the analysed configurations (checked against the posts' strides)
POST = {'MPI_Irecv': ('recv', 6), 'MPI_Isend': ('send', 6), 'comm_iallreduce': ('reduce', 0), 'MPI_Iallreduce': ('reduce', 6)}

def cv(p):
    return 0 if not p else p[()] if len(p) == 1 and () in p else None

CMP = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'ult': lambda a, b: a < b, 'ule': lambda a, b: a <= b, 'ugt': lambda a, b: a > b, 'uge': lambda a, b: a >= b,
       'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b, 'sgt': lambda a, b: a > b, 'sge': lambda a, b: a >= b}
NEG = {'ne': 'eq', 'uge': 'ult', 'ule': 'ugt', 'sge': 'slt', 'sle': 'sgt'}

def ncmp(pr, x, y):
    """(positive form of a comparison, polarity)"""
    if repr(x) > repr(y): x, y, pr = y, x, SWP[pr]
    return (('cmp', NEG[pr], x, y), False) if pr in NEG else (('cmp', pr, x, y), True)

class Cases:
    """values of conditions: the leaves a polynomial or a branch depends on, and evaluation under an assignment to them.
    assume(cond) decides a condition outright (or not: None)"""
    def __init__(s, T, dom, assume=lambda c: None):
        s.T, s.f, s.P, s.dom, s.assume, s.region = T, T.f, T.P, dom, assume, None
        s.back = {(q, L.head) for L in s.f.loops() for q in L.head.preds if q in L.body}
    # ---------------------------------------------------------------- leaves
    def leaves(s, p, out):
        for m in p:
            for a in m: s.aleaves(a, out)
    def aleaves(s, a, out):
        if a[0] in ('select', 'and', 'or', 'xor'):
            for k in a[1:]: s.leaves(dict(k), out)
        elif a[0] == 'icmp': s.cleaves((a[1], a[2], a[3]), out)
        elif s.phi(a) is not None:
            if ('seen', a) in out: return
            out['seen', a] = None
            d = s.phi(a)
            for t in between(s.f, d.bb): s.bleaves(t, out)
            for v in d.ops: s.leaves(s.P.n(v), out)
        elif s.dom(a): out[a] = s.dom(a)
    def cleaves(s, c, out):
        if len(c) == 2:
            if c[0][0] == 'sw':
                sub = {}; s.leaves(dict(c[0][1]), sub); out.update(sub)
            return
        if not (isinstance(c[1], tuple) and isinstance(c[2], tuple)):
            if c[0] == 'c': s.leaves(dict(c[1]), out)
            return
        if s.assume(c) is not None: return
        pr, x, y = c; sub = {}
        s.leaves(dict(x), sub); s.leaves(dict(y), sub)
        real = {a: v for a, v in sub.items() if v}
        if sub and (real or any(a[0] == 'seen' for a in sub)): out.update(sub)
        if cv(dict(x)) is None or cv(dict(y)) is None:
            if not real or any(cv(s.ev(dict(k), {a: v[0] for a, v in real.items()})) is None for k in (x, y)) and not any(a[0] == 'seen' for a in sub): out[ncmp(pr, x, y)[0]] = (0, 1)
    def bcond(s, b):
        """condition of a two-way branch as a tuple, or None"""
        t = b.term
        if t.op != 'br' or not t.ops or len(b.succs) != 2: return None
        v = t.ops[0]; d = s.f.defs.get(v) if isinstance(v, str) else None
        if d is not None and d.op == 'icmp': return (d.extra, s.P.k(s.P.n(d.ops[0])), s.P.k(s.P.n(d.ops[1])))
        return ('c', s.P.k(s.P.n(v)), True)
    def bleaves(s, b, out):
        t = b.term
        if t.op == 'switch': s.leaves(s.P.n(t.ops[0]), out)
        else:
            c = s.bcond(b)
            if c is not None: s.cleaves(c, out)
    # ---------------------------------------------------------------- evaluation
    def cond(s, c, asg):
        """True / False / None"""
        if len(c) == 2: 
            v = cv(s.ev(dict(c[0][1]), asg)) if c[0][0] == 'sw' else None
            return None if v is None else (v == c[0][2]) == c[1]
        if isinstance(c[1], tuple) and isinstance(c[2], tuple):
            z = s.assume(c)
            if z is not None: return z
            l, pol = ncmp(*c)
            if l in asg: return bool(asg[l]) == pol
            a, b = cv(s.ev(dict(c[1]), asg)), cv(s.ev(dict(c[2]), asg))
            return CMP[c[0]](a, b) if a is not None and b is not None else None
        if c[0] == 'c':
            v = cv(s.ev(dict(c[1]), asg))
            return None if v is None else bool(v) == bool(c[2])
        return None
    def ev(s, p, asg):
        P = s.P; r = {}
        for m, c in p.items():
            q = P.const(c) or {}
            for a in m: q = P.mul(q, s.eva(a, asg))
            r = P.add(r, q)
        return r
    def eva(s, a, asg):
        P = s.P
        if a in asg: return P.const(asg[a])
        if a[0] == 'select':
            c = cv(s.ev(dict(a[1]), asg))
            if c is not None: return s.ev(dict(a[2] if c else a[3]), asg)
        if a[0] in ('and', 'or', 'xor'):
            x, y = (s.ev(dict(k), asg) for k in a[1:3]); cx, cy = cv(x), cv(y)
            if cx is not None and cy is not None: return P.const({'and': cx & cy, 'or': cx | cy, 'xor': cx ^ cy}[a[0]])
            if a[0] == 'and' and (cx == 0 or cy == 0): return {}
        if a[0] == 'icmp':
            v = s.cond((a[1], a[2], a[3]), asg)
            if v is not None: return P.const(int(v))
        d = s.phi(a)
        if d is not None and ('at', a) not in asg:
            w = dict(asg); w['at', a] = 1; got = {}
            feas = s.from_dom(d.bb, w)
            for v, l in zip(d.ops, d.extra):
                q = s.f.bb[l] if isinstance(l, str) else l
                if q in feas and d.bb in s.succs(q, w):
                    z = s.ev(P.n(v), w); got[P.k(z)] = z
            if len(got) == 1: return next(iter(got.values()))
        return P.atom(a)
    def phi(s, a):
        if a[0] != 'x': return None
        d = s.f.defs.get(a[1])
        return d if d is not None and d.op == 'phi' and d.bb not in s.P.head else None
    def from_dom(s, b, asg):
        """blocks reached from the immediate dominator of b without passing b"""
        top = s.f.dom().get(b); seen = {top}; st = [top]
        while st:
            x = st.pop()
            for y in s.succs(x, asg):
                if y is not b and y not in seen and (x, y) not in s.back: seen.add(y); st.append(y)
        return seen
    def succs(s, b, asg):
        """successors that can be taken under the assignment"""
        out = [x for x in b.succs if x not in s.T.F.dead]
        t = b.term
        if t.op == 'br' and len(b.succs) == 2 and t.ops:
            c = s.bcond(b); v = s.cond(c, asg)
            if v is not None: out = [x for x in out if x is s.f.bb[t.extra[0 if v else 1]]]
        elif t.op == 'switch':
            v = cv(s.ev(s.P.n(t.ops[0]), asg))
            if v is not None:
                dst = next((l for k, l in t.extra[1] if k == v), t.extra[0]); out = [x for x in out if x is s.f.bb[dst]]
        return out
    def reach(s, start, asg, avoid=(), within=None, head=None):
        """blocks reachable from a block (not through 'avoid', not back into 'head'); True in the second place if the region can be left"""
        seen = set(); st = [start] if start not in avoid else []; left = False
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            if x.term.op == 'ret': left = True
            for y in s.succs(x, asg):
                if y is head or within is not None and y not in within: left = True; continue
                if y not in avoid and y not in seen: st.append(y)
        return seen, left

def between(f, b):
    """branching blocks between a merge and its immediate dominator"""
    top = f.dom().get(b)
    if top is None: return []
    fw = {top}; st = [top]
    while st:
        for y in st.pop().succs:
            if y is not b and y not in fw: fw.add(y); st.append(y)
    bw = set(); st = [q for q in b.preds]
    while st:
        x = st.pop()
        if x in bw or x not in fw: continue
        bw.add(x)
        if x is not top: st += x.preds
    return [x for x in f.blocks if x in bw and len(x.succs) > 1]

class Outline:
    """what runs together with what inside one iteration of the loop around a group"""
    def __init__(s, C, base):
        s.C, s.base = C, base; s.f = C.f
        s.head = base.head if base else None; s.start = base.head if base else s.f.blocks[0]; s.within = set(base.body) if base else None
    def place(s, inst):
        """(block that stands for an instruction: the outermost loop inside the region, that loop, innermost-only?)"""
        L = s.f.loop_of(inst.bb); out = None; n = 0
        while L is not None and L is not s.base: out = L; n += 1; L = L.parent
        return (out.head, out, n) if out else (inst.bb, None, 0)
    def runs(s, b, asg): return b in s.C.reach(s.start, asg, (), s.within, s.head)[0]
    def avoidable(s, frm, b, asg):
        """can the region be left from a block without passing b"""
        if frm is b: return False
        return s.C.reach(frm, asg, {b}, s.within, s.head)[1]
    def before(s, a, b, asg):
        """a is passed on every way to b"""
        return a is b or b not in s.C.reach(s.start, asg, {a}, s.within, s.head)[0]
    def controls(s, b, out=None):
        """branches that decide whether b runs"""
        out = out if out is not None else []
        blocks = s.within or set(s.f.blocks)
        for t in blocks:
            if len(t.succs) < 2 or t in out: continue
            d = [s.avoidable(x, b, {}) if x is not s.head and (s.within is None or x in s.within) else True for x in t.succs if x not in s.C.T.F.dead]
            if any(d) and not all(d): out.append(t); s.controls(t, out)
        return out

class Post:
    def __init__(s, T, st, k):
        a = st.args; s.st, s.T, s.k = st, T, k; s.kind, rq = POST[st.kind[0]]; s.req = a[rq]
        if s.kind == 'reduce':
            s.buf, s.len, s.peer, s.tag, s.comm = a[-1] if st.kind[0] == 'comm_iallreduce' else a[1], None, None, None, a[1] if st.kind[0] == 'comm_iallreduce' else a[5]
        else: s.buf, s.len, s.ty, s.peer, s.tag, s.comm = a[0], a[1], a[2], a[3], a[4], a[5]
        s.loops, s.conds = st.ctx; s.inst = st.inst

class Group:
    """posts up to and including the waits for them"""
    def __init__(s, posts, waits): s.posts, s.waits = posts, waits

def groups(T, steps):
    """([groups], posts nobody waits for in these steps); waits that follow posts directly belong to one group"""
    out = []; pend = []; cur = None
    for k, st in enumerate(steps):
        n = st.kind[0]
        if n in POST:
            if cur is not None and cur.waits: cur = None
            if cur is None: cur = Group([], [])
            cur.posts.append(Post(T, st, k))
        elif n in ('MPI_Waitall', 'MPI_Wait'):
            if cur is None: cur = Group([], [])
            cur.waits.append((k, st))
            if cur not in out: out.append(cur)
    left = cur.posts if cur is not None and not cur.waits else []
    return out, left

def interval(P, req, loops, base, wcount=None):
    """(start, number of slots) a post or wait stands for; None if the slots are not distinct. base: number of loops around the group"""
    extra = loops[base:]
    if not extra: return req, P.const(1) if wcount is None else wcount
    if len(extra) > 1: return None
    iv = ('iv', len(loops)); d = {m: c for m, c in req.items() if iv in m}
    if d != {(iv,): REQ} or wcount is not None: return None
    return {m: c for m, c in req.items() if iv not in m}, dict(extra[0])

def coalesce(P, ivs):
    """merge adjoining intervals"""
    ivs = [(dict(a), dict(n)) for a, n in ivs if n]
    go = True
    while go:
        go = False
        for i in range(len(ivs)):
            for j in range(len(ivs)):
                if i != j and P.k(P.add(ivs[i][0], P.mul(ivs[i][1], P.const(REQ)))) == P.k(ivs[j][0]):
                    ivs[i] = (ivs[i][0], P.add(ivs[i][1], ivs[j][1])); del ivs[j]; go = True; break
            if go: break
    return sorted(((P.k(a), P.k(n)) for a, n in ivs), key=repr)

def finite(m):
    """values a small field of a set-up record can have: {(strides, offset): set of constants}, from every store in the program"""
    val = {}
    for f in m.funcs.values():
        P = None
        for i in f.insts():
            if i.op != 'store' or i.ty not in ('i32', 'i64'): continue
            if P is None: P = LP(f)
            key = fkey(P.n(i.ops[1]))
            if key is None: continue
            vs = consts(P, P.n(i.ops[0]))
            val.setdefault(key, []).append(vs)
    return {k: tuple(sorted(set().union(*v))) for k, v in val.items() if all(x is not None for x in v) and len(set().union(*v)) <= 4}

def fkey(p):
    """(stride of the record, offset in it) of an address inside an array of records"""
    q = [c for mm, c in p.items() if any(a[0] == 'iv' for a in mm)]
    return (q[0], p.get((), 0) % q[0]) if len(q) == 1 and q[0] > 8 else None

def consts(P, p, seen=()):
    c = cv(p)
    if c is not None: return {c}
    if len(p) != 1: return None
    (mm, k), = p.items()
    if k != 1 or len(mm) != 1: return None
    a = mm[0]
    if a[0] == 'select':
        x, y = consts(P, dict(a[2]), seen), consts(P, dict(a[3]), seen)
        return None if x is None or y is None else x | y
    if a[0] == 'x' and a not in seen:
        inc = p05.phi_in(P, a[1])
        if inc is None: return None
        r = set()
        for q in inc:
            v = consts(P, q, seen + (a,))
            if v is None: return None
            r |= v
        return r
    if a[0] == 'icmp': return {0, 1}
    return None

def domain(P, fin):
    memo = {}
    def dom(a):
        if a in memo: return memo[a]
        r = None
        if a[0] == 'ld':
            k = fkey(dict(a[1])); r = fin.get(k) if k else None
        elif a[0] == 'x':
            v = consts(P, P.atom(a)); r = tuple(sorted(v)) if v and len(v) <= 4 else None
        memo[a] = r; return r
    return dom

def exchanges(m, methods):
    """(name, trace, steps, split) of every exchange: public routines with messages, and every installed routine in every mode"""
    out = []; slots = {x for v in methods.values() for x in v.values() if x}
    for f in m.funcs.values():
        if f.name in slots or '@w__' in f.name: continue
        if any(i.op == 'call' and plain(cname(m, i) or '') in (set(POST) | {'MPI_Waitall', 'MPI_Wait', 'MPI_Send', 'MPI_Recv'}) for i in f.insts()):
            T = Trace(m, f); out.append((plain(src(f)), [T], False))
    for setup, sl in sorted(methods.items()):
        for md in MODES + ('dry',):
            for t in (0, 1):
                tr = lambda s: Trace(m, m.funcs[f'@w__{sl[s][1:]}__{md}__{t}'])
                nm = f'{setup}:{md}:{"transposed" if t else "plain"}'
                if sl.get('exec'): out.append((nm, [tr('exec')], False))
                ts = [tr(s) for s in p05.SLOTS[1:] if sl.get(s)]
                if ts: out.append((nm + ':split', ts, True))
    return out
