"""P04: sends and receives of every exchange match"""
import itertools
import an, build, p05, msgs
from an import *
from msgs import *
from rounds import *
from rounds import HOLD
from p05 import Trace, Step

EXPLANATION = ('Matching analysis over the partially evaluated exchanges. R1 explicit: no receive uses a wildcard source or tag. R2 communicator: all messages of an exchange use one handle. R3 tags: the tag of every receive is the tag of the send it is meant for: both depend on stage and process count only, or both are the same function of the sender. '
  'R4 sizes: both ends use the same rank-independent length, or the length of a payload is the same word of what was announced to that peer, or number, peer and size come from the same position of one list. R5 halves: every loop that narrows the range of processes splits it into two adjoining parts at the process where the branch is taken, starting from all processes (affine abstract interpretation of one round for even and odd ranges). '
  'R6 partners: over one symbolic round, each send has exactly one receive at its target and the reverse (crystal router: a generic process and the special ones its conditions single out; trees: the first process of either half, the state being restored on the way up).')

def check(r):
    parallel(part, [c for c in build.ALL if c != 'serial'], r)
    r.need('tags', 20); r.need('sizes', 10); r.need('halves', 3); r.need('partners', 3)
    r.assume += ['process numbers and counts stay below 2^30', 'the two ends of a pairwise list are built from the same shared identifiers (set-up)', 'vector lengths and data types of an operation are the same on all processes']

KINDS = {'MPI_Irecv': 'recv', 'MPI_Recv': 'recv', 'MPI_Isend': 'send', 'MPI_Send': 'send'}

class Msg:
    def __init__(s, T, st, k): s.T, s.st, s.k = T, st, k; s.kind = KINDS[st.kind[0]]; s.buf, s.len, _, s.peer, s.tag, s.comm = st.args[:6]; s.where = st.inst.where; s.block = st.kind[0] in ('MPI_Recv', 'MPI_Send')

def part(r, cfg):
    m, methods = p05.residual(cfg); fin = finite(m); pats = {}
    for name, ts, split in exchanges(m, methods):
        steps = [s for t in ts for s in t.steps]; own = [t for t in ts for _ in t.steps]
        ms = [Msg(own[k], s, k) for k, s in enumerate(steps) if s.kind[0] in KINDS]
        if not ms: continue
        exchange(r, m, name, ts, steps, own, ms, fin, pats)
    seen = set()
    for f in m.funcs.values():
        n = src(f)
        if '@w__' in f.name or n in seen: continue
        if any(halves(f)): seen.add(n); ranges(r, m, f, pats)

# ---------------------------------------------------------------- per exchange
def exchange(r, m, name, ts, steps, own, ms, fin, pats):
    P = ts[0].P
    for x in ms:
        if x.kind != 'recv': continue
        bad = [w for w, p in (('source', x.peer), ('tag', x.tag)) if any(c < 0 for c in leaves_const(P, p))]
        if bad: r.bad('explicit', f'{name}:wildcard', x.where, f'{name}: a receive accepts any {bad[0]}')
        else: r.ok('explicit')
    hs = {P.k(x.comm) for x in ms}
    if len(hs) > 1: r.bad('communicator', name, ms[0].where, f'{name}: messages of one exchange use different communicators'); return
    r.ok('communicator')
    B = record(P, ms[0].comm)
    units = []; gs, left = groups(ts[0], steps)
    for g in gs:
        u = [x for x in ms if any(p.k == x.k for p in g.posts)]
        if u: units.append(u)
    bl = [x for x in ms if x.block]
    if bl: units.append(bl)
    for u in units: tags(r, name, P, u, B)
    for u in units:
        if not any(x.block for x in u): sizes(r, m, name, P, u, ms, B, fin)
    for u in units:
        pt = pattern(P, u, own, fin)
        if pt: pats.setdefault((fkey_of(P, u), name.split(':')[0] if ':' in name else name), []).append((name, pt, u[0].where))

def leaves_const(P, p, seen=()):
    """constants an integer can be (through merges and choices); only those that stand alone"""
    c = cv(p)
    if c is not None: return {c}
    if len(p) != 1: return set()
    (mm, k), = p.items()
    if k != 1 or len(mm) != 1: return set()
    a = mm[0]
    if a[0] == 'select': return leaves_const(P, dict(a[2]), seen) | leaves_const(P, dict(a[3]), seen)
    if a[0] == 'x' and a not in seen:
        inc = p05.phi_in(P, a[1])
        return set().union(*(leaves_const(P, q, seen + (a,)) for q in inc)) if inc else set()
    return set()

def record(P, h):
    """address of the communicator record a handle is read from"""
    if len(h) == 1:
        (mm, k), = h.items()
        if k == 1 and len(mm) == 1 and mm[0][0] == 'ld': return P.add(dict(mm[0][1]), P.const(8), -1)
    return None

def alike(P, p, B, allow=()):
    """depends only on what all processes share: constants, the stage, the number of processes, arguments, tables"""
    np_ = ('ld', P.k(P.add(B, P.const(4)))) if B is not None else None
    def at(a):
        if a == np_ or a in allow or a[0] in ('iv', 'p'): return True
        if a[0] == 'ld': return any(mm and mm[0][0] == 'g' for mm in dict(a[1])) and all(at(z) for mm in dict(a[1]) for z in mm if z[0] != 'g')
        if a[0] == 'g': return True
        return False
    return all(at(a) for mm in p for a in mm)

def tags(r, name, P, u, B):
    if B is None: r.notes.append(f'{name}: communicator record not found'); return
    me = ('ld', P.k(B)); forms = {}
    for x in u:
        if x.kind != 'send': continue
        a = x.tag.get((me,), 0); rest = {mm: c for mm, c in x.tag.items() if mm != (me,)}
        if P.mentions(rest, lambda z: z == me): r.bad('tags', f'{name}:own', x.where, f'{name}: the tag {P.show(x.tag)[:80]} of a send depends on the sender in a way its receiver cannot know'); return
        if not alike(P, rest, B):
            forms['?', P.k(x.tag)] = x; continue
        forms[a, P.k(rest)] = x
    used = set(); soft = False
    for x in u:
        if x.kind != 'recv': continue
        hit = None
        for f, y in forms.items():
            want = dict(f[1]) if f[0] == '?' else P.add(P.mul(x.peer, P.const(f[0])), dict(f[1]))
            if P.k(want) == P.k(x.tag): hit = f
        if hit is None:
            if not forms: r.bad('tags', f'{name}:nosend', x.where, f'{name}: receives from {P.show(x.peer)[:60]} in a step in which nothing is sent'); return
            r.bad('tags', f'{name}:match', x.where, f'{name}: expects tag {P.show(x.tag)[:60]} from process {P.show(x.peer)[:60]}, which sends with {show_form(P, sorted(forms, key=repr)[0])}'); return
        used.add(hit); soft |= hit[0] == '?'
    for f in forms:
        if f not in used:
            r.bad('tags', f'{name}:unreceived', forms[f].where, f'{name}: sends with {show_form(P, f)}, which nobody expects'); return
    if soft: r.notes.append(f'{name}: tag {P.show(u[0].tag)[:60]} equal on both sides but not recognised as the same on all processes')
    r.ok('tags', len(u))

def show_form(P, f):
    if f[0] == '?': return f'tag {P.show(dict(f[1]))[:60]}'
    return f'tag {P.show(dict(f[1]))[:60]}' + (f' + {f[0]}*own number' if f[0] else '')

def lin(p):
    """(c, address) of c*load"""
    if len(p) != 1: return None
    (mm, c), = p.items()
    return (c, dict(mm[0][1])) if len(mm) == 1 and mm[0][0] == 'ld' else None

def sizes(r, m, name, P, u, ms, B, fin):
    ln = {P.k(x.len) for x in u}
    if len(ln) == 1 and alike(P, u[0].len, B): r.ok('sizes', len(u)); return
    if any(P.k(x.len) for x in u) and all(listed(P, x) for x in u):
        us = {listed(P, x) for x in u}
        if len(us) == 1: r.ok('sizes', len(u))
        else: r.bad('sizes', f'{name}:list', u[0].where, f'{name}: sends and receives scale the listed sizes differently')
        return
    if name.split(':')[0] != name and all(unit(x) for x in u): recorded(r, m, name, P, u, fin); return
    forms = {}
    for x in u:
        if x.kind != 'recv': continue
        z = lin(x.len)
        if z is None: r.notes.append(f'{name}: length {P.show(x.len)[:60]} of a receive not followed'); return
        c, ad = z
        A = [(a, cv(P.add(ad, a.buf, -1))) for a in ms if a.kind == 'recv' and a.k < x.k and cv(P.add(ad, a.buf, -1)) is not None]
        A = [(a, o) for a, o in A if cv(a.len) is not None and 0 <= o < cv(a.len)]
        if not A: r.notes.append(f'{name}: length {P.show(x.len)[:60]} of a receive not followed'); return
        a, o = A[-1]
        if P.k(a.peer) != P.k(x.peer) or P.k(a.st.args[6]) != P.k(x.st.args[6]):
            if all(any(z[0] in ('select', 'x') for mm in p for z in mm) for p in (a.peer, x.peer)): r.notes.append(f'{name}: sender {P.show(x.peer)[:60]} of the payload not compared with that of its size'); return
            r.bad('sizes', f'{name}:peer', x.where, f'{name}: receives from {P.show(x.peer)[:50]} as many bytes as process {P.show(a.peer)[:50]} announced'); return
        forms[c, o] = x
    if len(forms) > 1: r.bad('sizes', f'{name}:word', u[0].where, f'{name}: receives of one step take their sizes from different words of the announcement'); return
    if not forms:
        r.notes.append(f'{name}: nothing received at {u[0].where}'); return
    (c, o), = forms
    for y in u:
        if y.kind != 'send': continue
        S = [a for a in ms if a.kind == 'send' and a.k < y.k and cv(a.len) is not None and cv(a.len) > o and P.k(a.peer) == P.k(y.peer)]
        if not S: r.bad('sizes', f'{name}:unannounced', y.where, f'{name}: sends to {P.show(y.peer)[:50]} without having announced the size to it'); return
        a = S[-1]; word = P.add(a.buf, P.const(o)); ok = P.k(y.len) == P.k(P.mul(P.const(c), P.atom(('ld', P.k(word)))))
        if not ok:
            vals = [v for v in stored(y.T.f, P, word)]
            ok = vals and all(P.k(P.mul(P.const(c), v)) == P.k(y.len) for v in vals)
        if not ok: r.bad('sizes', f'{name}:announced', y.where, f'{name}: sends {P.show(y.len)[:60]} bytes but announces word {P.show(word)[:40]}, of which the receiver expects {c} bytes each'); return
    r.ok('sizes', len(u))

def stored(f, P, addr):
    k = P.k(addr)
    return [P.n(i.ops[0]) for i in f.insts() if i.op == 'store' and P.k(P.n(i.ops[1])) == k]

def listed(P, x):
    """unit size if count, peer and length come from position iv of one list record {count@0, peers@8, sizes@16}"""
    z = lin(x.peer); L = x.st.ctx[0]
    if z is None or z[0] != 1 or not L: return None
    iv = ('iv', len(L)); rest = {mm: c for mm, c in z[1].items() if mm != (iv,)}
    if z[1].get((iv,)) != 4: return None
    q = lin(rest)
    if q is None or q[0] != 1: return None
    R = P.add(q[1], P.const(8), -1)
    if P.k(dict(L[-1])) != P.k(P.atom(('ld', P.k(R)))): return None
    want = ('ld', P.k(P.add(P.atom(('ld', P.k(P.add(R, P.const(16))))), {(iv,): 4})))
    if not any(want in mm for mm in x.len): return None
    return tuple(sorted(((tuple(a for a in mm if a != want), c) if want in mm else ('alone', mm, c) for mm, c in x.len.items()), key=repr))

def unit(x):
    """(unit size, field) of a length read from the stage record"""
    out = set()
    for mm, c in x.len.items():
        fs = [a for a in mm if a[0] == 'ld' and fkey(dict(a[1]))]
        if len(fs) != 1: return None
        out.add((tuple(a for a in mm if a != fs[0]), c, fkey(dict(fs[0][1]))))
    if not out or len({o[2] for o in out}) != 1: return None
    return tuple(sorted((o[:2] for o in out), key=repr)), next(iter(out))[2]

def pfield(x):
    z = lin(x.peer)
    return fkey(z[1]) if z and z[0] == 1 else None

def recorded(r, m, name, P, u, fin):
    """lengths read from what set-up recorded: the recorded words are those announced between the same partners"""
    us = {unit(x)[0] for x in u}
    if len(us) > 1: r.bad('sizes', f'{name}:unit', u[0].where, f'{name}: sends and receives scale the recorded sizes differently'); return
    f = next((f for f in m.funcs.values() if src(f) == name.split(':')[0] and '@w__' not in f.name), None)
    if f is None: return
    if f not in memo: memo[f] = announced(m, f)
    rec, snt = memo[f]
    for x in u:
        fl, pf = unit(x)[1], pfield(x)
        if pf is None: r.notes.append(f'{name}: partner {P.show(x.peer)[:60]} not from the record'); return
        w = rec.get(fl) if x.kind == 'recv' else snt.get(fl)
        if not w: 
            o = (snt if x.kind == 'recv' else rec).get(fl)
            if o: r.bad('sizes', f'{name}:direction', x.where, f'{name}: a {x.kind} uses the recorded size of the opposite direction'); return
            got = [(y, rec.get(unit(y)[1])) for y in u if y.kind == 'recv']; other = {k for k, v in snt.items() for p, o in v if p == pf and any(g and o in {b for a, b in g} for y, g in got)}
            if x.kind == 'send' and other: r.bad('sizes', f'{name}:announced', x.where, f'{name}: sends as much as is recorded at byte {fl[1]}, but what was announced to the same process is recorded at byte {sorted(other)[0][1]}'); return
            r.notes.append(f'{name}: recorded size at {fl} not followed to an announcement'); return
        if any(p != pf for p, o in w): r.bad('sizes', f'{name}:partner', x.where, f'{name}: a {x.kind} with the partner recorded at byte {pf[1]} uses the size announced by the partner recorded at byte {sorted(w)[0][0][1]}'); return
    ws = {o for x in u for p, o in (rec if x.kind == 'recv' else snt)[unit(x)[1]]}
    if len(ws) > 1: r.bad('sizes', f'{name}:word', u[0].where, f'{name}: sender and receiver use different words of the announcement'); return
    r.ok('sizes', len(u))
memo = {}

def announced(m, f):
    """set-up: recorded field -> {(partner field, word of the announcement)} for received and for sent announcements"""
    T = Trace(m, f); P = T.P; ms = [Msg(T, s, k) for k, s in enumerate(T.steps) if s.kind[0] in KINDS and cv(s.args[1]) is not None]
    rec = {}; snt = {}; st = {}
    for i in f.insts():
        if i.op == 'store' and i.ty in ('i32', 'i64'):
            k = fkey(P.n(i.ops[1])); st.setdefault(k, []).append(P.n(i.ops[0]))
    for k, vs in st.items():
        if k is None: continue
        for v in vs:
            z = lin(v)
            if z is None or z[0] != 1: continue
            for x in ms:
                o = cv(P.add(z[1], x.buf, -1))
                if x.kind == 'recv' and o is not None and 0 <= o < cv(x.len) and pfield(x): rec.setdefault(k, set()).add((pfield(x), o))
    for x in ms:
        if x.kind != 'send' or not pfield(x): continue
        for o in range(0, cv(x.len), 4):
            for v in stored(f, P, P.add(x.buf, P.const(o))):
                z = lin(v)
                if z and z[0] == 1 and fkey(z[1]): snt.setdefault(fkey(z[1]), set()).add((pfield(x), o))
                for k, vs in st.items():
                    if k is not None and any(P.k(v) == P.k(w) for w in vs) and cv(v) is None: snt.setdefault(k, set()).add((pfield(x), o))
    return rec, snt

# ---------------------------------------------------------------- partners read from the stage record
def fkey_of(P, u):
    z = pfield(u[0])
    return z[0] if z else None

def pattern(P, u, own, fin):
    """for a step whose partners are read from stage records: {values of the record's small fields: [(kind, partner field)]}"""
    if not all(pfield(x) for x in u): return None
    T = u[0].T
    if any(x.T is not T for x in u): return None
    C = Cases(T, domain(P, fin)); O = Outline(C, T.f.loop_of(u[0].st.inst.bb)); lv = {}
    for x in u:
        for t in O.controls(O.place(x.st.inst)[0]): C.bleaves(t, lv)
    L = T.f.loop_of(u[0].st.inst.bb); hd = {}
    if L is not None: C.bleaves(L.head, hd)
    names = [a for a, v in lv.items() if v]; rec = lambda a: a[0] == 'ld' and fkey(dict(a[1])) is not None
    if len(names) > 8 or any(not rec(a) and a not in hd for a in names): return None
    out = {}
    for vals in itertools.product(*(lv[a] for a in names)):
        asg = dict(zip(names, vals)); key = tuple(sorted((fkey(dict(a[1]))[1], v) for a, v in asg.items() if rec(a)))
        runs = sorted((x.kind, pfield(x)[1]) for x in u if O.runs(O.place(x.st.inst)[0], asg))
        if len(runs) > len(out.get(key, [])): out[key] = runs          # the loop test that goes on
        out.setdefault(key, runs)
    return out

# ---------------------------------------------------------------- one symbolic round
class Half:
    """a loop that narrows [base, base+n) to the part the process is in"""
    def __init__(s, L, n): s.L, s.n = L, n; s.base = None; s.id = None; s.cut = {}

def halves(f):
    for L in f.loops():
        t = L.head.term; c = f.defs.get(t.ops[0]) if t.op == 'br' and t.ops and isinstance(t.ops[0], str) else None
        if c is None or c.op != 'icmp' or len(L.head.succs) != 2: continue
        ops = list(c.ops); pr = c.extra
        if isinstance(ops[0], int): ops = ops[::-1]; pr = SWP[pr]
        if not isinstance(ops[1], int) or not isinstance(ops[0], str): continue
        if f.bb[t.extra[0]] not in L.body: pr = INV[pr]
        if (pr, ops[1]) not in (('ugt', 1), ('sgt', 1), ('ne', 1), ('uge', 2), ('sge', 2)): continue
        d = f.defs.get(ops[0])
        if d is None or d.op != 'phi' or d.bb is not L.head: continue
        # it shrinks by half: one of its next values is n>>1 or n - ((n+1)>>1), seen in one symbolic round
        yield Half(L, d.name)

class Split(Exception): pass

class World:
    """what is known about the range [B, B+n), n = 2h+e: bounds and excluded values of h and B, and signs of other forms"""
    def __init__(s, e, dom=None, facts=None): s.e = e; s.dom = dom or {'h': (1, None, frozenset()), 'B': (0, None, frozenset())}; s.facts = facts or {}
    def pin(s, v): lo, hi, ex = s.dom[v]; return {v: 1} if lo != hi else acst(lo)
    @property
    def h(s): return s.pin('h')
    @property
    def b(s): return s.pin('B')
    @property
    def n(s): return aadd(amul(s.h, 2), acst(s.e))
    @property
    def low(s): return {'h': s.dom['h'][0], 'B': s.dom['B'][0], 'g': 0}
    def put(s, a):
        out = {}
        for t, c in a.items(): out = aadd(out, amul(s.pin(t), c) if t in ('h', 'B') else {t: c})
        return out
    def signs(s, D):
        D = s.put(D); v = [t for t in D if t != ()]; c = D.get((), 0)
        if not v: return {(c > 0) - (c < 0)}
        if len(v) == 1:
            k = D[v[0]]; lo, hi, ex = s.dom[v[0]]; out = set(); a = k * lo + c; b = None if hi is None else k * hi + c
            for x in ((a, b) if b is not None else (a, k * 10**9)): out.add((x > 0) - (x < 0))
            out.discard(0)
            if c % k == 0 and lo <= -c // k and (hi is None or -c // k <= hi) and -c // k not in ex: out.add(0)
            return out or {-1, 0, 1}
        for k in (1, -1):
            z = s.facts.get(akey(amul(D, k)))
            if z: return {k * x for x in z}
        return {-1, 0, 1}
    def holds(s, pr, D):
        w = {v for v in (-1, 0, 1) if HOLD[pr if pr in ('eq', 'ne') else pr.lstrip('us')](v)}; g = s.signs(D)
        return True if g <= w else False if not g & w else None
    def add(s, pr, D):
        q = pr if pr in ('eq', 'ne') else pr.lstrip('us'); D = s.put(D); v = [t for t in D if t != ()]
        if len(v) != 1: return World(s.e, s.dom, {**s.facts, akey(D): {x for x in s.signs(D) if HOLD[q](x)}})
        k = D[v[0]]; c = D.get((), 0); lo, hi, ex = s.dom[v[0]]
        if k < 0: q = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(q, q); k, c = -k, -c
        fl = -c // k; ce = -(c // k)         # v <= fl iff k*v+c <= 0; v >= ce iff >= 0
        if q == 'eq':
            if fl != ce: return None
            lo, hi = max(lo, fl), fl if hi is None else min(hi, fl)
        elif q == 'ne': ex = ex | {fl} if fl == ce else ex
        elif q == 'le': hi = fl if hi is None else min(hi, fl)
        elif q == 'lt': hi = ce - 1 if hi is None else min(hi, ce - 1)
        elif q == 'ge': lo = max(lo, ce)
        elif q == 'gt': lo = max(lo, fl + 1)
        while lo in ex and (hi is None or lo <= hi): lo += 1
        while hi is not None and hi in ex and lo <= hi: hi -= 1
        return None if hi is not None and lo > hi else World(s.e, {**s.dom, v[0]: (lo, hi, ex)}, s.facts)
    def split(s, pr, D): return [w for w in (s.add(pr, D), s.add(INV[pr], D)) if w]
    def shared(s, o):
        for pr, a, b in o.assume:
            if pr == '?': continue
            D = s.put(aadd(a, b, -1))
            if all(t in ('h', 'B', ()) for t in D): yield pr, D
    def keep(s, outs): return [o for o in outs if not any(s.holds(pr, D) is False for pr, D in s.shared(o))]
    def undecided(s, outs):
        for o in outs:
            for pr, D in s.shared(o):
                if s.holds(pr, D) is None: raise Split(pr, D)

def worlds(fn):
    """fn for every case of the range that makes a difference"""
    st = [World(0), World(1)]; k = 0
    while st:
        w = st.pop(); k += 1
        if k > 40: raise TooMany()
        try: go = fn(w)
        except Split as z: st += w.split(*z.args); continue
        if go is False: return

LOW = {'h': 1, 'B': 0, 'g': 0}

def state(f, H, W):
    env = {}
    for d in H.L.head.insts:
        if d.op == 'phi': env[d.name] = {('s', d.name): 1}
    env[H.n] = W.n
    if H.base: env[H.base] = W.b
    return env

def inside(L): return next((x for x in L.head.succs if x in L.body), None)

def engine(f, P, subs=None, W=None):
    R = Rounds(f, P, subs, W.low if W else LOW); R.stops = {L.head for L in f.loops() if L.parent is None}
    return R

def round_(R, L, env):
    stops = {M.head for M in R.f.loops() if M.depth <= L.depth}
    return R.run(inside(L), L.head, env, stops)

def learn(r, f, P, H, where):
    """roles of the variables of a halving loop; False if it is none"""
    kids = {}
    for e in (0, 1):
        R = engine(f, P)
        try: outs = round_(R, H.L, state(f, H, World(e)))
        except TooMany: return None
        got = {}; pins = []
        for o in outs:
            if o.end is not H.L.head: continue
            z = cut(o)
            if z is None:
                if not any(pr == 'eq' for pr, a, b in o.assume): return None
                pins.append(o); continue
            t, X, up = z
            got.setdefault(up, set()).add((akey(o.phis[H.n]), tuple(sorted((n, akey(v)) for n, v in o.phis.items()))))
            H.cut.setdefault(e, set()).add((t, akey(X)))
        if set(got) != {True, False} or len(H.cut[e]) != 1: return None
        kids[e] = got; t, X = next(iter(H.cut[e]))
        for o in pins:                   # a single process, singled out by an equality
            D = [aadd(a, b, -1) for pr, a, b in o.assume if pr == 'eq']; D = next((d for d in D if abs(d.get(t, 0)) == 1), None)
            if D is None: return None
            sg = R.sign(aadd(aadd({t: 1}, amul(D, D[t]), -1), dict(X), -1))
            if sg not in ('+', '0', '-'): return None
            got[sg != '-'].add((akey(o.phis[H.n]), tuple(sorted((n, akey(v)) for n, v in o.phis.items()))))
    ids = {t for e in (0, 1) for t, X in H.cut[e]}
    bases = {s for e in (0, 1) for t, X in H.cut[e] for s, c in X if s != () and s != 'h' and not isinstance(s, str) and s[0] == 's'}
    if len(ids) != 1 or len(bases) != 1: return None
    H.id = ids.pop(); b = bases.pop(); H.base = b[1]
    H.nl = {e: aadd(dict(next(iter(H.cut[e]))[1]), {b: 1}, -1) for e in (0, 1)}
    if any(set(v) - {'h', ()} for v in H.nl.values()) or any(v.get('h') != 1 for v in H.nl.values()): return None
    R = engine(f, P); bad = None
    for e in (0, 1):
        nl = H.nl[e]; nh = aadd(World(e).n, nl, -1)
        if R.sign(nl) != '+' or R.sign(nh) != '+': bad = f'the range is split into {ashow(nl)} and {ashow(nh)} processes'
        for up, want_b, want_n in ((False, {b: 1}, nl), (True, aadd({b: 1}, nl), nh)):
            for n, ph in kids[e][up]:
                gb = dict(dict(ph)[H.base])
                if akey(gb) != akey(want_b) or n != akey(want_n):
                    bad = f'of {ashow(World(e).n)} processes from base, the {"upper" if up else "lower"} part (cut at base + {ashow(nl)}) goes on as {ashow(dict(n))} from {ashow(gb).replace(b[1].lstrip("%"), "base")}'
    if bad: r.bad('halves', plain(src(f)), where, f'{plain(src(f))}: {bad}'); return None
    r.ok('halves', 4)
    return H

def cut(o):
    """(symbol of the process number, X, process number >= X)"""
    for pr, a, b in o.assume:
        if pr in ('eq', 'ne', '?'): continue
        D = aadd(a, b, -1); ld = [s for s in D if s != () and not isinstance(s, str) and s[0] == 'ld']; ss = [s for s in D if s != () and not isinstance(s, str) and s[0] == 's']
        if 'h' not in D or len(ld) != 1 or len(ss) != 1 or abs(D[ld[0]]) != 1: continue
        k = D[ld[0]]; X = aadd({ld[0]: 1}, amul(D, k), -1); q = pr.lstrip('us')
        if k < 0: q = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}[q]
        if q in ('gt', 'le'): X = aadd(X, {(): 1}); q = {'gt': 'ge', 'le': 'lt'}[q]
        return ld[0], X, q == 'ge'
    return None

def where_of(L): return next((i.where for b in (L.head, inside(L)) if b for i in b.insts if i.dbg), '?')

def messages(o):
    """phases of a round: [[(kind, partner, tag, length, where)]]"""
    ph = [[]]
    for n, v, i in o.events:
        if n in KINDS: 
            ph[-1].append((KINDS[n], v[3], v[4], v[1], i.where))
            if n in ('MPI_Send', 'MPI_Recv'): ph.append([])
        elif n in ('MPI_Waitall', 'MPI_Wait') and ph[-1]: ph.append([])
    return [p for p in ph if p]

def ranges(r, m, f, pats):
    P = LP(f); name = plain(src(f)); hs = []
    for H in halves(f):
        z = learn(r, f, P, H, where_of(H.L))
        if z: hs.append(z)
    if not hs: return
    byhead = {H.L.head: H for H in hs}
    for H in hs:
        L = H.L; own = any(KINDS.get(plain(cname(m, i) or '')) for b in L.body for i in b.insts if i.op == 'call' and f.loop_of(b) is not None)
        msgs_ = [i for b in L.body for i in b.insts if i.op == 'call' and plain(cname(m, i) or '') in KINDS]
        init = {d.name: next((v for v, l in zip(d.ops, d.extra) if (f.bb[l] if isinstance(l, str) else l) not in L.body), None) for d in L.head.insts if d.op == 'phi'}
        whole = isinstance(init.get(H.base), int)
        if whole and init[H.base] != 0: r.bad('halves', f'{name}:start', where_of(L), f'{name}: the range starts at process {init[H.base]} instead of 0'); continue
        if whole:
            np_ = P.n(init[H.n]); want = ('ld', P.k(P.add(dict(H.id[1]), P.const(4))))
            if P.k(np_) == P.k(P.atom(want)): r.ok('halves')
            else: r.bad('halves', f'{name}:start', where_of(L), f'{name}: the range starts as {P.show(np_)[:60]} processes, not all of them')
        if msgs_ and whole and all(opaque_peer(P, i) is None for i in msgs_): router(r, f, P, H, name, lambda o: messages(o))
        elif whole and not msgs_: schedule(r, m, f, P, H, name, pats)
        elif msgs_ and not whole: down(r, f, P, H, name)
    for L in f.loops():
        if L.head in byhead or L.parent is not None: continue
        if any(i.op == 'call' and plain(cname(m, i) or '') in KINDS for b in L.body for i in b.insts): up(r, m, f, P, L, hs, name)

def opaque_peer(P, i):
    z = lin(P.n(i.ops[3]))
    return fkey(z[1]) if z and z[0] == 1 else None

def at(f, P, H, W, pt):
    """outcomes of a round for the process base+pt"""
    R = engine(f, P, {H.id[1]: aadd(W.b, pt)}, W); R.ids = {H.id}
    return W.keep(round_(R, H.L, state(f, H, W)))

def generic(o, found):
    """not one of the processes a condition singles out (which are noted)"""
    ok = True
    for pr, a, b in o.assume:
        if pr in ('eq', 'ne'):
            D = aadd(a, b, -1); k = D.get('g')
            if not k: continue
            rest = {s: c for s, c in D.items() if s != 'g'}
            if all(c % k == 0 for c in rest.values()): found.append({s: -c // k for s, c in rest.items()})
            if pr == 'eq': ok = False
    return ok

def tk(t): return None if t is None else akey(t)

def router(r, f, P, H, name, get, label=None):
    """every process of the range takes part: a generic one, and those singled out"""
    cnt = [0]
    def go(W):
        B = W.b; NN = W.n
        pts = [{'g': 1}]; done = set(); tab = {}
        def msgs_at(pt, spec):
            k = akey(pt)
            if k not in tab:
                found = []; outs = [o for o in at(f, P, H, W, pt) if o.end is H.L.head]
                sp = [o for o in outs if generic(o, found)] if 'g' in pt else outs
                spec += found
                alls = [get(o) for o in sp]
                if any(a is None for a in alls) or not alls: W.undecided(sp); tab[k] = None
                else:
                    alls = [[x for ph in a for x in ph] for a in alls]
                    canon = {tuple(sorted(((q[0], akey(q[1]), tk(q[2])) for q in a), key=repr)) for a in alls}
                    if len(canon) > 1: W.undecided(sp)
                    tab[k] = alls[0] if len(canon) == 1 else None
            return tab[k]
        n = 0
        while pts:
            pt = pts.pop(0)
            if akey(pt) in done or len(done) > 16: continue
            done.add(akey(pt)); spec = []
            ms = msgs_at(pt, spec)
            if ms is None: r.notes.append(f'{name}: round of process base + {ashow(pt)} of {ashow(NN)} not followed'); return
            R = engine(f, P, None, W)
            for kind, peer, tag, ln, where in ms:
                q = aadd(peer, B, -1)
                if any(s not in ('h', 'g', ()) for s in q): r.notes.append(f'{name}: partner {ashow(peer)} not followed'); return
                if 'g' not in q:
                    if R.sign(q) == '-' or R.sign(aadd(NN, q, -1)) in ('-', '0', '<='):
                        r.bad('partners', f'{name}:range', where, f'{name}: of {ashow(NN)} processes, number {ashow(pt)} {"sends to" if kind == "send" else "receives from"} {ashow(q)}, which is outside the range'); return False
                    if 'g' in pt: r.bad('partners', f'{name}:generic', where, f'{name}: all processes {"send to" if kind == "send" else "receive from"} number {ashow(q)}'); return False
                    pts.append(q)
                elif q['g'] == -1:
                    if akey(aadd(q, {'g': 1})) != akey(aadd(NN, {(): 1}, -1)):
                        r.bad('partners', f'{name}:mirror', where, f'{name}: partners are mirrored about {ashow(aadd(q, {"g": 1}))} in a range of {ashow(NN)}, so that some lie outside'); return False
                else:
                    r.bad('partners', f'{name}:shift', where, f'{name}: every process of the range has partner {ashow(q)}, which is outside the range for some'); return False
                back = msgs_at(q, spec)
                if back is None: r.notes.append(f'{name}: partner {ashow(q)} of {ashow(NN)} not followed'); return
                other = [x for x in back if x[0] != kind and akey(x[1]) == akey(aadd(B, pt)) and tk(x[2]) == tk(tag)]
                same = [x for x in ms if x[0] == kind and akey(x[1]) == akey(peer) and tk(x[2]) == tk(tag)]
                if len(other) != len(same):
                    r.bad('partners', name, where, f'{name}: of {ashow(NN)} processes, number {ashow(pt)} {"sends to" if kind == "send" else "receives from"} number {ashow(q)}, which {"receives from" if kind == "send" else "sends to"} it {len(other) or "no"} time{"s" if len(other) != 1 else ""} for {len(same)}' + (f' ({label})' if label else '')); return False
                n += 1
            pts += [x for x in spec if R.sign(x) != '-' and R.sign(aadd(NN, x, -1)) not in ('-', '0', '<=')]
        cnt[0] += n
    try: worlds(go)
    except TooMany: r.notes.append(f'{name}: too many cases in a round'); return
    if cnt[0]: r.ok('partners', cnt[0])

def schedule(r, m, f, P, H, name, pats):
    """partners are recorded for later: combine with the patterns of the exchanges that read the record"""
    flds = {}
    for b in H.L.body:
        for i in b.insts:
            if i.op == 'store' and i.ty in ('i32', 'i64') and fkey(P.n(i.ops[1])): flds.setdefault(fkey(P.n(i.ops[1])), 0)
    strides = {k[0] for k in flds}
    for (st, who), lst in sorted(pats.items(), key=repr):
        if st not in strides: continue
        for name2, pt, where in lst:
            used = {o for c in pt for o, v in c} | {x[1] for v in pt.values() for x in v}
            if not used <= {k[1] for k in flds if k[0] == st}: continue
            def get(o):
                vals = {}
                for n, v, i in o.events:
                    if n == 'store' and fkey(v[0]) and fkey(v[0])[0] == st: vals.setdefault(fkey(v[0])[1], {})[akey(v[1])] = v[1]
                if any(len(vals.get(u, {})) != 1 for u in used): return None
                cur = {u: next(iter(vals[u].values())) for u in used}
                for c, l in pt.items():
                    if all(acv(cur[o_]) == v for o_, v in c): return [[(k, cur[x], None, None, where) for k, x in l]]
                return None
            router(r, f, P, H, name2, get, f'partners recorded by {name}')

def pair(r, name, what, W, lo, hi, base_lo, base_hi):
    """messages of the first processes of both halves"""
    n = 0
    for mine, theirs, me, you in ((lo, hi, base_lo, base_hi), (hi, lo, base_hi, base_lo)):
        for kind, peer, tag, ln, where in mine:
            if akey(peer) != akey(you): r.bad('partners', f'{name}:{what}:peer', where, f'{name}: of {ashow(W.n)} processes, the first of the {"lower" if me is base_lo else "upper"} half {"sends to" if kind == "send" else "receives from"} {ashow(peer)} instead of {ashow(you)}'); return False
            o = [x for x in theirs if x[0] != kind and akey(x[1]) == akey(me)]
            if len(o) != 1: r.bad('partners', f'{name}:{what}', where, f'{name}: of {ashow(W.n)} processes, {ashow(me)} {"sends to" if kind == "send" else "receives from"} {ashow(peer)}, which {"receives from" if kind == "send" else "sends to"} it {len(o) or "no"} times'); return False
            if akey(o[0][2]) != akey(tag): r.bad('tags', f'{name}:{what}', where, f'{name}: {ashow(me)} uses tag {ashow(tag)} towards {ashow(peer)}, which uses {ashow(o[0][2])}'); return False
            if akey(o[0][3]) != akey(ln): r.bad('sizes', f'{name}:{what}', where, f'{name}: {ashow(me)} and {ashow(peer)} disagree on the length of their message'); return False
            n += 1
    if not n: r.bad('partners', f'{name}:{what}:none', '?', f'{name}: the halves of a range do not exchange anything')
    else: r.ok('partners', n); r.ok('sizes', n)

def one(outs, W):
    """the messages of a round if all its outcomes have the same"""
    ms = [messages(o) for o in outs]
    flat = [[x for ph in a for x in ph] for a in ms]
    canon = {tuple((k, akey(p), akey(t), akey(l)) for k, p, t, l, w in a) for a in flat}
    if len(canon) > 1: W.undecided(outs)
    return flat[0] if len(canon) == 1 else None

def down(r, f, P, H, name):
    def go(W):
        nl = W.put(H.nl[W.e]); res = [one(at(f, P, H, W, pt), W) for pt in ({}, nl)]
        if any(x is None for x in res): r.notes.append(f'{name}: a round on the way down not followed'); return
        return pair(r, name, 'down', W, res[0], res[1], W.b, aadd(W.b, nl))
    try: worlds(go)
    except TooMany: r.notes.append(f'{name}: a round on the way down not followed')

def up(r, m, f, P, L, hs, name):
    """the way up undoes the way down"""
    for H in hs:
        link = {}
        for d in L.head.insts:
            if d.op != 'phi': continue
            v = next((v for v, l in zip(d.ops, d.extra) if (f.bb[l] if isinstance(l, str) else l) not in L.body), None)
            while isinstance(v, str) and f.defs.get(v) is not None and f.defs[v].op == 'phi' and len(f.defs[v].ops) == 1: v = f.defs[v].ops[0]
            if isinstance(v, str) and f.defs.get(v) is not None and f.defs[v].bb is H.L.head and f.defs[v].op == 'phi': link[d.name] = v
        if H.n in link.values() and H.base in link.values(): break
    else:
        return
    D = [h for h in hs if h.L is not H.L]
    def go(W):
        res = []; nl = W.put(H.nl[W.e])
        for u in (0, 1):
            pt = nl if u else {}
            outs = [o for o in at(f, P, H, W, pt) if o.end is H.L.head]
            if len({tuple(sorted((k, akey(v)) for k, v in o.phis.items())) for o in outs}) != 1: W.undecided(outs); r.notes.append(f'{name}: way down not followed'); return
            env = {d: outs[0].phis[s] for d, s in link.items()}
            for d in L.head.insts:
                if d.op == 'phi' and d.name not in env: env[d.name] = {('s', d.name): 1}
            R = engine(f, P, {H.id[1]: aadd(W.b, pt)}, W); R.ids = {H.id}
            ups = W.keep(round_(R, L, env))
            pre = state(f, H, W)
            for o in ups:
                if o.end is L.head: got = {s: o.phis[d] for d, s in link.items()}
                else:
                    h = next((h for h in D if h.L.head is o.end), None)
                    if h is None: continue
                    got = {H.n: o.phis[h.n], H.base: o.phis[h.base]}
                for s, v in got.items():
                    if akey(v) != akey(pre[s]):
                        W.undecided(ups)
                        what = {H.n: 'the number of processes', H.base: 'the first process'}.get(s, 'the record of the way down')
                        if opaque(v) and not freeparity(v): r.notes.append(f'{name}: {what} on the way up not followed'); return
                        r.bad('partners', f'{name}:restore', where_of(L), f'{name}: on the way up from the {"upper" if u else "lower"} half of {ashow(pre[H.n])} processes, {what} becomes {ashow(v)} instead of {ashow(pre[s])}'); return False
            x = one(ups, W)
            if x is None: r.notes.append(f'{name}: messages on the way up not followed'); return
            res.append(x)
        return pair(r, name, 'up', W, res[0], res[1], W.b, aadd(W.b, nl))
    try: worlds(go)
    except TooMany: r.notes.append(f'{name}: way up not followed')

def freeparity(v):
    """everything unknown in it is the parity of what the round before left, which nothing relates to the process number"""
    return all(t[1] == 'mod' and all(u == () or not isinstance(u, str) and u[0] == 's' for u, c in t[2]) for t in v if t != () and not isinstance(t, str) and t[0] == 'o') and not any(t != () and not isinstance(t, str) and t[0] in ('x', 'c', 'sel', 'ld') for t in v)

def opaque(v): return any(t != () and not isinstance(t, str) and t[0] in ('o', 'x', 'c', 'sel', 'ld') for t in v)
