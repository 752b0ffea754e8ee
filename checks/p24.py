"""P24: every point receives a complete answer"""
import build
from an import *
from walk import *
EXPLANATION = ('Abstract execution, over polynomials, of one round of every loop of the search and evaluation routines (both dimensions, LLVM IR, helpers placed into them, loops over the dimensions unrolled). On every path either all parts of a point\'s answer (status, process, element, coordinates, distance) are written, for one point, '
  'all from one candidate, or none; a candidate replaces the answer exactly when there is none yet, or it is interior, or it is nearer, and never an interior one; the status starts as not found; points still open are sent on complete and come back to the process and the place they are from; '
  'running winners are replaced as a whole; evaluation takes all found points and no others, sends their coordinates and element, and writes each value to the place of its point.')
U = ',function(loop-simplify,lcssa,loop(loop-unroll-full),sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify,lcssa)|-unroll-threshold=20000|-unroll-partial-threshold=0'
INTERNAL, NOTFOUND = 0, 2

class Fn:
    def __init__(s, m, name):
        f = m.find(name); f = f[0] if isinstance(f, list) else f
        if f is None: raise build.Broken(f'{name} not found')
        s.m, s.f = m, f; s.W = W = Walk(f, noret_funcs(m), 60000); s.loops = []
        for L in f.loops():
            if not any(i.op == 'store' or i.op == 'call' and (cname(m, i) or '').startswith('llvm.mem') for b in L.body for i in b.insts): continue
            try: o = W.run(L.head, {i.name: W.atom(('x', i.name)) for i in L.head.insts if i.op == 'phi'}, stop=L.head, within=L.body)
            except Blowup: continue
            s.loops.append((L, [(p, nx) for p, b, nx in o if b is L.head]))
        s.calls = [(b, i, cname(m, i), [W.n(v) for v in i.ops]) for b in f.blocks for i in b.insts if i.op == 'call' and cname(m, i)]
    def P(s, k): return s.W.atom(('p', k))
    def ld(s, a): return s.W.atom(('ld', s.W.k(a)))
    def entry(s, L, name):
        i = s.f.defs[name]; W = s.W; W.path = None
        v = [W.n(v) for v, l in zip(i.ops, i.extra) if (s.f.bb[l] if isinstance(l, str) else l) not in L.body]
        return v[0] if v and all(x == v[0] for x in v) else None
    def stores(s, p): return [(e[1], e[2], e[3]) for e in p.ev if e[0] == 'store']
    def own(s, L, p, lp=None):
        """stores of this loop itself, in the order made"""
        inner = {b for l in s.f.loops() if l is not L and l.head in L.body for b in l.body}
        return [(e[1], e[2], e[3]) for e in p.ev if e[0] == 'store' and e[3].bb not in inner]
    def fact(s, p, q):
        """whether q is zero on the path"""
        W = s.W
        if not q: return True
        if set(q) == {()}: return False
        if sorted(q.items(), key=repr)[0][1] < 0: q = {m: -c for m, c in q.items()}
        z = p.facts.get(('eq', W.k(q)))
        if z is None and len(q) == 2 and () in q:
            b = {(): -q[()]}; a = {m: c for m, c in q.items() if m}
            if set(a.values()) == {-1}: a, b = {m: -c for m, c in a.items()}, {(): q[()]}
            lo, hi = p.facts.get(('ult', W.k(a), W.k(b))), p.facts.get(('ult', W.k(b), W.k(a)))
            if lo or hi: return False
            if lo is False and hi is False: return True
        return z
    def less(s, p, a, b): return p.facts.get(('flt', s.W.k(a), s.W.k(b)))
    def place(s, a, base, stride):
        """a as base + stride * number + offset: (number, offset)"""
        W = s.W; D = W.add(a, s.P(base), -1); st = ('p', stride); num = {}; off = {}
        for m, c in D.items():
            if st in m:
                l = list(m); l.remove(st); num[tuple(l)] = c
            elif not m: off[m] = c
            else: return None
        return (num, off.get((), 0)) if num else None

def answers(F, L, p, roles, D):
    """{role: (value, number of the point, inst)} written by this round"""
    out = {}
    for a, v, i in F.own(L, p):
        for role, (b, st) in roles.items():
            z = F.place(a, b, st)
            if z is None: continue
            num, off = z
            nm = role + str(off // 8) if role == 'r' else role
            if role != 'r' and off: continue
            out[nm] = (v, num, i)
    return out

def check(r):
    for cfg in (['default', 'nbc', 'serial'] if r.tier == 'thorough' else ['default']):
        m = norm(cfg, build.NORMAL + U)
        for D in (2, 3):
            for part in (local, search, evaluate, values):
                try: part(r, m, D)
                except (KeyError, IndexError, StopIteration, AttributeError, TypeError, ValueError) as e: r.notes.append(f'{part.__name__} (dimension {D}): not followed ({type(e).__name__})')
    if not r.viol and not r.notes:
        for k in ('whole', 'candidate', 'decision', 'start', 'send-on', 'evaluation'): r.need(k, 1)
    r.assume += ['the search of one element (findpts_el) gives each of its points flags, coordinates and distance together', 'sorting and record transfer keep records whole (P21)']

def codeof(v): return v.get((), 0) if set(v) <= {()} else None

def local(r, m, D):
    F = Fn(m, f'findptsms_local_{D}'); W = F.W; c = W.const; name = src(F.f)
    bad = lambda rule, key, msg, w: r.bad(rule, f'{name}:{key}', w, msg)
    roles = {'code': (0, 1), 'el': (2, 3), 'r': (4, 5), 'dist2': (6, 7), 'disti': (12, 13), 'elsid': (14, 15)}
    core = ['code', 'el', 'dist2'] + [f'r{k}' for k in range(D)]
    t = f'%struct.findpts_el_pt_{D}'; fs = m.struct_fields(t) or []
    if not {'x', 'r', 'dist2', 'flags'} <= set(fs): r.notes.append(f'{name}: the record of a candidate has other parts now; not judged'); return
    off = {k: m.field_off(t, fs.index(k)) for k in ('x', 'r', 'dist2', 'flags')}; size = m.size(t); seen = 0; begun = 0
    # status set to "not found" for every point first
    for L, rounds in F.loops:
        for n in [i.name for i in L.head.insts if i.op == 'phi']:
            x = W.atom(('x', n))
            if F.entry(L, n) == F.P(0) and all(W.sub(x, nx) == W.add(x, F.P(1)) for p, nx in rounds):
                at = x
            elif F.entry(L, n) == {} and all(W.sub(x, nx) == W.add(x, c(1)) for p, nx in rounds): at = W.add(F.P(0), W.mul(x, F.P(1)))
            else: continue
            st = [[v for a, v, i in F.own(L, p) if a == at] for p, nx in rounds]
            if not any(st): continue
            if any(not v or v[-1] != c(NOTFOUND) for v in st): bad('start', 'status', 'the status of a point is not set to "not found" before the search on some path', L.head.term.where)
            elif not every(F, L, rounds, F.P(17)): bad('start', 'all', 'the status is not set for all points', L.head.term.where)
            else: r.ok('start')
            begun += 1; first = L; break
    if not begun: bad('start', 'none', 'the status of the points is not set to "not found" before the search', F.f.blocks[0].term.where)
    fill = {}
    for L, rounds in F.loops:
        # candidates are taken in
        for p, nx in rounds:
            for a, v, i in F.own(L, p):
                q = v.items() and [z for mm in v for z in mm]
                if q and len(q) == 1 and q[0][0] == 'ld' and any(z == ('ld', W.k(F.P(8))) or z[0] == 'ld' and W.mentions({(z,): 1}, lambda y: y == ('p', 8)) for mm in dict(q[0][1]) for z in mm): fill[L] = rounds
    for L, rounds in F.loops:
        got = [(p, nx, answers(F, L, p, roles, D)) for p, nx in rounds]
        if not any('el' in a or 'dist2' in a or 'r0' in a for p, nx, a in got): continue
        seen += 1; where = L.head.term.where
        for p, nx, a in got:
            w = next(iter(a.values()))[2].where if a else where
            miss = [k for k in core if k not in a]
            if a and miss: bad('whole', 'parts', f'an answer is written without its {", ".join(miss)}', w); continue
            if not a: numq = None
            else:
                nums = {W.k(z[1]) for z in a.values()}
                if len(nums) != 1: bad('whole', 'point', 'the parts of an answer are written for different points', w); continue
                ims = [k for k in p.facts if k[0] == 'eq']
                if any(k not in a for k in ('disti', 'elsid')) and not off_ms(F, p): bad('whole', 'session', 'an answer is written without session and distance to the interface', w); continue
                r.ok('whole')
            decide(F, r, bad, p, nx, a, roles, off, size, D, w, got)
        # the two passes over the points of an element agree
        for M, rm in fill.items():
            agree(F, r, bad, L, rounds, M, rm, size, off, D)
    entries(F, r, bad)
    for M, rm in fill.items(): taken(F, r, bad, M, rm, size, off, D)
    if not seen: bad('whole', 'none', 'no answers are written', F.f.blocks[0].term.where)

def counters(F, L, rounds):
    """numbers that start at 0 and go up by one on some rounds"""
    W = F.W; out = []
    for i in L.head.insts:
        if i.op != 'phi' or F.entry(L, i.name) != {}: continue
        x = W.atom(('x', i.name)); d = {W.k(W.add(W.sub(x, nx), x, -1)) for p, nx in rounds}
        if d <= {(), W.k(W.const(1))} and len(d) > 0 and d != {()}: out.append(x)
    return out

def entries(F, r, bad):
    """the list of places to look at holds each point with the element whose box it is in"""
    W = F.W; c = W.const
    for L, rounds in F.loops:
        for p, nx in rounds:
            st = F.own(L, p)
            for a, v, i in st:
                two = [v2 for a2, v2, i2 in st if a2 == W.add(a, c(4))]
                if not two or i.ty == 'ptr': continue
                q = [z for mm in two[-1] for z in mm]; e = two[-1]
                if len(q) != 1 or q[0][0] != 'ld' or e != W.atom(q[0]): continue
                box = lambda y: y[0] == 'ld' and any(q[0] in mm and len(mm) == 1 for mm in dict(y[1])) and dict(y[1])[(q[0],)] > 8
                A = dict(q[0][1])
                if not any(z[0] == 'x' for mm in v for z in mm): continue
                seen = any(W.mentions(dict(t), box) for k in p.facts for t in k[1:] if isinstance(t, tuple))
                if W.add(W.sub(A, nx), A, -1) != c(4) or not seen: bad('candidate', 'entry', 'a point is to be looked for in an element other than the one whose box was tested', i.where)
                else: r.ok('candidate')

def taken(F, r, bad, M, rm, size, off, D):
    """each point is given to the search with its own coordinates, and all of them are searched"""
    W = F.W; c = W.const
    for p, nx in rm:
        for a, v, i in F.own(M, p):
            q = [z for mm in v for z in mm]
            if len(q) != 1 or q[0][0] != 'ld' or v != W.atom(q[0]): continue
            A = dict(q[0][1]); ax = [z for mm in A for z in mm if z[0] == 'ld' and W.add(dict(z[1]), F.P(8), -1).keys() <= {()}]
            if len(ax) != 1: continue
            e = W.add(dict(ax[0][1]), F.P(8), -1).get((), 0); rest = W.add(A, W.atom(ax[0]), -1); st = ('ld', W.k(W.add(F.P(9), c(e // 2)))); num = {}
            for mm, k in rest.items():
                l = list(mm)
                if st in l: l.remove(st); num[tuple(l)] = k
                else: num = None; break
            if num is None: bad('candidate', 'taken', 'coordinates are taken from somewhere else than the point at its stride', i.where); continue
            z = [y for mm in num for y in mm]
            if len(z) != 1 or z[0][0] != 'ld' or num != W.atom(z[0]): r.notes.append(f'{src(F.f)}: point number of the coordinates not followed'); continue
            C = dict(z[0][1])
            if not W.add(W.sub(C, nx), C, -1): bad('candidate', 'taken', 'the coordinates given to the search do not belong to the entry that is looked at', i.where)
            elif a.get((), 0) != off['x'] + e: bad('candidate', 'taken', 'the coordinates of a point are mixed up when they are given to the search', i.where)
            else: r.ok('candidate')
    cnt = counters(F, M, rm)
    for b, i, n, a in F.calls:
        if not n.startswith('findpts_el_') or 'eval' in n or len(a) != 3: continue
        v = a[1]; mine = [x for x in cnt if W.mentions(v, lambda y: y == next(iter(x))[0])]
        lc = [z for mm in v for z in mm if z[0] == 'x' and z[1] in F.f.defs and F.f.defs[z[1]].op == 'phi' and any(W.k(W.n(o)) == W.k(x) for o in F.f.defs[z[1]].ops for x in cnt)]
        if not mine and not lc: continue
        if len(v) != 1 or list(v.values()) != [1] or len(next(iter(v))) != 1: bad('whole', 'searched', 'not all points given to the search are searched', i.where)
        else: r.ok('whole')

def off_ms(F, p):
    """the path is one without sessions: something that is 0 or 1 was found 0"""
    return any(k[0] == 'eq' and v is True and len(k[1]) == 1 and k[1][0][0] and k[1][0][0][0][0] == 'ld' for k, v in p.facts.items()) or any(k[0] == 'eq' and v is False and any(m == () and c == -1 for m, c in k[1]) for k, v in p.facts.items())

def every(F, L, rounds, n):
    W = F.W
    for i in L.head.insts:
        if i.op != 'phi': continue
        x = W.atom(('x', i.name))
        if F.entry(L, i.name) == {} and all(W.sub(x, nx) == W.add(x, W.const(1)) and (p.facts.get(('ult', W.k(x), W.k(n))) or F.fact(p, W.add(x, n, -1)) is False) for p, nx in rounds): return True
        if F.entry(L, i.name) == n and all(W.sub(x, nx) == W.add(x, W.const(-1)) and F.fact(p, x) is False for p, nx in rounds): return True
    return False

def decide(F, r, bad, p, nx, a, roles, off, size, D, w, got):
    """one candidate, and replaced exactly when it should be"""
    W = F.W; c = W.const; full = 1 << (2 * D)
    # the candidate: the record whose flags or distance the paths look at
    cand = {W.k(W.add(dict(q[1]), c(off['dist2']), -1)) for _, _, b in got if 'dist2' in b for mm in b['dist2'][0] for q in mm if q[0] == 'ld' and b['dist2'][0] == {mm: 1}}
    if len(cand) != 1: bad('candidate', 'distance', 'the distance of an answer is not that of a candidate', w); return
    C = dict(cand.pop()); at = lambda k, n=0: F.ld(W.add(C, c(off[k] + n)))
    num = [next(iter(z.values()))[1] for _, _, z in got if z][0]
    code = F.ld(W.add(F.P(0), W.mul(F.P(1), num))); dist = F.ld(W.add(F.P(roles['dist2'][0]), W.mul(F.P(roles['dist2'][1]), num)))
    internal, none = F.fact(p, code), F.fact(p, W.add(code, c(-NOTFOUND)))
    inside, near = F.fact(p, W.add(at('flags'), c(-full))), F.less(p, at('dist2'), dist)
    if none: internal = False
    if internal: none = False
    if a:
        for k in range(D):
            if a[f'r{k}'][0] != at('r', 8 * k): bad('candidate', 'coordinates', 'coordinates of an answer are not those of the candidate whose distance is written', a[f'r{k}'][2].where)
        idx = [z for mm in num for z in mm if z[0] == 'ld']
        el = a['el'][0]; mine = F.ld(W.add(dict(idx[0][1]), c(4))) if idx else None
        if mine is None or el != mine and F.fact(p, W.add(el, mine, -1)) is not True: bad('candidate', 'element', 'the element written is not the one the candidate is for', a['el'][2].where)
        v = codeof(a['code'][0])
        if inside is None and v is not None: bad('candidate', 'status', 'the status does not depend on whether the search of the element ended inside', a['code'][2].where)
        elif v is not None and (v == INTERNAL) != inside or v == NOTFOUND: bad('candidate', 'status', f'the status written is {v} although the search of the element ended {"inside" if inside else "elsewhere"}', a['code'][2].where)
        r.ok('candidate')
        if internal is not False: bad('decision', 'internal', 'an interior answer may be replaced', w)
        elif not (none or inside or near): bad('decision', 'replace', 'an answer is replaced by one that is neither interior nor nearer', w)
        else: r.ok('decision')
    else:
        if not (internal or none is False and inside is False and near is False): bad('decision', 'keep', 'a point without an answer, or with a farther one, does not get the better one on some path', w)
        else: r.ok('decision')

def agree(F, r, bad, L, rounds, M, rm, size, off, D):
    """the pass that takes points in and the one that gives answers out skip the same ones"""
    W = F.W; c = W.const
    def steps(L, rounds):
        out = {}
        for p, nx in rounds:
            code = [k for k, v in p.facts.items() if k[0] == 'eq' and len(k[1]) == 1 and W.mentions(dict(k[1]), lambda z: z == ('p', 0))]
            internal = any(p.facts[k] for k in code)
            for i in L.head.insts:
                if i.op != 'phi': continue
                x = W.atom(('x', i.name))
                if F.entry(L, i.name) == {}: out.setdefault(i.name, {}).setdefault(internal, set()).add(W.k(W.add(W.sub(x, nx), x, -1)))
        return out
    a, b = steps(L, rounds), steps(M, rm)
    def lim(L, rounds):
        return {k[2] for x in counters(F, L, rounds) for p, nx in rounds for k, v in p.facts.items() if k[0] == 'ult' and k[1] == W.k(x) and v}
    u, w = lim(L, rounds), lim(M, rm)
    if len(u) == 1 and len(w) == 1 and set(W.add(dict(next(iter(u))), dict(next(iter(w))), -1)) == {()}: bad('whole', 'number', 'the pass that takes the answers does not take as many as were searched', L.head.term.where)
    good = lambda s: any(v.get(False) == {W.k(c(1))} and v.get(True, {()}) == {()} for v in s.values())
    if good(a) and good(b): r.ok('whole')
    elif good(a) != good(b): bad('whole', 'skip', 'the pass that gives the points of an element to the search and the one that takes their answers do not pass over the same points', L.head.term.where)
    else: r.notes.append(f'{src(F.f)}: counters of the two passes over an element not followed')

# ---- the distributed search
def fields(F, L, p, cursor):
    """{offset: value} put into the record at a cursor"""
    W = F.W; out = {}
    for a, v, i in F.own(L, p):
        d = W.add(a, cursor, -1)
        if set(d) <= {()}: out[d.get((), 0)] = v
    return out

def cursors(F, L, rounds, base, stride):
    """expressions for the value of point number i: stepping pointer or indexed"""
    W = F.W; out = []
    for i in L.head.insts:
        if i.op != 'phi': continue
        x = W.atom(('x', i.name))
        if F.entry(L, i.name) == base and all(W.sub(x, nx) == W.add(x, stride) for p, nx in rounds): out.append(x)
        if F.entry(L, i.name) == {} and all(W.sub(x, nx) == W.add(x, W.const(1)) for p, nx in rounds): out.append(W.add(base, W.mul(x, stride)))
    return out

def number(F, L, rounds):
    W = F.W
    return [W.atom(('x', i.name)) for i in L.head.insts if i.op == 'phi' and F.entry(L, i.name) == {} and all(W.sub(W.atom(('x', i.name)), nx) == W.add(W.atom(('x', i.name)), W.const(1)) for p, nx in rounds)]

def late(F, L, rounds):
    """the points are counted from a number other than 0"""
    W = F.W
    return any(i.op == 'phi' and F.entry(L, i.name) and codeof(F.entry(L, i.name)) and all(W.sub(W.atom(('x', i.name)), nx) == W.add(W.atom(('x', i.name)), W.const(1)) for p, nx in rounds) for i in L.head.insts)

def outcur(F, L, rounds, keep):
    """the pointer that goes on by one record exactly on the paths chosen"""
    W = F.W
    for i in L.head.insts:
        if i.op != 'phi' or i.ty != 'ptr': continue
        x = W.atom(('x', i.name)); d = [(W.add(W.sub(x, nx), x, -1), p) for p, nx in rounds]
        st = {W.k(z) for z, p in d if z}
        if len(st) == 1 and set(dict(next(iter(st)))) == {()} and any(fields(F, L, p, x) for z, p in d if z): return x, dict(next(iter(st)))[()]
    return None, 0

def search(r, m, D):
    F = Fn(m, f'findptsms_{D}'); W = F.W; c = W.const; name = src(F.f); full = None
    bad = lambda rule, key, msg, w: r.bad(rule, f'{name}:{key}', w, msg); top = F.f.blocks[0].term.where
    roles = {'code': (0, 1), 'proc': (2, 3), 'el': (4, 5), 'r': (6, 7), 'dist2': (8, 9)}
    core = ['code', 'proc', 'el', 'dist2'] + [f'r{k}' for k in range(D)]
    loc = [(b, i, a) for b, i, n, a in F.calls if n == f'findptsms_local_{D}' or (n or '').startswith('gslib_findptsms_local') or 'findptsms_local' in n and 'eval' not in n and 'setup' not in n and 'free' not in n]
    tr = [(b, i, n, a) for b, i, n, a in F.calls if n.startswith('sarray_transfer_')]
    if len(loc) != 2 or len(tr) != 3: r.notes.append(f'{name}: {len(loc)} local searches and {len(tr)} transfers; not judged'); return
    # points sent on
    sent = None
    for L, rounds in F.loops:
        pc = cursors(F, L, rounds, F.P(2), F.P(3)); cc = cursors(F, L, rounds, F.P(0), F.P(1)); nn = number(F, L, rounds)
        if pc and cc and not nn and late(F, L, rounds): bad('send-on', 'all', 'not all points are looked at after the local search', L.head.term.where)
        if not pc or not cc or not nn: continue
        out, size = outcur(F, L, rounds, None)
        if out is None: continue
        w = L.head.term.where; sent = (L, size); maps = set()
        if not every(F, L, rounds, F.P(15)): bad('send-on', 'all', 'not all points are looked at after the local search', w)
        for p, nx in rounds:
            code = F.ld(cc[0]); f = fields(F, L, p, out)
            if not any(a in pc for a, v, i in F.own(L, p)): bad('whole', 'process', 'the process of a point found locally is not written on some path', w)
            else: r.ok('whole')
            went = W.sub(out, nx) != out; z = next((y for y in (F.fact(p, F.ld(x)) for x in cc) if y is not None), None)
            ims = {k for k in p.facts if k[0] == 'eq' and W.mentions(dict(k[1]), lambda y: y == ('p', 16)) and not W.mentions(dict(k[1]), lambda y: y == ('p', 0) or y[0] == 'x')}
            on = any(p.facts[k] and any(mm == () for mm, _ in k[1]) for k in ims); offm = any(p.facts[k] and not any(mm == () for mm, _ in k[1]) for k in ims)
            neither = all(not p.facts[k] for k in ims) and len(ims) >= 2
            if not went and not neither and (z is not True or on): bad('send-on', 'left-out', 'a point without an interior answer is not sent on to other processes', w); continue
            if went:
                xs = [o for o, v in sorted(f.items()) if any(q[0] == 'ld' for mm in v for q in mm) and o < 8 * D]
                ix = [o for o, v in f.items() if v in nn]
                if len(xs) != D or len(ix) != 1: bad('send-on', 'parts', 'a point is sent on without its coordinates or its number', w); continue
                maps.add(ix[0]); r.ok('send-on')
        if len(maps) == 1: sent = (L, size, maps.pop())
    if sent is None or len(sent) < 3:
        if sent is None: r.notes.append(f'{name}: the loop that sends points on was not recognised')
        return
    L0, size, ix = sent
    ti, tx = [t for t in tr if t[2] == 'sarray_transfer_'], [t for t in tr if t[2] == 'sarray_transfer_ext_']
    if len(ti) != 2 or len(tx) != 1: r.notes.append(f'{name}: transfers not recognised'); return
    t1 = [t for t in ti if codeof(t[3][1]) == size and F.f.dominates(t[0], tx[0][0])] if hasattr(F.f, 'dominates') else [ti[0]]
    t1 = t1[0] if t1 else ti[0]; t3 = [t for t in ti if t is not t1][0]
    sp = codeof(t1[3][2])
    queued(F, r, bad, 'send-on', t1[0], t1[3][0], 15)
    if codeof(t1[3][3]) in (0, None): bad('send-on', 'sender', 'the process a point is from is lost when it is sent on', t1[1].where)
    if codeof(t3[3][3]) in (0, None): bad('candidate', 'answerer', 'the process that gives an answer is lost when it is sent back', t3[1].where)
    route(F, r, bad, sp, size)
    owner(F, r, bad, m, D, L0, sp)
    # the answers of this process to other processes' points
    l2 = [l for l in loc if any(q[0] == 'call' for mm in l[2][0] for q in mm) or not W.mentions(l[2][0], lambda y: y == ('p', 0))]
    if len(l2) != 1: r.notes.append(f'{name}: search for other processes not recognised'); return
    a2 = l2[0][2]; base = None
    osz = codeof(t3[3][1])
    for k in (1, 3, 5, 7):
        if codeof(a2[k]) != osz: bad('candidate', 'stride', f'answers are put {W.show(a2[k])} bytes apart in records of {osz}', l2[0][1].where); return
    root = {W.k({mm: v for mm, v in a2[k].items() if mm}) for k in (0, 2, 4, 6)}
    if len(root) != 1: bad('candidate', 'records', 'the parts of an answer are put into different arrays', l2[0][1].where); return
    o = {n: a2[k].get((), 0) for n, k in (('code', 0), ('el', 2), ('r', 4), ('dist2', 6), ('disti', 12), ('elsid', 14))}
    o['proc'] = codeof(t3[3][2]); o['index'] = None; back = False
    for L, rounds in F.loops:
        for p, nx in rounds:
            for a, v, i in F.own(L, p):
                q = [z for mm in v for z in mm]
                if len(q) == 1 and q[0][0] == 'ld' and v == W.atom(q[0]):
                    ao, so = a.get((), 0), dict(q[0][1]).get((), 0); ca, cs = W.add(a, c(-ao)), W.add(dict(q[0][1]), c(-so))
                    if W.add(W.sub(ca, nx), ca, -1) == c(osz) and W.add(W.sub(cs, nx), cs, -1) == c(size):
                        if so == ix: o['index'] = ao
                        if so == sp and ao == o['proc']: back = True
                        if so == sp and ao != o['proc']: bad('candidate', 'back', 'the answer is not sent back to the process the point is from', i.where)
                        if ao == o['proc'] and so != sp: bad('candidate', 'back', 'the answer is not sent back to the process the point is from', i.where)
    if o['index'] is None: bad('candidate', 'number', 'the number of a point does not come back with its answer', l2[0][1].where); return
    if not back: bad('candidate', 'back', 'the answer is not sent back to the process the point is from', l2[0][1].where)
    r.ok('send-on')
    trimmed(F, r, bad, a2, osz, o, l2[0])
    # merging
    seen = 0
    for L, rounds in F.loops:
        got = [(p, nx, answers(F, L, p, roles, D)) for p, nx in rounds]
        if not any(any(k in a for k in core if k != 'proc') for p, nx, a in got): continue
        seen += 1; where = L.head.term.where; fams = []; direct = True; got2 = {}
        for p, nx, a in got:
            w = next(iter(a.values()))[2].where if a else where
            miss = [k for k in core if k not in a]
            if a and miss: bad('whole', 'parts', f'an answer is written without its {", ".join(miss)}', w); continue
            if not a: continue
            if len({W.k(z[1]) for z in a.values()}) != 1: bad('whole', 'point', 'the parts of an answer are written for different points', w); continue
            r.ok('whole'); num = a['code'][1]
            q = [z for mm in num for z in mm]
            if len(q) != 1 or q[0][0] != 'ld': r.notes.append(f'{name}: number of a point not followed'); continue
            C = W.add(dict(q[0][1]), c(o['index']), -1)
            vals = {k: a[k][0] for k in core}
            kind = source(F, vals, C, o, num, roles, D)
            if kind == 'cand': r.ok('candidate')
            elif kind == 'old': got2[id(p)] = {}; r.ok('candidate')
            elif isinstance(kind, tuple): direct = False; fams.append((kind, C, num)); r.ok('candidate')
            else: bad('candidate', 'mixed', f'the parts of an answer do not all come from one candidate: {kind}', w)
        if direct: merge(F, r, bad, [(p, nx, got2.get(id(p), a)) for p, nx, a in got], o, roles, D, where)
        else: winners(F, r, bad, L, rounds, fams, o, roles, D, where)
    if not seen: bad('whole', 'none', 'the answers of other processes are not merged', top)

def small_loops(F):
    W = F.W
    for L in F.f.loops():
        if len(L.body) > 8 or any(i.op == 'store' for b in L.body for i in b.insts): continue
        try: o = W.run(L.head, {i.name: W.atom(('x', i.name)) for i in L.head.insts if i.op == 'phi'}, stop=L.head, within=L.body)
        except Blowup: continue
        yield L, [(p, nx) for p, b, nx in o if b is L.head]

def trimmed(F, r, bad, a2, osz, o, at):
    """only candidates that are none are left out when answers go back"""
    W = F.W; c = W.const; seen = False
    for L, rounds in small_loops(F):
        for p, nx in rounds:
            for i in L.head.insts:
                if i.op != 'phi': continue
                x = W.atom(('x', i.name))
                if W.sub(x, nx) != W.add(x, c(-1)): continue
                rec = F.ld(W.add(W.add(a2[0], W.mul(x, c(osz))), c(-osz)))
                about = [k for k in p.facts if any(W.mentions(dict(t), lambda y: y == next(iter(rec))[0]) for t in k[1:] if isinstance(t, tuple))]
                if not about: continue
                seen = True
                if F.fact(p, W.add(rec, c(-NOTFOUND))) is not True and p.facts.get(('ult', W.k(rec), W.k(c(NOTFOUND)))) is not False and p.facts.get(('ult', W.k(c(NOTFOUND - 1)), W.k(rec))) is not True: bad('candidate', 'left-out', 'answers other than "not found" are left out when answers go back', L.head.term.where)
                else: r.ok('candidate')
    if seen and not any('sort' in n and a[2:3] == [a2[0]] and codeof(a[4]) == osz for b, i, n, a in F.calls if len(a) >= 5): bad('candidate', 'grouped', 'answers that are none are not brought together before they are left out', at[1].where)

def queued(F, r, bad, rule, b, arr, npt):
    """as many records are sent as were put in"""
    W = F.W; v = [W.n(i.ops[0]) for q in F.f.blocks for i in q.insts if i.op == 'store' and W.n(i.ops[1]) == W.add(arr, W.const(8))]
    if any(x == F.P(npt) for x in v): bad(rule, 'number', 'as many records are sent as there are points, whatever was put in', b.term.where)
    elif v: r.ok(rule)

def route(F, r, bad, sp, size):
    """a point is offered to every process in its cell but the one it is from"""
    W = F.W; c = W.const
    for L, rounds in F.loops:
        hit = {}
        for p, nx in rounds:
            for a, v, i in F.own(L, p):
                q = [z for mm in v for z in mm]
                if len(q) == 1 and q[0][0] == 'ld' and v == W.atom(q[0]):
                    A = dict(q[0][1])
                    if W.add(W.sub(A, nx), A, -1) == c(4) and W.add(W.sub(a, nx), a, -1) == c(4): hit[id(p)] = (v, i)
        vals = {W.k(v) for v, i in hit.values()}
        if len(vals) != 1: continue
        v = dict(vals.pop()); w = next(iter(hit.values()))[1].where; kept = [p for p, nx in rounds if id(p) not in hit]; same = lambda p: [k for k, t in p.facts.items() if k[0] == 'eq' and t and k[1] and is_other(W, dict(k[1]), v, sp)]
        if not kept and not any(e[0] == 'call' or e[0] == 'store' for p, nx in rounds for e in p.ev): continue
        if any(W.add(W.sub(a, nx), a, -1) == c(4) and v2 != v for p, nx in rounds for a, v2, i in F.own(L, p)): continue
        if not copies(F, L, rounds, hit, size): continue
        for p in kept:
            if not same(p): bad('send-on', 'offered', 'a point is not offered to a process in its cell although it is not from there', w)
            else: r.ok('send-on')

def divs(W, v):
    """divisions and remainders inside a value: {(op, dividend, divisor)}"""
    out = set()
    def go(z):
        if isinstance(z, tuple):
            if len(z) == 3 and z[0] in ('udiv', 'urem'): out.add(z)
            for y in z: go(y)
    go(W.k(v)); return out

def owner(F, r, bad, m, D, L0, sp):
    """points are sent to the process, and looked up in the cell, under which the cell was entered"""
    W = F.W; c = W.const; G = Fn(m, f'findptsms_setup_{D}'); V = G.W; enter = set()
    np = lambda z: list(dict(z))[0][0][1] if len(z) == 1 and len(z[0][0]) == 1 and z[0][0][0][0] == 'ld' and z[0][1] == 1 else None
    off = lambda z: dict(np(z)).get((), 0) if np(z) else None
    for L, rounds in G.loops:
        for p, nx in rounds:
            st = [(a, [z for mm in v for z in mm], i) for a, v, i in G.own(L, p)]
            for a, q, i in st:
                if len(q) != 1 or q[0][0] not in ('urem', 'udiv'): continue
                for a2, q2, i2 in st:
                    if len(q2) == 1 and q2[0][0] in ('urem', 'udiv') and q2[0] is not q[0] and a2 != a:
                        if q2[0][0] == q[0][0] or q2[0][1:] != q[0][1:]: r.bad('send-on', f'{src(G.f)}:enter', i.where, 'process and cell are not remainder and quotient of the same number')
                        elif q[0][0] == 'urem' and (a.get((), 0) - min(a.get((), 0), a2.get((), 0))) not in {codeof(z[2]) for _, _, n, z in G.calls if n == 'sarray_transfer_'}: r.bad('send-on', f'{src(G.f)}:enter-owner', i.where, 'a cell is not entered at the process that is the remainder of its number')
                        elif off(q[0][2]) is not None: enter.add(off(q[0][2])); r.ok('send-on')
    if len(enter) != 1: r.notes.append(f'{src(G.f)}: entering of cells not followed'); return
    to, look = set(), set()
    for L, rounds in F.loops:
        for p, nx in rounds:
            if L is L0:
                for a, v, i in F.own(L, p):
                    q = [z for mm in v for z in mm]
                    if any(z[0] in ('urem', 'udiv') for z in q): to.add((q[0][0] if len(q) == 1 else '', off(q[0][2]) if len(q) == 1 else None, i.where))
        if any(L is not M and M.head in L.body for M in F.f.loops()):
            for p, nx in rounds:
                for b in L.body:
                    for i in b.insts:
                        if i.op == 'load':
                            W.path = p
                            for z in divs(W, W.n(i.ops[0])): look.add((z[0], off(z[2]), i.where))
            W.path = None
    for op, k, w in to:
        if op != 'urem' or k not in enter: bad('send-on', 'owner', 'a point is not sent to the process its cell is kept on', w)
        else: r.ok('send-on')
    for op, k, w in look:
        if op != 'udiv' or k not in enter: bad('send-on', 'cell', 'a point is not looked up in its cell', w)
        else: r.ok('send-on')
    if not to or not look: r.notes.append(f'{src(F.f)}: process or cell of a point not followed')

def is_other(W, d, v, sp):
    for s in (1, -1):
        e = {m: s * x for m, x in d.items()}; e = W.add(e, v, -1)
        q = [z for m in e for z in m]
        if len(q) == 1 and q[0][0] == 'ld' and list(e.values()) == [-1] and dict(q[0][1]).get((), 0) == sp: return True
    return False

def copies(F, L, rounds, hit, size):
    """a whole record goes along with the number"""
    W = F.W
    return any(i.op == 'phi' and i.ty == 'ptr' and {W.k(W.add(W.sub(W.atom(('x', i.name)), nx), W.atom(('x', i.name)), -1)) for p, nx in rounds if id(p) in hit} == {W.k(W.const(size))} for i in L.head.insts)

def source(F, vals, C, o, num, roles, D):
    """where all parts come from: 'cand', 'old' (what the point has), a family of running variables, or a complaint"""
    W = F.W; c = W.const; at = lambda k: F.ld(W.add(C, c(o[k[0]] + 8 * int(k[1])) if k[0] == 'r' and len(k) == 2 else c(o[k])))
    have = lambda k: F.ld(W.add(W.add(F.P(roles['r' if k[0] == 'r' and len(k) == 2 else k][0]), W.mul(F.P(roles['r' if k[0] == 'r' and len(k) == 2 else k][1]), num)), c(8 * int(k[1]) if k[0] == 'r' and len(k) == 2 else 0)))
    kinds = {}
    for k, v in vals.items():
        q = [z for mm in v for z in mm]
        if v == at(k): kinds[k] = 'cand'
        elif v == have(k): kinds[k] = 'old'
        elif len(q) == 1 and q[0][0] == 'x' and v == W.atom(q[0]): kinds[k] = 'var'
        else: kinds[k] = '?' + W.show(v)
    ks = set(kinds.values())
    if ks == {'var'}: return tuple(sorted((k, next(iter(v))[0][1]) for k, v in vals.items()))
    if len(ks) == 1 and ks <= {'cand', 'old'}: return ks.pop()
    big = max(ks, key=lambda z: sum(1 for y in kinds.values() if y == z))
    return ', '.join(f'{k}: {v}' for k, v in sorted(kinds.items()) if v != big) + f' (the others: {big})'

def merge(F, r, bad, got, o, roles, D, where):
    W = F.W; c = W.const
    num = [a['code'][1] for p, nx, a in got if a and 'code' in a]
    if not num: return
    num = num[0]; q = [z for mm in num for z in mm]; C = W.add(dict(q[0][1]), c(o['index']), -1)
    code = F.ld(W.add(F.P(0), W.mul(F.P(1), num))); dist = F.ld(W.add(F.P(8), W.mul(F.P(9), num)))
    for p, nx, a in got:
        internal, none = F.fact(p, code), F.fact(p, W.add(code, c(-NOTFOUND)))
        if none: internal = False
        if internal: none = False
        inside, near = F.fact(p, F.ld(W.add(C, c(o['code'])))), F.less(p, F.ld(W.add(C, c(o['dist2']))), dist)
        if a:
            if internal is not False: bad('decision', 'internal', 'an interior answer may be replaced', where)
            elif not (none or inside or near): bad('decision', 'replace', 'an answer is replaced by one that is neither interior nor nearer', where)
            else: r.ok('decision')
        elif not (internal or none is False and inside is False and near is False): bad('decision', 'keep', 'a point without an answer, or with a farther one, does not get the better one on some path', where)
        else: r.ok('decision')

def winners(F, r, bad, L, rounds, fams, o, roles, D, where):
    """running winners are replaced as a whole, by better ones"""
    sessions(F, r, bad, L, rounds, fams, o, roles, where)
    W = F.W; c = W.const; todo = list(dict.fromkeys(f[0] for f in fams)); C, num = fams[0][1], fams[0][2]; done = set()
    while todo:
        fam = todo.pop()
        if fam in done: continue
        done.add(fam); own = dict(fam)
        if not all(F.f.defs[n].bb is L.head for n in own.values()): r.notes.append(f'{src(F.f)}: a running winner is kept elsewhere'); continue
        for p, nx in rounds:
            new = {k: W.sub(W.atom(('x', n)), nx) for k, n in own.items()}
            code = W.atom(('x', own['code'])); dist = W.atom(('x', own['dist2']))
            if all(new[k] == W.atom(('x', n)) for k, n in own.items()):
                r.ok('whole'); kept = True
            elif new['code'] == c(NOTFOUND): r.ok('whole'); continue       # none yet: the rest does not count
            else:
                kept = False; kind = source(F, new, C, o, num, roles, D)
                if kind == 'cand':
                    r.ok('whole')
                    none, inside = F.fact(p, W.add(code, c(-NOTFOUND))), F.fact(p, F.ld(W.add(C, c(o['code']))))
                    mine = {W.k(dist), W.k(F.ld(W.add(F.P(8), W.mul(F.P(9), num))))}; d2 = W.k(F.ld(W.add(C, c(o['dist2']))))
                    near = any(k[0] == 'flt' and k[1] == d2 and k[2] in mine and v for k, v in p.facts.items())
                    reset = F.fact(p, code) is None and none is None          # begun anew in this round
                    if not (none or inside or near or reset): bad('decision', 'winner-replace', 'the running winner is replaced by an answer that is neither interior nor nearer', where)
                    elif F.fact(p, code) is True: bad('decision', 'winner-internal', 'an interior winner may be replaced', where)
                    else: r.ok('decision')
                elif kind == 'old': r.ok('whole')
                elif isinstance(kind, tuple): r.ok('whole'); todo.append(kind)
                else: bad('whole', 'winner', f'a running winner is replaced in part: {kind}', where)

def sessions(F, r, bad, L, rounds, fams, o, roles, where):
    """candidates come sorted by point and session: a winner is begun anew with each session, and handed on at its end"""
    W = F.W; c = W.const; C, num = fams[0][1], fams[0][2]; osz = None
    for i in L.head.insts:
        if i.op == 'phi' and i.ty == 'ptr' and W.mentions(C, lambda y: y == ('x', i.name)):
            d = {W.k(W.add(W.sub(W.atom(('x', i.name)), nx), W.atom(('x', i.name)), -1)) for p, nx in rounds}
            if len(d) == 1: osz = dict(next(iter(d)))
    if not osz: r.notes.append(f'{src(F.f)}: order of the candidates not followed'); return
    sid, pid = F.ld(W.add(C, c(o['elsid']))), F.ld(W.add(C, c(o['index']))); nsid, npid = F.ld(W.add(W.add(C, c(o['elsid'])), osz)), F.ld(W.add(W.add(C, c(o['index'])), osz))
    have = F.ld(W.add(F.P(roles['dist2'][0]), W.mul(F.P(roles['dist2'][1]), num)))
    outer = {n for f in fams for k, n in f[0]}
    cs = None
    for fam, _, _ in fams:                # the winner of a session is what the overall one is replaced by
        for p, nx in rounds:
            new = {k: W.sub(W.atom(('x', n)), nx) for k, n in fam}
            q = {k: list(v)[0][0] for k, v in new.items() if len(v) == 1 and len(list(v)[0]) == 1 and list(v.values()) == [1]}
            if len(q) == len(new) and all(z[0] == 'x' for z in q.values()) and not any(z[1] in dict(fam).values() for z in q.values()): cs = {k: z[1] for k, z in q.items()}
    if cs is None or not all(F.f.defs[n].bb is L.head for n in cs.values()): r.notes.append(f'{src(F.f)}: winner of a session not followed'); return
    xs = lambda n: next(iter(W.atom(('x', n))))[0]
    def same(p, a):          # the path knows that a equals something
        for k, v in p.facts.items():
            if k[0] == 'eq' and v and any(mm == m2 for mm in dict(k[1]) for m2 in a) and abs(dict(k[1])[next(iter(a))]) == 1: yield dict(k[1])
    for p, nx in rounds:
        code, dist = W.atom(('x', cs['code'])), W.atom(('x', cs['dist2']))
        used = F.fact(p, code) is not None or F.fact(p, W.add(code, c(-NOTFOUND))) is not None or any(k[0] == 'flt' and W.k(dist) in k[1:] for k in p.facts)
        if used:
            a = [d for d in same(p, sid) if len(d) > 1 and not any(W.k({mm: 1}) == W.k(nsid) for mm in d)]; b = [d for d in same(p, pid) if len(d) > 1 and not any(W.k({mm: 1}) == W.k(npid) for mm in d)]
            if not a or not b: bad('decision', 'session-begin', 'a candidate is compared with the winner of another session or point', where)
            else: r.ok('decision')
        new = {k: W.sub(W.atom(('x', n)), nx) for k, n in cs.items()}
        if any(k[0] == 'flt' and W.k(have) in k[1:] for k in p.facts) or source(F, new, C, o, num, roles, 2 if 'r2' not in cs else 3) == 'old':
            if not any(any(z[0] == 'ld' and W.mentions(dict(z[1]), lambda y: y == ('call',) or y[0] == 'call') for mm in d for z in mm) for d in same(p, sid)): bad('decision', 'session-own', 'the own answer of a point is taken for the winner of a session it does not belong to', where)
            else: r.ok('decision')
        handed = any(W.sub(W.atom(('x', n)), nx) != W.atom(('x', n)) for f in fams for k, n in f[0] if k in ('code', 'dist2')) or any(k[0] in ('flt', 'fle') and any(W.mentions(dict(t), lambda y: y[0] == 'x') and not W.k(dist) == t for t in k[1:]) for k in p.facts)
        if not handed:
            if not any(set(d) == set(sid) | set(nsid) for d in same(p, sid)) or not any(set(d) == set(pid) | set(npid) for d in same(p, pid)): bad('decision', 'session-end', 'the winner of a session is not handed on at its end', where)
            else: r.ok('decision')
        wrote = any(F.place(a, *roles['code']) is not None for a, v, i in F.own(L, p))
        if not wrote and F.fact(p, W.add(npid, pid, -1)) is not True and not any(k[0] in ('flt', 'fle') and any(W.mentions(dict(t), lambda y: y[0] == 'call') for t in k[1:]) for k in p.facts): bad('decision', 'point-end', 'the overall winner is not written at the end of its point', where)

# ---- evaluation
def values(r, m, D):
    """the values of the points of one element come from that element"""
    F = Fn(m, f'findptsms_local_eval_{D}'); W = F.W; name = src(F.f)
    for b, i, n, a in F.calls:
        if not n.startswith('findpts_el_eval_') or len(a) != 7: continue
        bad = lambda key, msg: r.bad('evaluation', f'{name}:{key}', i.where, msg)
        z, y = F.place(a[0], 0, 1), F.place(a[2], 4, 5)
        if z is None or y is None or z != y or z[1]: bad('local', 'values are not written for the points whose coordinates are read'); continue
        if a[1] != F.P(1) or a[3] != F.P(5): bad('stride', 'values or coordinates are gone through with another stride than their own'); continue
        E = W.add(a[5], F.P(7), -1)
        mm = list(E)[0] if len(E) == 1 else None
        if mm is None or E[mm] != 8 or len(mm) != 2 or any(q[0] != 'ld' for q in mm): bad('element', 'the values are not taken from the element of the points'); continue
        el = [q for q in mm if W.mentions(dict(q[1]), lambda y: y == ('p', 2))]; nt = [q for q in mm if q[1] == W.k(F.P(8))]
        if len(el) != 1 or len(nt) != 1 or F.place(dict(el[0][1]), 2, 3) is None: bad('element', 'the values are not taken from the element of the points'); continue
        if len(a[4]) != 1 or list(a[4].values()) != [1]: bad('number', 'not all points of a group are evaluated'); continue
        r.ok('evaluation')

def evaluate(r, m, D):
    F = Fn(m, f'findptsms_eval_{D}'); W = F.W; c = W.const; name = src(F.f)
    bad = lambda rule, key, msg, w: r.bad('evaluation', f'{name}:{key}', w, msg); top = F.f.blocks[0].term.where
    o = None
    for L, rounds in F.loops:
        cc = cursors(F, L, rounds, F.P(2), F.P(3)); pc = cursors(F, L, rounds, F.P(4), F.P(5)); ec = cursors(F, L, rounds, F.P(6), F.P(7)); rc = cursors(F, L, rounds, F.P(8), F.P(9)); nn = number(F, L, rounds)
        if cc and not nn and late(F, L, rounds): bad('evaluation', 'all', 'not all points are looked at', L.head.term.where)
        if not cc or not nn: continue
        out, size = outcur(F, L, rounds, None)
        if out is None: continue
        w = L.head.term.where
        if not every(F, L, rounds, F.P(10)): bad('evaluation', 'all', 'not all points are looked at', w)
        for p, nx in rounds:
            f = fields(F, L, p, out); went = W.sub(out, nx) != out; z = [F.fact(p, W.add(F.ld(x), c(-NOTFOUND))) for x in cc]; z = [y for y in z if y is not None]
            if not z: bad('evaluation', 'found', 'whether a point was found is not asked on some path', w); continue
            if went == z[0]: bad('evaluation', 'found', 'a point that was not found is evaluated' if went else 'a point that was found is not evaluated', w); continue
            if not went: r.ok('evaluation'); continue
            g = {}
            for off, v in f.items():
                if v in nn: g['index'] = off
                if v in [F.ld(x) for x in pc]: g['proc'] = off
                if v in [F.ld(x) for x in ec]: g['el'] = off
                for k in range(D):
                    if v in [F.ld(W.add(x, c(8 * k))) for x in rc]: g[f'r{k}'] = off
            miss = [k for k in ['index', 'proc', 'el'] + [f'r{k}' for k in range(D)] if k not in g]
            if miss: bad('evaluation', 'parts', f'a point is sent to be evaluated without its own {", ".join(miss)}', w); continue
            if any(g[f'r{k}'] != g['r0'] + 8 * k for k in range(D)): bad('evaluation', 'coordinates', 'the coordinates of a point are mixed up', w); continue
            o = dict(g); o['size'] = size; r.ok('evaluation')
    if o is None:
        if not any(v['rule'] == 'evaluation' for v in r.viol): r.notes.append(f'{name}: the loop that collects the points was not recognised')
        return
    tr = [(b, i, a) for b, i, n, a in F.calls if n == 'sarray_transfer_']; ev = [(b, i, a) for b, i, n, a in F.calls if 'local_eval' in n]
    if len(tr) != 2 or len(ev) != 1: r.notes.append(f'{name}: transfers or evaluation not recognised'); return
    there = [t for t in tr if codeof(t[2][1]) == o['size'] and codeof(t[2][2]) == o['proc']]; a = ev[0][2]
    if not there: bad('evaluation', 'to', 'points are not sent to the process of their element', tr[0][1].where); return
    back = [t for t in tr if t is not there[0]][0]
    queued(F, r, bad, 'evaluation', there[0][0], there[0][2][0], 10)
    for t, what in ((there[0], 'point'),):
        if codeof(t[2][3]) in (0, None): bad('evaluation', 'sender', 'the process a point is from is lost when it is sent', t[1].where)
    osz, bp = codeof(back[2][1]), codeof(back[2][2])
    if codeof(a[3]) != o['size'] or codeof(a[5]) != o['size'] or codeof(a[1]) != osz: bad('evaluation', 'strides', 'the evaluation goes through the points with another distance than that of their records', ev[0][1].where)
    if a[2].get((), 0) - a[4].get((), 0) != o['el'] - o['r0'] or {mm: v for mm, v in a[2].items() if mm} != {mm: v for mm, v in a[4].items() if mm}: bad('evaluation', 'fields', 'the evaluation takes other parts of the records than the element and the coordinates', ev[0][1].where)
    oo = a[0].get((), 0); oi = None
    for L, rounds in F.loops:
        for p, nx in rounds:
            for ad, v, i in F.own(L, p):
                q = [z for mm in v for z in mm]
                if len(q) != 1 or q[0][0] != 'ld' or v != W.atom(q[0]): continue
                ao, so = ad.get((), 0), dict(q[0][1]).get((), 0); ca, cs = W.add(ad, c(-ao)), W.add(dict(q[0][1]), c(-so))
                da, ds = W.add(W.sub(ca, nx), ca, -1), W.add(W.sub(cs, nx), cs, -1)
                if da == c(o['size']) and ds == c(o['size']) and ao != so: bad('evaluation', 'kept', 'parts of a point are exchanged while it is kept', i.where)
                if da == c(osz) and ds == c(o['size']):
                    if so == o['index']: oi = ao
                    if (so == o['proc']) != (ao == bp): bad('evaluation', 'back', 'a value is not sent back to the process its point is from', i.where)
    if oi is None: bad('evaluation', 'number', 'the number of a point does not come back with its value', top); return
    done = False
    for L, rounds in F.loops:
        for p, nx in rounds:
            for ad, v, i in F.own(L, p):
                z = F.place(ad, 0, 1)
                if z is None: continue
                num, off = z; q = [y for mm in num for y in mm]; done = True
                if off or len(q) != 1 or q[0][0] != 'ld' or num != W.atom(q[0]): bad('evaluation', 'place', 'a value is not written at the place of its point', i.where); continue
                C = W.add(dict(q[0][1]), c(oi), -1)
                if v != F.ld(W.add(C, c(oo))): bad('evaluation', 'value', 'what is written for a point is not its own value', i.where)
                elif W.add(W.sub(C, nx), C, -1) != c(osz): bad('evaluation', 'each', 'the values received are not gone through one after the other', i.where)
                else: r.ok('evaluation')
    if not done: bad('evaluation', 'written', 'no value is written for the points', top)
