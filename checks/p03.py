"""P03: posted requests and waits"""
import itertools
import an, build, ir, p05, msgs
from an import *
from msgs import *
from p05 import Step, okcond

EXPLANATION = ('Typestate of message requests over the partially evaluated exchanges (every method, mode and direction, and every routine that sends messages): posts and waits are read as canonical slot intervals, conditions are split into the cases the code distinguishes. '
  'R1 matched: in each case the slots waited for are exactly the slots posted, each once, in the same loop. R2 slots: the local request array holds them all, and every post of a loop has a slot of its own. R3 stable: between posting and waiting no kernel, copy, load or store touches a posted receive buffer, none writes a posted send buffer, the storage is not reallocated, and the receive regions of a group and its send region do not overlap. '
  'R4 blocking: nothing is left outstanding at the end of a blocking routine, and the split form is completed by the waiting routine. R5 defined: the non-blocking reduction leaves a request that can be waited for on every path.')

def check(r):
    parallel(part, [c for c in build.ALL if c != 'serial'], r)
    r.need('matched', 60); r.need('slots', 30); r.need('stable', 60); r.need('blocking', 30); r.need('defined', 1)
    r.assume += ['at most one operation is outstanding per gather-scatter object', 'a process alone shares nothing, so that the all-reduce exchange starts no request there', 'distinct heap blocks and parameters do not overlap']

def part(r, cfg):
    m, methods = p05.residual(cfg); fin = finite(m)
    facts = sums(m)
    for name, ts, split in exchanges(m, methods): exchange(r, m, name, ts, split, fin, facts)
    for f in m.funcs.values():
        if plain(src(f)) == 'comm_iallreduce' and '@w__' not in f.name: defined(r, m, f)

def sums(m):
    """fields of set-up records that are stored as the sum of two other stored fields: {(stride, offset): [(stride, offset)]}"""
    val = {}; out = {}
    for f in m.funcs.values():
        st = []; P = None
        for i in f.insts():
            if i.op != 'store' or i.ty not in ('i32', 'i64'): continue
            P = P or LP(f); k = fkey(P.n(i.ops[1]))
            if k: st.append((k, P.n(i.ops[0]), i.bb))
        for k, v, b in st:
            c = [(x, y) for x in st for y in st if x[2] is b and y[2] is b and x[0] < y[0] and x[0][0] == k[0] == y[0][0] and x[0] != k != y[0] and P.k(P.add(x[1], y[1])) == P.k(v) and cv(x[1]) is None and cv(y[1]) is None]
            val.setdefault(k, []).append({(x[0], y[0]) for x, y in c})
    for k, v in val.items():
        z = set.intersection(*v)
        if z: out[k] = sorted(z)[0]
    return out

def expand(P, p, facts):
    def fn(a):
        if a[0] != 'ld': return None
        q = dict(a[1]); k = fkey(q)
        if k not in facts: return None
        r = {}
        for s, o in facts[k]: r = P.add(r, P.atom(('ld', P.k(P.add(q, P.const(o - k[1]))))))
        return r
    return P.subst(P.subst(p, fn), p05.list_total(P))

def exchange(r, m, name, ts, split, fin, facts):
    P = ts[0].P
    if split and len({len(t.f.params) for t in ts}) > 1: raise build.Broken(f'{name}: routines of different signatures')
    steps = [s for t in ts for s in t.steps]; own = [t for t in ts for _ in t.steps]
    gs, left = groups(ts[0], steps)
    for p in left:
        if name == 'comm_iallreduce' and p.kind == 'reduce' and P.k(p.req) == P.k(P.atom(('p', 0))): continue       # handed to the caller by contract
        r.bad('blocking', f'{name}:{p.kind}', p.inst.where, f'{name}: the {p.kind} request posted here is never waited for')
    if not left and gs: r.ok('blocking')
    for g in gs: group(r, m, name, ts, steps, own, g, fin, facts)

def chain(f, b):
    out = []; L = f.loop_of(b)
    while L is not None: out.append(L); L = L.parent
    return out[::-1]

def group(r, m, name, ts, steps, own, g, fin, facts):
    heap = allocated(m, name.split(':')[0]) if ':' in name else None
    k0, w0 = g.waits[0]; where = w0.inst.where
    if not g.posts:
        r.bad('matched', f'{name}:nothing', where, f'{name}: waits for requests nobody posted here'); return
    items = [(p, own[p.k], p.inst) for p in g.posts] + [(s, own[k], s.inst) for k, s in g.waits]
    fs = {id(T.f) for _, T, _ in items}
    base = None; nb = 0
    if len(fs) == 1:
        cs = [chain(T.f, i.bb) for _, T, i in items]
        while all(len(c) > nb for c in cs) and len({id(c[nb]) for c in cs}) == 1: base = cs[0][nb]; nb += 1
    red = [p.comm_base() for p in g.posts if p.kind == 'reduce']
    def assumption(T):
        P = T.P; inv = lambda c: (msgs.INV[c[0]],) + c[1:]
        counts = [P.k(s.args[0]) for k, s in g.waits if s.kind[0] == 'MPI_Waitall' and own[k] is T and cv(s.args[0]) is None]
        def some(c):
            """a count compared with a constant so that every count from 1 on passes"""
            for n in counts:
                if n in c[1:]:
                    o = cv(dict(c[2] if c[1] == n else c[1]))
                    if o is not None and all(msgs.CMP[c[0]](*((v, o) if c[1] == n else (o, v))) for v in (1, 2, 3, 1 << 20)): return True
            return False
        def assume(c):
            for x, v in ((c, True), (inv(c), False)):
                if any(okcond(P, x, q) for q in red if q is not None) or some(x): return v
            return None
        return assume
    CS = {}; OL = {}
    for _, T, _ in items:
        if id(T) not in CS:
            CS[id(T)] = Cases(T, domain(T.P, fin), assumption(T)); OL[id(T)] = Outline(CS[id(T)], base)
    lv = {}
    for p, T, i in items:
        C = CS[id(T)]; al = isinstance(p, Step) and p.kind[0] == 'MPI_Waitall'
        C.leaves(p.req if isinstance(p, Post) else p.args[1] if al else p.args[0], lv)
        if al: C.leaves(p.args[0], lv)
    bad = None
    for rnd in range(6):
        names = [a for a, v in lv.items() if v]
        if len(names) > 9:
            r.notes.append(f'{name}: {len(names)} conditions, not split'); return
        ncase = 0; bad = None; rooms = []
        for vals in itertools.product(*(lv[a] for a in names)):
            bad = case(r, name, dict(zip(names, vals)), items, CS, OL, nb, rooms)
            if bad: break
            ncase += 1
        if bad is None or bad[0] != 'condition': break
        more = dict(lv)
        for p, T, i in items:
            pl = OL[id(T)].place(i)[0]
            for t in OL[id(T)].controls(pl): CS[id(T)].bleaves(t, more)
        if set(more) == set(lv): break
        lv = more
    if bad: r.bad('matched', f'{name}:{bad[0]}', bad[1], f'{name}: {bad[2]}'); return
    P = own[k0].P
    for q, n in rooms: room(r, name, own[k0].f, P, dict(q), dict(n), where, heap)
    r.ok('matched', ncase)
    stable(r, name, ts, steps, own, g, None, facts)

def case(r, name, asg, items, CS, OL, nb, rooms):
    post = []; wait = []; places = []; P = None
    for p, T, i in items:
        C, O = CS[id(T)], OL[id(T)]; b, L, depth = O.place(i); P = C.P
        isp = isinstance(p, Post); what = f'a {p.kind} is posted' if isp else 'waits'
        if not O.runs(b, asg): continue
        if L is not None:
            if depth > 1: return ('slot', i.where, f'{what} in nested loops')
            if any(C.reach(s_, asg, {i.bb}, set(L.body), L.head)[1] and i.bb is not L.head for s_ in L.head.succs if s_ in L.body and s_ is not i.bb):
                return ('condition', i.where, f'{what} only in some rounds of a loop')
        places.append((p, T, b, i, what))
        if isp: z = interval(P, C.ev(p.req, asg), p.loops, nb)
        else:
            al = p.kind[0] == 'MPI_Waitall'
            z = interval(P, C.ev(p.args[1] if al else p.args[0], asg), p.ctx[0], nb, C.ev(p.args[0], asg) if al else None)
        if z is None: return ('slot', i.where, f'the {p.kind} requests posted here do not have a slot each' if isp else 'waits for something other than one range of requests')
        (post if isp else wait).append((C.ev(z[0], asg), C.ev(z[1], asg)))
    # what runs, runs together
    for p, T, b, i, what in places:
        O = OL[id(T)]
        for q, U, c, j, _ in places:
            if isinstance(p, Post) == isinstance(q, Post): continue
            if T is U:
                pb, wb = (b, c) if isinstance(p, Post) else (c, b)
                if O.avoidable(pb, wb, asg) or not O.before(pb, wb, asg): return ('condition', i.where, f'{what} under a condition of its own')
            elif O.avoidable(O.start, b, asg): return ('condition', i.where, f'{what} under a condition of its own')
    a, b = coalesce(P, post), coalesce(P, wait)
    if a != b:
        sh = lambda l: ', '.join(f'{P.show(dict(n))} from {P.show(dict(q))}' for q, n in l) or 'none'
        w = next(x for x in items if isinstance(x[0], Step))
        return ('count', w[2].where, f'posts requests {sh(a)} but waits for {sh(b)}')
    rooms += [x for x in b if x not in rooms]
    return None

def comm_base(p):
    """address of the communicator record whose handle a post uses"""
    k = p.comm
    if p.kind == 'reduce' and p.st.kind[0] == 'comm_iallreduce': return k
    return None
Post.comm_base = comm_base

def room(r, name, f, P, q, n, where, heap=None):
    c = q.get((), 0); rest = {m: v for m, v in q.items() if m}
    if len(rest) == 1 and list(rest.values()) == [1]:
        (mm,) = rest
        if len(mm) == 1 and mm[0][0] == 'al' and cv(n) is not None:
            d = f.defs.get(mm[0][1]); size = f.mod.size(d.ty if d.ty != 'ptr' or d.extra is None else d.extra)
            if d.extra is not None and not isinstance(d.extra, int):
                try: size = f.mod.size(d.extra)
                except Exception: pass
            if 0 <= c and c + REQ * cv(n) <= size: r.ok('slots')
            else: r.bad('slots', f'{name}:room', where, f'{name}: {cv(n)} requests from byte {c} do not fit the request array of {size} bytes')
            return
        if len(mm) == 1 and mm[0][0] == 'ld' and heap is not None and c == 0:
            z = heap(dict(mm[0][1]), P.mul(n, P.const(REQ)))
            if z is None: r.notes.append(f'{name}: request array not followed to its allocation'); return
            if z[0]: r.ok('slots')
            else: r.bad('slots', f'{name}:room', where, f'{name}: waits for {P.show(n)} requests in an array of {z[1]} bytes')

def allocated(m, setup):
    """for an exchange's data (parameter 4): does an array reached through it have the given number of bytes at set-up?"""
    f = next((f for f in m.funcs.values() if src(f) == setup and '@w__' not in f.name), None)
    if f is None: return None
    P = LP(f); st = {}
    for i in f.insts():
        if i.op == 'store': st.setdefault(P.k(P.n(i.ops[1])), []).append(P.n(i.ops[0]))
    data = [v[0] for k, v in st.items() if len(v) == 1 and k == P.k(P.add(P.atom(('p', 0)), P.const(data_slot(f, P))))]
    if len(data) != 1: return None
    X = data[0]
    def values(p):
        for _ in range(3):
            p = P.subst(p, lambda a: st[a[1]][0] if a[0] == 'ld' and len(st.get(a[1], ())) == 1 else None)
        return p
    def heap(addr, want):
        into = lambda p: P.subst(p, lambda a: X if a == ('p', 4) else None)
        v = st.get(P.k(into(addr)))
        if not v or len(v) != 1: return None
        (mm, c), = v[0].items() if len(v[0]) == 1 else ((None, 0),)
        if mm is None or len(mm) != 1 or mm[0][0] != 'call' or mm[0][1] not in ('malloc', 'calloc'): return None
        d = f.defs.get(mm[0][2]); size = P.n(d.ops[0])
        if mm[0][1] == 'calloc': size = P.mul(size, P.n(d.ops[1]))
        return P.k(values(size)) == P.k(values(into(want))), P.show(size)
    return heap

def data_slot(f, P):
    """offset of the slot next to the exchange routines in which the set-up leaves the data: the one that gets a freshly allocated block"""
    for i in f.insts():
        if i.op == 'store' and i.ty == 'ptr':
            q = P.n(i.ops[1]); v = P.n(i.ops[0])
            if q.get((('p', 0),)) == 1 and len(q) <= 2 and len(v) == 1 and next(iter(v))[:1] and next(iter(v))[0][0] == 'call': return q.get((), 0)
    return -1

def strip(P, p): return {m: c for m, c in p.items()}

def root(P, p):
    """the pointer an address is relative to"""
    c = [m for m, v in p.items() if v == 1 and len(m) == 1 and m[0][0] in ('p', 'al', 'ld', 'x', 'call', 'g')]
    return {m[0] for m in c}

def stable(r, name, ts, steps, own, g, C, facts):
    P = ts[0].P; first = g.posts[0].k; last = g.waits[-1][0]
    post_at = {p.k: p for p in g.posts}; posted = []; hit = None
    recvs = [p for p in g.posts if p.kind == 'recv']; sends = [p for p in g.posts if p.kind == 'send']
    for k in range(first, g.waits[0][0]):
        if k in post_at: posted.append(post_at[k]); continue
        s = steps[k]; wr = []; rd = []
        if s.kind[0] in ('gather', 'scatter', 'copy', 'init', 'gs_gather_array', 'gs_init_array'):
            wr = [s.args[0]]
            if s.kind[0] in ('gather', 'scatter', 'copy', 'gs_gather_array'): rd = [s.args[1]] + ([s.args[0]] if s.kind[0] in ('gather', 'gs_gather_array') else [])
        elif s.kind[0] in ('realloc', 'free'):
            for p in posted:
                if root(P, p.buf) & root(P, s.args[0]): hit = (s, p, 'moves or releases the storage of')
        for p in posted:
            b = P.k(p.buf)
            if any(P.k(x) == b for x in wr): hit = (s, p, 'writes')
            if p.kind == 'recv' and any(P.k(x) == b for x in rd): hit = (s, p, 'reads')
            z = start(P, p)
            if z is not None and any(P.k(x) == P.k(z) for x in (wr + rd if p.kind == 'recv' else wr)): hit = (s, p, 'uses' if p.kind == 'recv' else 'writes')
    if hit:
        s, p, w = hit
        r.bad('stable', f'{name}:{s.kind[0]}', s.inst.where, f'{name}: {s.kind[0]} {w} the buffer of a {p.kind} that is still outstanding'); return
    # raw loads and stores between a post and the wait
    for T in {id(t): t for t in (own[p.k] for p in g.posts)}.values():
        ps = {p.inst: p for p in g.posts if own[p.k] is T}; ws = {s.inst for k, s in g.waits if own[k] is T}; live = []
        for b in T.order:
            for i in b.insts:
                if i in ps: live.append(ps[i]); continue
                if i in ws: live = []; continue
                if i.op not in ('load', 'store') or not live: continue
                a = T.P.n(i.ops[1] if i.op == 'store' else i.ops[0])
                for p in live:
                    if i.op == 'load' and p.kind != 'recv': continue
                    D = P.add(a, p.buf, -1); n = cv(p.len) if p.len is not None else None; c = cv(D)
                    if c is not None and 0 <= c < (n if n is not None else 1):
                        r.bad('stable', f'{name}:{i.op}', i.where, f'{name}: {"reads" if i.op == "load" else "writes"} the buffer of a {p.kind} that is still outstanding'); return
    # regions
    regs = []
    for p in recvs + sends:
        z = region(P, p)
        if z is None: continue
        regs.append((p, expand(P, z[0], facts), expand(P, z[1], facts)))
    for x, y in itertools.combinations(regs, 2):
        (p, a, n), (q, b, k) = x, y
        if p.kind != 'recv' and q.kind != 'recv': continue
        D = P.add(b, a, -1); c = cv(D)
        if c is None and not root(P, a) & root(P, b): continue
        if P.k(D) == P.k(n) or P.k(P.add(a, b, -1)) == P.k(k): r.ok('stable'); continue
        if c is not None and (c == 0 or cv(n) is not None and 0 <= c < cv(n) or cv(k) is not None and c < 0 and -c < cv(k)):
            r.bad('stable', f'{name}:overlap', q.inst.where, f'{name}: two messages of one group share storage'); return
        if chained(P, regs, x, y): r.ok('stable'); continue
        if c is None and root(P, a) & root(P, b) and name.split(':')[0] in ('pw_setup', 'cr_setup') and ':' in name:
            r.bad('stable', f'{name}:layout', q.inst.where, f'{name}: the {q.kind} buffer at {P.show(b)[:90]} does not follow the receive buffer at {P.show(a)[:60]} of {P.show(n)[:60]} bytes'); return
    r.ok('stable')

def chained(P, regs, x, y):
    """y starts where a chain of regions starting at x ends"""
    cur = P.add(x[1], x[2]); left = [z for z in regs if z is not x]
    for _ in range(len(left) + 1):
        if P.k(cur) == P.k(y[1]): return True
        z = next((z for z in left if P.k(z[1]) == P.k(cur)), None)
        if z is None: break
        cur = P.add(cur, z[2]); left.remove(z)
    cur = P.add(y[1], y[2]); left = [z for z in regs if z is not y]
    for _ in range(len(left) + 1):
        if P.k(cur) == P.k(x[1]): return True
        z = next((z for z in left if P.k(z[1]) == P.k(cur)), None)
        if z is None: break
        cur = P.add(cur, z[2]); left.remove(z)
    return False

def start(P, p):
    z = region(P, p); return z[0] if z else None

def region(P, p):
    """(start, bytes) of the storage all messages of a post take together"""
    if p.len is None: return None
    acc = [m for m in p.buf if len(m) == 1 and m[0][0] == 'acc']
    if not acc: return p.buf, p.len
    a = acc[0][0]
    if len(acc) == 1 and p.buf[acc[0]] == 1 and a[1] == len(p.loops) and a[2] == P.k(p.len):
        rest = {m: c for m, c in p.buf.items() if m != acc[0]}
        return rest, P.atom(('end', a[2], p.loops[-1]))
    return None

def defined(r, m, f):
    """every path of the non-blocking reduction ends with a request in the caller's slot"""
    P = LP(f); k0 = P.k(P.atom(('p', 0))); noret = noret_funcs(m); F = Facts(f, noret)
    good = {}
    for b in f.blocks:
        good[b] = any(i.op == 'store' and i.ty == 'ptr' and P.k(P.n(i.ops[1])) == k0 or i.op == 'call' and (cname(m, i) or '').startswith('MPI_I') and any(P.k(P.n(v)) == k0 for v in i.ops) for i in b.insts)
    inn = {b: True for b in f.blocks}; inn[f.blocks[0]] = False; go = True
    while go:
        go = False
        for b in f.blocks[1:]:
            v = all(inn[q] or good[q] for q in b.preds if q not in F.dead)
            if v != inn[b]: inn[b] = v; go = True
    for b in f.blocks:
        if b.term.op == 'ret' and b not in F.dead:
            if inn[b] or good[b]: r.ok('defined')
            else: r.bad('defined', 'comm_iallreduce', b.insts[-1].where, 'comm_iallreduce can return without having left a request that can be waited for')
