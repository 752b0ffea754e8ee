"""P21: record transfer packs and unpacks the same fields, within the space there is"""
import build
from an import *
from walk import *
from p20 import ge, layout as _layout
EXPLANATION = ('Abstract execution, over polynomials, of sarray_transfer_many (LLVM IR, helpers placed into it), one round of every loop at a time, per combination of options. The pieces copied into the stream for a record and the pieces copied back out are compared as maps between '
  'record offsets and stream offsets; the one word that is not packed must be filled from the header (source or own number as asked); records of the other arrays follow in the same order at the same offsets; every walk over the stream starts at its first word, goes on by whole messages and ends behind the last; '
  'messages are built with target, own number and true length; space reserved for packing and receiving suffices; with a fixed capacity the stream is cut to the records that fit, while the number that arrived is returned.')
A, SIZE, AN, FIXED, EXT, SRC, POFF, PROC, STRIDE, CR = range(10)

class T(Walk):
    def effect(s, p, nm, args, i):
        if nm == 'crystal_router':
            for a in s.after_router: p.mem[s.k(a)] = s.atom(('h', 'router', s.k(a)))
    def consistent(s, q):
        if q.ev and q.ev[-1][0] == 'if' and q.ev[-1][1][0] == 'eq' and q.ev[-1][2]:      # quotients are not negative
            D = dict(q.ev[-1][1][1])
            if D.get((), 0) and len({c > 0 for c in D.values()}) == 1 and all(len(m) < 2 and (not m or m[0][0] in ('udiv', 'lshr', 'urem')) for m in D): return False
        return True
    def unh(s, q): return s.subst(q, lambda a: s.atom(('ld', a[2])) if a[0] == 'h' and a[1] != 'router' else None)

class Level:
    """one loop of a nest: its variables on arrival, and what a round makes of them"""
    def __init__(s, W, L, entry, snap):
        s.W, s.L, s.entry, s.snap = W, L, entry, snap; s.n0 = len(snap.ev)
        fresh = {i.name: W.atom(('x', i.name)) for i in L.head.insts if i.op == 'phi'}
        outs = W.run(L.head, fresh, stop=L.head, within=L.body, path=snap)
        s.rounds = [(p, nx) for p, b, nx in outs if b is L.head]
        s.names = set(fresh)
    def ev(s, p): return p.ev[s.n0:]
    def next(s, q):
        """a polynomial after one round: the set of its values"""
        out = {}
        for p, nx in s.rounds: v = s.W.sub(q, nx); out[s.W.k(v)] = v
        return list(out.values())
    def start(s, q): return s.W.sub(q, s.entry)

def nests(W, lv, chain=()):
    """(levels, path of the innermost round, events of that round) for every innermost round, outer levels first"""
    chain = chain + (lv,)
    for p, nx in lv.rounds:
        yield chain, p, nx, lv.ev(p)
        seen = set()
        for e in lv.ev(p):
            if e[0] == 'loop':
                key = (e[1].head.name, tuple(sorted((a, W.k(v)) for a, v in e[2].items())), tuple(sorted((repr(a), b) for a, b in e[3].facts.items())))
                if key in lv.__dict__.setdefault('sub', {}): inner = lv.sub[key]
                else: inner = lv.sub[key] = Level(W, e[1], e[2], e[3])
                if key in seen: continue
                seen.add(key); inner.up = lv
                yield from nests(W, inner, chain)

def pieces(W, evs):
    """what a round copies: (target, source or None, length, value of a word or None, inst)"""
    out = []
    for e in evs:
        if e[0] == 'call' and e[1] in ('memcpy', 'memmove') and not W.local(e[2][0]):
            out.append((e[2][0], None if e[4] is not None or W.local(e[2][1]) else e[2][1], e[2][2], e[4], e[3]))
    return out

def origin(W, chain, q):
    """value of a polynomial of the innermost loop's variables before the first round of all, if it is carried on from
    one visit of that loop to the next"""
    q0 = q
    for k in range(len(chain) - 1, -1, -1):
        lv = chain[k]; q1 = lv.start(q0)
        if k == 0: return q1
        up = chain[k - 1]
        if not W.mentions(q1, lambda a: a[0] == 'x' and a[1] in up.names): return q1
        # after a round of the outer loop it has to be what the inner loop left
        if up.next(q1) != [q0]: return q1
        q0 = q1
    return q0

def endtest(W, evs, at, end, facts=None):
    """the events contain a test that the walk has not reached its end"""
    want = W.add(end, at, -1)
    for e in evs:
        if e[0] != 'if': continue
        key, v = e[1], e[2]
        if key[0] == 'eq' and not v and any(W.mul(W.const(w), dict(key[1])) == want for w in (1, -1, 4, -4)): return True
        if key[0] in ('ult', 'slt') and v and any(W.mul(W.const(w), W.add(dict(key[2]), dict(key[1]), -1)) == want for w in (1, 4)): return True
    return False

def chainup(W, ps, first, end):
    """pieces put in order of their place, adjacent ones joined: [(place, other, length)] or None"""
    todo = [p for p in ps if p[2]]; cur = first; out = []
    while todo:
        nx = [p for p in todo if p[0] == cur]
        if not nx: break
        a = nx[0]; todo.remove(a)
        if out and a[1] is not None and out[-1][1] is not None and W.add(out[-1][1], out[-1][2]) == a[1]: out[-1] = (out[-1][0], out[-1][1], W.add(out[-1][2], a[2]))
        else: out.append((cur, a[1], a[2]))
        cur = W.add(cur, a[2])
    return out if not todo and cur == end else None

class Bad(Exception):
    def __init__(s, rule, key, msg, where=None): s.a = (rule, key, msg, where)

def check(r):
    for cfg in (['default', 'nbc', 'serial'] if r.tier == 'thorough' else ['default']): part(r, cfg)
    if not r.viol:
        for k in ('pieces', 'walk', 'message', 'space', 'count'): r.need(k, 2)
    r.assume += ['sizes and counts do not wrap', 'the process field lies inside the record, and each array given has as many records as the first', 'sortp returns a permutation of the records in order of their process numbers, and the router delivers (P20) whole messages']

def part(r, cfg):
    m = norm(cfg); noret = noret_funcs(m); o = _layout(m)
    f = m.find('sarray_transfer_many'); f = f[0] if isinstance(f, list) else f
    if f is None: raise build.Broken('sarray_transfer_many not found')
    W = T(f, noret, 60000); P = lambda k: W.atom(('p', k)); cr = P(CR)
    C = X(W, r, o, src(f), f)
    W.after_router = [C.dataptr, C.datan, C.datamax]
    outs = W.run(f.blocks[0], {})
    for p, b, ret in outs: C.path(p, ret)
    for nm, ext in (('sarray_transfer_', False), ('sarray_transfer_ext_', True)): wrapper(r, m, noret, nm, ext)

def wrapper(r, m, noret, nm, ext):
    f = m.find(nm); f = f[0] if isinstance(f, list) else f
    if f is None: raise build.Broken(f'{nm} not found')
    W = Walk(f, noret, 4000); P = lambda k: W.atom(('p', k)); ld = lambda a: W.atom(('ld', W.k(a))); c = W.const
    bad = lambda k, msg, w: r.bad('wrapper', f'{src(f)}:{k}', w, msg)
    for p, b, ret in W.run(f.blocks[0], {}):
        cs = [e for e in p.ev if e[0] == 'call' and 'sarray_transfer_many' in e[1]]
        if len(cs) != 1: bad('calls', 'the records are not transferred exactly once', f.blocks[0].term.where); continue
        a, w = cs[0][2], cs[0][3].where; k0 = p.ev.index(cs[0])
        st = {W.k(e[1]): e[2] for e in p.ev[:k0] if e[0] == 'store'}
        one = lambda x, v: x == v or st.get(W.k(x)) == v
        if not one(a[A], P(0)) or not one(a[SIZE], P(1)): bad('array', 'another array or record size is handed on than the one given', w)
        if a[AN] != c(1): bad('count', 'more than the one array is handed on', w)
        if a[FIXED]: bad('fixed', 'the array is treated as one of fixed capacity', w)
        if (a[EXT] == {}) == ext or set(a[EXT]) > {()}: bad('ext', 'process numbers are taken from the wrong place', w)
        want = [(PROC, P(2)), (STRIDE, P(3)), (CR, P(4))] if ext else [(SRC, P(3)), (POFF, P(2)), (PROC, W.add(ld(W.add(P(0), {})), P(2))), (STRIDE, P(1)), (CR, P(4))]
        for k, v in want:
            if a[k] != v: bad(f'arg{k}', f'{W.show(a[k])} is handed on where {W.show(v)} is meant', w)
        r.ok('wrapper')

class X:
    def __init__(s, W, r, o, name, f):
        s.W, s.r, s.o, s.name, s.f = W, r, o, name, f; c = W.const; s.P = lambda k: W.atom(('p', k)); cr = s.P(CR)
        at = lambda *k: W.add(cr, c(sum(k)))
        s.dataptr, s.datan, s.datamax = at(o['data'], o['ptr']), at(o['data'], o['n']), at(o['data'], o['max']); s.myid = W.atom(('ld', W.k(at(o['comm'], o['id'])))); s.work = at(o['work'])
        s.done = set(); s.lv = {}
    def ld(s, a): return s.W.atom(('ld', s.W.k(a)))
    def arr(s, i): return s.ld(s.W.add(s.P(A), s.W.mul(s.W.const(8), i)))
    def size(s, i): return s.ld(s.W.add(s.P(SIZE), s.W.mul(s.W.const(4), i)))
    def part(s, i, what): return s.W.add(s.arr(i), s.W.const(s.o[what]))
    def ok(s, rule): s.r.ok(rule)
    def path(s, p, ret):
        W = s.W
        try: s.judge(p, ret)
        except Bad as e:
            rule, key, msg, where = e.a; s.r.bad(rule, f'{s.name}:{key}', where or s.f.blocks[0].term.where, msg)
    def level(s, e):
        W = s.W; key = (e[1].head.name, tuple(sorted((a, W.k(v)) for a, v in e[2].items())), tuple(sorted((repr(a), b) for a, b in e[3].facts.items())), tuple(sorted((repr(a), W.k(v)) for a, v in e[3].mem.items())))
        if key not in s.lv: s.lv[key] = Level(W, e[1], e[2], e[3])
        return s.lv[key]
    def fact0(s, p, q):
        """is this parameter zero on the path?"""
        return p.facts.get(('eq', s.W.k(s.P(q))))
    def judge(s, p, ret):
        W = s.W; c = W.const; ks = [k for k, e in enumerate(p.ev) if e[0] == 'call' and e[1] == 'crystal_router']
        if len(ks) != 1: raise Bad('router', 'calls', f'the stream is routed {len(ks)} times on some path')
        kr = ks[0]; before, after = p.ev[:kr], p.ev[kr + 1:]
        if p.ev[kr][2][0] != s.P(CR): raise Bad('router', 'which', 'another router is used than the one given', p.ev[kr][3].where)
        z = s.fact0(p, EXT)
        if z is None: raise Bad('pieces', 'ext', 'the two ways of giving process numbers are treated alike')
        ext = not z; fixed = s.fact0(p, FIXED); fixed = None if fixed is None else not fixed
        if fixed is None: raise Bad('count', 'fixed', 'fixed and growing arrays are treated alike')
        zero, one = {}, c(1)
        S0 = s.size(zero) if ext else W.add(s.size(zero), c(4), -1)
        # the order of packing
        so = [e for e in before if e[0] == 'call' and e[1].startswith('sortp')]
        if len(so) != 1: raise Bad('message', 'order', 'the records are not put in order of their processes exactly once')
        if so[0][2][:3] != [s.work, {}, s.P(PROC)] or so[0][2][3] != s.ld(s.part(zero, 'n')) or so[0][2][4] != s.P(STRIDE):
            raise Bad('message', 'sort', 'the records are not sorted by the process numbers given, with their stride and count', so[0][3].where)
        perm = W.atom(('call', so[0][1], so[0][3].name))
        packs = [(e, s.level(e)) for e in before if e[0] == 'loop']; unpacks = [(e, s.level(e)) for e in after if e[0] == 'loop']
        has = lambda lv: any(pieces(W, ev) for ch, q, nx, ev in nests(W, lv))
        pk = [x for x in packs if has(x[1])]; un = [x for x in unpacks if has(x[1])]
        rs = s.rowsize(p, S0, packs, pk, un)
        if len(pk) != 2: raise Bad('pieces', 'pack-passes', f'the first array and the others are packed in {len(pk)} passes')
        if len(un) != 2: raise Bad('pieces', 'unpack-passes', f'the first array and the others are unpacked in {len(un)} passes')
        place0 = s.first(p, before, pk[0], perm, rs, ext)
        D = None
        s.others(pk[1][1], perm, rs, S0, 'pack', p, before)
        got = s.unfirst(p, un[0][1], rs, ext, S0)
        if got != place0: raise Bad('pieces', f'first-{"ext" if ext else "int"}', f'the receiver takes {s.showmap(got)} of a record from where the sender put {s.showmap(place0)}', un[0][0][1].head.term.where)
        s.ok('pieces')
        s.others(un[1][1], None, rs, S0, 'unpack', p, after)
        total = s.total(p, unpacks, rs)
        if not fixed: s.grow(p, unpacks, total, rs, ret)
        else: s.capped(p, after, unpacks, rs, ret)
    def showmap(s, mp): return ', '.join(f'{s.W.show(b)}..+{s.W.show(l)} at {s.W.show(a)}' for a, b, l in mp) or 'nothing'
    # ---- words per record
    def rowsize(s, p, S0, packs, pk, un):
        W = s.W; steps = set()
        for e, lv in un[:1]:
            for ch, q, nx, ev in nests(W, lv):
                ps = pieces(W, ev)
                for t, sr, ln, v, i in ps:
                    if sr is not None:
                        for n in ch[-1].next(sr): steps.add(W.k(W.add(n, sr, -1)))
        if len(steps) != 1: raise Bad('walk', 'row', 'the records of a message are not taken at one distance from each other')
        four = dict(next(iter(steps)))
        rs = W.exact(four, 4)
        if rs is None: raise Bad('walk', 'row', f'records are taken at a distance of {W.show(four)} bytes, not whole words')
        x = None
        if rs == W.const(1):            # the least record
            zz = [k for k, v in p.facts.items() if v and (k[0] == 'eq' or k[0] == 'ult' and dict(k[2]) == W.const(1)) and self_div(dict(k[1]))]
            if not zz: raise Bad('row-size', 'one', 'records of one word are used whatever their size')
            q = dict(zz[0][1])
        else:
            q = rs
            if p.facts.get(('eq', W.k(rs))) is not False and p.facts.get(('ult', W.k(rs), W.k(W.const(1)))) is not False: raise Bad('row-size', 'zero', 'a record of nothing but its process number takes no words at all')
        a = [z for mm in q for z in mm]; up = q.get((), 0) == 1
        if len(a) == 1 and not up and a[0][0] in ('udiv', 'lshr') and any(k[0] == 'eq' and t and remainder(dict(k[1]), a[0][1]) for k, t in p.facts.items()): up = True
        if len(a) == 1 and a[0][0] in ('udiv', 'lshr') and dict(a[0][2]) == W.const(4 if a[0][0] == 'udiv' else 2):
            inner = dict(a[0][1]); v = [z for mm in inner for z in mm if z[0] == 'x']
            if not up and len(v) == 1 and W.add(inner, W.atom(v[0]), -1).get((), 0) < 3 and set(W.add(inner, W.atom(v[0]), -1)) <= {()}: raise Bad('row-size', 'round', 'the size of a record in words is rounded down')
            if len(v) == 1:
                lv = [l for e, l in packs if v[0][1] in l.names]
                if len(lv) == 1:
                    l = lv[0]; i = s.index(l, W.const(1))
                    if l.entry[v[0][1]] != S0: raise Bad('row-size', 'first', f'the first array counts {W.show(l.entry[v[0][1]])} bytes of a record, {W.show(S0)} are packed', l.L.head.term.where)
                    if [W.add(n, W.atom(v[0]), -1) for n in l.next(W.atom(v[0]))] != [s.size(i)]: raise Bad('row-size', 'sum', 'the size of a record is not the sum of the sizes of its parts', l.L.head.term.where)
                    s.ok('row-size'); return rs
        s.r.notes.append(f'{s.name}: size of a record not followed: {W.show(q)}'); return rs
    def index(s, lv, first):
        """the counter over the arrays: from first on by one while below their number"""
        W = s.W
        for nme in lv.names:
            x = W.atom(('x', nme))
            if lv.entry[nme] == first and lv.next(x) == [W.add(x, W.const(1))] and all(endtest(W, lv.ev(p), x, s.P(AN)) for p, nx in lv.rounds): return x
        raise Bad('walk', 'arrays', 'the arrays are not gone through one after the other up to their number', lv.L.head.term.where)
    # ---- packing of the first array
    def first(s, p, before, pk, perm, rs, ext):
        W = s.W; c = W.const; e, lv = pk; where = lv.L.head.term.where; key = 'ext' if ext else 'int'; tag = lambda k: f'{key}-{k}'
        k0 = before.index(e); base = e[3].mem.get(W.k(s.dataptr), s.ld(s.dataptr)); N = s.ld(s.part({}, 'n'))
        outn = [n for n in lv.names if lv.entry[n] == base]; 
        if len(outn) != 1: raise Bad('message', tag('start'), 'packing does not start at the first word of the stream', where)
        out = W.atom(('x', outn[0])); maps = set()
        Rc = None
        for q, nx in lv.rounds:
            ev = lv.ev(q); ps = pieces(W, ev); here = ps[0][4].where if ps else where
            if not ps: raise Bad('pieces', tag('none'), 'a record is not packed on some path', where)
            st = {W.k(x[1]): x[2] for x in ev if x[0] == 'store'}
            head = W.k(out) in st and W.k(W.add(out, c(4))) in st
            # which record
            srcs = [x[1] for x in ps]
            if any(x is None for x in srcs): raise Bad('pieces', tag('source'), 'something else than the record is packed', here)
            idx = [a for mm in srcs[0] for a in mm if a[0] == 'ld' and len(mm) > 1 and W.atom(a) != s.size({})]
            if not idx: raise Bad('pieces', tag('record'), 'records are not packed in order of their processes', here)
            ia = dict(idx[0][1]); row = W.add(s.ld(s.part({}, 'ptr')), W.mul(s.size({}), W.atom(idx[0])))
            if origin(W, (lv,), ia) != perm or lv.next(ia) != [W.add(ia, c(4))]: raise Bad('pieces', tag('order'), 'the records are not taken one after the other in order of their processes', here)
            dest = s.ld(W.add(row, s.P(POFF))) if not ext else s.ld(W.add(s.P(PROC), W.mul(s.P(STRIDE), W.atom(idx[0]))))
            adv = W.add(W.sub(out, nx), out, -1); at0 = W.add(out, c(12)) if head else out
            if adv != W.add(W.mul(c(4), rs), c(12) if head else {}): raise Bad('message', tag('advance'), f'packing goes on by {W.show(adv)} bytes, a record takes {W.show(W.mul(c(4), rs))}{" and a header 12" if head else ""}', here)
            maps.add(tuple(sorted(((W.k(W.add(t, at0, -1)), W.k(W.add(sr, row, -1)), W.k(ln)) for t, sr, ln, v, i in ps), key=repr)))
            # a new message exactly when the process changes
            lp = [n for n in lv.names if n != outn[0] and any(k2[0] == 'eq' and dict(k2[1]) in (W.add(dest, W.atom(('x', n)), -1), W.add(W.atom(('x', n)), dest, -1)) for k2 in q.facts)]
            if len(lp) != 1: raise Bad('message', tag('target'), 'a new message is not started exactly when the process number of a record differs from that of the one before', here)
            l = W.atom(('x', lp[0])); same = [v for k2, v in q.facts.items() if k2[0] == 'eq' and dict(k2[1]) in (W.add(dest, l, -1), W.add(l, dest, -1))][0]
            if head == same: raise Bad('message', tag('new'), 'a new message is not started exactly when the process number changes', here)
            if (W.sub(l, nx)) not in ([dest] if head else [l, dest]): raise Bad('message', tag('remember'), 'the process number of the message is not kept for comparison', here)
            if lv.entry[lp[0]] not in (c(-1), c(4294967295)): raise Bad('message', tag('initial'), 'the first record may be taken to belong to a message that has not been started', where)
            if head:
                if st[W.k(out)] != dest: raise Bad('message', tag('to'), 'the target of a message is not the process its records go to', here)
                if st[W.k(W.add(out, c(4)))] != s.myid: raise Bad('message', tag('from'), 'the source of a message is not this process', here)
            s.length(lv, q, nx, ev, out, head, rs, tag, here)
            if not endtest(W, ev, ia, W.add(perm, W.mul(c(4), N))): raise Bad('message', tag('all'), 'not all records of the first array are packed', where)
            s.ok('message')
        if len(maps) != 1: raise Bad('pieces', tag('paths'), 'records are packed differently on different paths', where)
        mp = [tuple(dict(z) for z in t) for t in maps.pop()]
        S0 = s.size({}) if ext else W.add(s.size({}), c(4), -1)
        res = chainup(W, mp, {}, S0)
        if res is None: raise Bad('pieces', tag('packed'), f'the pieces packed do not fill the first {W.show(S0)} bytes of a row one after the other: {s.showmap(mp)}', where)
        # behind the loop: last length, number of words, and room for it all
        ev = before[k0 + 1:]
        lenp = s.lenptr[lv]
        if not any(x[0] == 'store' and x[1] == lenp and s.islen(lv, x[2], out, lenp) for x in ev): raise Bad('message', tag('last-length'), 'the length of the last message is not filled in', where)
        ns = [x[2] for x in ev if x[0] == 'store' and x[1] == s.datan]
        if not ns or W.undiv(W.mul(c(4), ns[-1])) != W.add(out, base, -1): raise Bad('message', tag('words'), 'the number of words in the stream is not what was packed', where)
        need = W.mul(N, W.add(W.mul(c(4), rs), c(12)))
        if not s.room(e[3], base, s.datamax, need): raise Bad('space', tag('pack'), f'the stream may be too small for {W.show(need)} bytes, one message for each record', where)
        s.ok('space')
        return res
    def room(s, p, base, mx, need):
        W = s.W; caps = []
        a = [z for mm in base for z in mm]
        if len(a) == 1 and a[0][0] == 'call':
            for e in p.ev:
                if e[0] == 'call' and e[3].name == a[0][2]: caps.append(e[2][-1] if e[1] != 'calloc' else W.mul(e[2][0], e[2][1]))
        else: caps.append(s.ld(mx))
        return any(ge(W, p, x, need) for x in caps)
    lenptr = {}
    def length(s, lv, q, nx, ev, out, head, rs, tag, where):
        """the place of the length is where the header has it, and what is stored there is the number of words since"""
        W = s.W; c = W.const
        if lv not in s.lenptr:
            cand = [n for n in lv.names if any(p2 is not None and W.sub(W.atom(('x', n)), n2) == W.add(out, c(8)) for p2, n2 in lv.rounds)]
            if len(cand) != 1: raise Bad('message', tag('length-place'), 'the length of a message is not put into the third word of its header', where)
            s.lenptr[lv] = W.atom(('x', cand[0]))
        lp = s.lenptr[lv]
        if W.sub(lp, nx) != (W.add(out, c(8)) if head else lp): raise Bad('message', tag('length-place'), 'the length of a message is not put into the third word of its header', where)
        if head and not any(x[0] == 'store' and x[1] == lp and s.islen(lv, x[2], out, lp) for x in ev): raise Bad('message', tag('length'), 'the length of a finished message is not filled in', where)
        for n in lv.names:
            x = W.atom(('x', n))
            if lv.entry[n] == {} and n in s.lens(lv) and W.sub(x, nx) != (rs if head else W.add(x, rs)) and W.undiv(W.mul(c(4), W.sub(x, nx))) != W.add(W.add(W.sub(out, nx), W.sub(lp, nx), -1), c(4), -1): raise Bad('message', tag('length-count'), 'the length of a message is not the number of words packed into it', where)
    def lens(s, lv):
        W = s.W; lp = s.lenptr[lv]; out = set()
        for p, nx in lv.rounds:
            for x in lv.ev(p):
                if x[0] == 'store' and x[1] == lp: out |= {a[1] for mm in x[2] for a in mm if a[0] == 'x' and len(x[2]) == 1}
        return out
    def islen(s, lv, v, out, lp):
        W = s.W
        if len(v) == 1 and any(v == W.atom(('x', n)) for n in s.lens(lv)): return True
        return W.undiv(W.mul(W.const(4), v)) == W.add(W.add(out, lp, -1), W.const(4), -1)
    # ---- walking the stream
    def cursor(s, lv, D):
        W = s.W
        for n in sorted(lv.names):
            if lv.entry[n] == D: return W.atom(('x', n))
        for n in sorted(lv.names):
            x = W.atom(('x', n))
            if lv.entry[n] == {} and any(W.mentions(v, lambda a: a[0] == 'ld' and dict(a[1]) == W.add(W.add(D, W.mul(W.const(4), x)), W.const(8))) for p, nx in lv.rounds for v in nx.values()): return W.add(D, W.mul(W.const(4), x))
        return None
    def messages(s, ch, rs, key):
        """the two innermost levels walk messages and their records; returns the cursors"""
        W = s.W; c = W.const; lv, rec = ch[-2], ch[-1]; where = lv.L.head.term.where
        D = lv.snap.mem.get(W.k(s.dataptr), s.ld(s.dataptr)); n = lv.snap.mem.get(W.k(s.datan), s.ld(s.datan))
        V = s.cursor(lv, D)
        if V is None: raise Bad('walk', f'{key}-start', 'the walk over the messages does not start at the first word of the stream', where)
        end = W.add(D, W.mul(c(4), n)); end = W.undiv(end)
        for p, nx in lv.rounds:
            if not s.endt(lv.ev(p), V, end): raise Bad('walk', f'{key}-end', 'the walk over the messages does not end behind the last word of the stream', where)
        ln = s.ld(W.add(V, c(8))); stop = W.add(W.add(V, c(12)), W.mul(c(4), ln))
        Q = None
        for mk in (lambda x: x, lambda x: W.add(W.add(V, c(12)), W.mul(c(4), x)), lambda x: W.add(W.add(V, c(12)), W.mul(W.mul(c(4), rs), x))):
            for nme in sorted(rec.names):
                x = mk(W.atom(('x', nme)))
                if Q is None and rec.start(x) == W.add(V, c(12)) and rec.next(x) == [W.add(x, W.mul(c(4), rs))]: Q = x
        if Q is None: raise Bad('walk', f'{key}-records', 'the records of a message are not taken from behind its header on, one row after the other', rec.L.head.term.where)
        for p, nx in rec.rounds:
            if not s.endt(rec.ev(p), Q, stop) and not s.endn(rec, p, ln, rs): raise Bad('walk', f'{key}-last', 'the records of a message are not taken up to the end of that message', rec.L.head.term.where)
        for v in lv.next(V):
            if v != stop and v != Q: raise Bad('walk', f'{key}-next', f'the walk goes on with {W.show(v)}, the next message is at {W.show(stop)}', where)
        s.ok('walk'); return V, Q
    def endn(s, rec, p, ln, rs):
        """as many rounds as the message has records"""
        W = s.W
        for e in rec.ev(p):
            if e[0] == 'if' and e[1][0] in ('ult', 'slt') and e[2]:
                x, b = dict(e[1][1]), dict(e[1][2]); a = [z for mm in b for z in mm]
                if rec.start(x) == {} and rec.next(x) == [W.add(x, W.const(1))] and len(a) == 1 and a[0][0] in ('udiv', 'sdiv') and dict(a[0][2]) == rs and W.undiv(W.mul(W.const(4), dict(a[0][1]))) == W.mul(W.const(4), ln): return True
        return False
    def endt(s, ev, at, end):
        W = s.W
        if endtest(W, ev, at, end): return True
        ev2 = [('if', (e[1][0],) + tuple(W.k(W.undiv(dict(k))) for k in e[1][1:]), e[2]) for e in ev if e[0] == 'if' and e[1][0] in ('eq', 'ult', 'slt')]
        return endtest(W, ev2, W.undiv(at), end)
    def others(s, lv, perm, rs, S0, key, p, evs):
        W = s.W; c = W.const; i = s.index(lv, c(1)); sz = s.size(i); where = lv.L.head.term.where
        offs = [n for n in lv.names if lv.entry[n] == S0]
        if len(offs) != 1: raise Bad('pieces', f'{key}-others-start', 'the parts of the other arrays do not start behind that of the first', where)
        off = W.atom(('x', offs[0])); found = 0
        for q, nx in lv.rounds:
            copied = any(e[0] == 'loop' for e in lv.ev(q)); z = q.facts.get(('eq', W.k(sz)))
            if not copied and z is not True: raise Bad('pieces', f'{key}-skipped', 'an array is passed over although its records have a size', where)
            d = W.add(W.sub(off, nx), off, -1)
            if d != sz and not (z is True and not d): raise Bad('pieces', f'{key}-offset', f'the place of the next array in a row is {W.show(d)} bytes on, not {W.show(sz)}', where)
        for ch, q, nx, ev in nests(W, lv):
            ps = pieces(W, ev)
            if not ps: continue
            if len(ch) != 3: raise Bad('walk', f'{key}-nest', 'records of the other arrays are not copied message by message', where)
            here = ps[0][4].where; V, Q = s.messages(ch, rs, f'{key}-others'); found += 1
            if len(ps) != 1: raise Bad('pieces', f'{key}-others', 'a record of another array is copied in more than one piece', here)
            t, sr, ln, v, _ = ps[0]; st, rc = (t, sr) if key == 'pack' else (sr, t)
            if st is None or rc is None or W.add(st, Q, -1) != off or ln != sz: raise Bad('pieces', f'{key}-others-place', f'{W.show(ln)} bytes of a record of another array are copied, {W.show(sz)} at its place in the row are due', here)
            if key == 'pack':
                a = [z for mm in rc for z in mm if z[0] == 'ld' and len(mm) > 1 and W.atom(z) != sz]
                if not a or rc != W.add(s.ld(s.part(i, 'ptr')), W.mul(sz, W.atom(a[0]))): raise Bad('pieces', 'pack-others-record', 'what is packed is not the record of the array at the place the order says', here)
                ia = dict(a[0][1])
                if origin(W, ch[1:], ia) != perm or ch[-1].next(ia) != [W.add(ia, c(4))]: raise Bad('pieces', 'pack-others-order', 'the records of the other arrays are not packed in the same order as those of the first', here)
            else: s.target(ch[1:], rc, i, 'unpack-others', here)
            s.ok('pieces')
        if not found: raise Bad('pieces', f'{key}-none', 'the other arrays are not copied', where)
    def target(s, ch, rc, i, key, where):
        W = s.W
        if origin(W, ch, rc) != s.ld(s.part(i, 'ptr')) and origin(W, ch, rc) != ch[0].snap.mem.get(W.k(s.part(i, 'ptr'))): raise Bad('pieces', f'{key}-from', 'the first record received is not put at the beginning of its array', where)
        if ch[-1].next(rc) != [W.add(rc, s.size(i))]: raise Bad('pieces', f'{key}-step', f'records received are not put one record size apart', where)
    # ---- unpacking of the first array
    def unfirst(s, p, lv, rs, ext, S0):
        W = s.W; c = W.const; key = 'ext' if ext else 'int'; maps = set()
        for ch, q, nx, ev in nests(W, lv):
            ps = pieces(W, ev)
            # words put down one by one
            ps += [(e[1], None, c(4), e[2], e[3]) for e in ev if e[0] == 'store' and not W.local(e[1])]
            if not ps: continue
            here = ps[0][4].where
            if len(ch) != 2: raise Bad('walk', f'unpack-{key}-nest', 'records are not unpacked message by message', here)
            V, Q = s.messages(ch, rs, f'unpack-{key}')
            # the record: the target that moves on by the size of a record
            outs = [t for t, sr, ln, v, i in ps]; base = None
            for t in outs:
                o = origin(W, ch, t); d = W.add(o, s.ld(s.part({}, 'ptr')), -1)
                if not W.mentions(d, lambda a: a[0] in ('x', 'ld') and a != next(iter(s.size({})))[0]): base = W.add(t, d, -1); break
            if base is None: raise Bad('pieces', f'unpack-{key}-from', 'the first record received is not put at the beginning of its array', here)
            s.target(ch, base, {}, f'unpack-{key}', here)
            mp = []; words = []
            for t, sr, ln, v, i in ps:
                d = W.add(t, base, -1)
                if sr is None: words.append((d, ln, v, i)); mp.append((d, None, ln))
                else: mp.append((d, W.add(sr, Q, -1), ln))
            if chainup(W, mp, {}, s.size({})) is None: raise Bad('pieces', f'unpack-{key}-cover', f'a record received is not filled from its first to its last byte: {", ".join(W.show(a) + "..+" + W.show(l) for a, b, l in mp)}', here)
            if ext and words: raise Bad('pieces', 'unpack-ext-word', 'a word of the record is replaced although its process is given separately', here)
            if not ext:
                z = s.fact0(q, SRC)
                if len(words) != 1 or words[0][0] != s.P(POFF) or words[0][1] != c(4): raise Bad('pieces', 'unpack-int-word', 'the process number of a record is not put back at its place', here)
                if z is None or words[0][2] != s.ld(W.add(V, {} if z else c(4))): raise Bad('pieces', 'unpack-int-value', f'the process number of a record received is not {"the sender" if z is False else "its destination" if z else "chosen by the option for it"}', here)
            inv = [(b, a, l) for a, b, l in mp if b is not None]
            res = chainup(W, inv, {}, S0)
            maps.add(tuple((W.k(a), W.k(b), W.k(l)) for a, b, l in (res if res is not None else inv)))
        if len(maps) != 1: raise Bad('pieces', f'unpack-{key}-paths', 'records are unpacked differently on different paths, or not at all')
        return [tuple(dict(z) for z in t) for t in maps.pop()]
    # ---- counting and capacity
    def total(s, p, unpacks, rs):
        """the loop that adds up the lengths: its sum, on leaving"""
        W = s.W; c = W.const
        for e, lv in unpacks:
            D = lv.snap.mem.get(W.k(s.dataptr), s.ld(s.dataptr)); V = s.cursor(lv, D)
            if V is None: continue
            if any(pieces(W, ev) for ch, q, nx, ev in nests(W, lv)): continue
            ln = s.ld(W.add(V, c(8))); end = W.undiv(W.add(D, W.mul(c(4), lv.snap.mem.get(W.k(s.datan), s.ld(s.datan)))))
            for n in sorted(lv.names):
                x = W.atom(('x', n))
                if lv.entry[n] == {} and x != V and any(W.sub(x, nx) == W.add(x, ln) for q, nx in lv.rounds): return lv, V, x, ln, end
        raise Bad('count', 'scan', 'the records received are not counted by going through the messages')
    def grow(s, p, unpacks, total, rs, ret):
        W = s.W; c = W.const; lv, V, x, ln, end = total; where = lv.L.head.term.where
        nextmsg = W.add(W.add(V, c(12)), W.mul(c(4), ln))
        for q, nx in lv.rounds:
            if not s.endt(lv.ev(q), V, end): raise Bad('walk', 'count-end', 'counting does not end behind the last word of the stream', where)
            if W.sub(V, nx) != nextmsg: raise Bad('walk', 'count-next', 'counting does not go on with the next message', where)
            if W.sub(x, nx) != W.add(x, ln): raise Bad('count', 'sum', 'the length of a message is not counted', where)
        n = s.rows(x, rs)
        if ret not in n: raise Bad('count', 'returned', f'{W.show(ret)} is returned, not the number of records received')
        done = False; roomy = False; where2 = None
        for e, l in unpacks:
            if l is lv: continue
            try: i = s.index(l, {})
            except Bad: continue
            if l.rounds and all(s.fits(q, i, ret) for q, nx in l.rounds): roomy = True
            for q, nx in l.rounds:
                st = [z for z in l.ev(q) if z[0] == 'store' and z[1] == s.part(i, 'n')]
                if not st: break
                done = True; where2 = st[-1][3].where
                if st[-1][2] not in n: raise Bad('count', 'set', f'an array is said to have {W.show(st[-1][2])} records', where2)
        if not roomy: raise Bad('space', 'receive', 'an array may be too small for the records received', where2)
        if not done: raise Bad('count', 'set', 'the arrays are not all told how many records they have')
        s.ok('count'); s.ok('space')
    def fits(s, q, i, n):
        """array i has room for n records (its capacity counts records)"""
        W = s.W; base = q.mem.get(W.k(s.part(i, 'ptr')), s.ld(s.part(i, 'ptr'))); a = [z for mm in base for z in mm]
        if len(a) != 1 or a[0][0] != 'call': return ge(W, q, s.ld(s.part(i, 'max')), n)
        for e in q.ev:
            if e[0] == 'call' and e[3].name == a[0][2]:
                cap = W.mul(e[2][0], e[2][1]) if e[1] == 'calloc' else e[2][-1]
                one = next(iter(next(iter(s.size(i)))))
                if all(one in mm for mm in cap):
                    M = {}
                    for mm, c in cap.items():
                        l = list(mm); l.remove(one); M[tuple(l)] = c
                    if ge(W, q, M, n): return True
        return False
    def rows(s, x, rs):
        W = s.W
        return [W.atom(('udiv', W.k(x), W.k(rs))), x] if rs == W.const(1) else [W.atom(('udiv', W.k(x), W.k(rs)))]
    def capped(s, p, after, unpacks, rs, ret):
        W = s.W; c = W.const; lv, V, x, ln, end = s.total(p, unpacks, rs); where = lv.L.head.term.where
        # the least capacity
        mx = None
        for e, l in unpacks:
            for n in sorted(l.names):
                if l.entry[n] == s.ld(s.part({}, 'max')):
                    i = s.index(l, c(1)); y = W.atom(('x', n)); ai = s.ld(s.part(i, 'max')); mx = y
                    for q, nx in l.rounds:
                        v = W.sub(y, nx)
                        if not (v == y and ge(W, q, ai, y) or v == ai and (ge(W, q, y, ai) or q.facts.get(('ult', W.k(ai), W.k(y))) is True)): raise Bad('space', 'least', 'the capacity used is not the least of all arrays', l.L.head.term.where)
        if mx is None: raise Bad('space', 'capacity', 'the capacity of the arrays is not looked at')
        maxn = W.mul(mx, rs); nextmsg = W.add(W.add(V, c(12)), W.mul(c(4), ln)); cut = 0
        D = lv.snap.mem.get(W.k(s.dataptr), s.ld(s.dataptr))
        def fits(q, v):      # total so far and this message stay within
            a = W.add(x, ln)
            for k, t in q.facts.items():
                if k[0] != 'ult': continue
                k1, k2 = W.unh(dict(k[1])), W.unh(dict(k[2]))
                if v and t and (k1 == a and k2 == maxn) or v and not t and (k1 == maxn and k2 == a): return True
                if not v and not t and (k1 == a and k2 == maxn) or not v and t and k1 == maxn and k2 == a: return True
            return False
        def look(q, evs, nx, leave):
            nonlocal cut
            st = [(k, z) for k, z in enumerate(evs) if z[0] == 'store']
            lenst = [z for k, z in st if z[1] == W.add(V, c(8))]; nst = [z for k, z in st if z[1] == s.datan]
            if not lenst and not nst:
                if leave: return
                if not fits(q, True): raise Bad('space', 'uncut', 'a message that goes beyond the capacity is left as it is on some path', where)
                if W.sub(V, nx) != nextmsg: raise Bad('walk', 'cap-next', 'the walk over the messages does not go on with the next one', where)
                if W.sub(x, nx) != W.add(x, ln): raise Bad('count', 'cap-sum', 'the length of a message is not counted', where)
                return
            cut += 1
            if len(lenst) != 1 or not nst: raise Bad('space', 'cut', 'a stream that is cut off does not have both its last message and its number of words corrected', (lenst or nst)[0][3].where)
            new = W.unh(lenst[0][2]); w = lenst[0][3].where
            if W.add(x, new) != maxn: raise Bad('space', 'cut-length', f'a stream that is cut off keeps {W.show(W.add(x, new))} words of records, {W.show(maxn)} fit', w)
            if not fits(q, False): raise Bad('space', 'cut-when', 'a message may be made longer by cutting it off', w)
            words = W.undiv(W.mul(c(4), W.unh(nst[-1][2])))
            if words != W.add(W.add(W.add(V, c(12)), W.mul(c(4), new)), D, -1): raise Bad('space', 'cut-words', 'the number of words of a stream that is cut off does not go with its last message', nst[-1][3].where)
            # the rest is still counted
            after_ = evs[evs.index(nst[-1]):] if True else []
            ls = [z for z in after_ if z[0] == 'loop']
            okc = False
            for z in ls:
                l2 = Level(W, z[1], z[2], z[3])
                for n1 in l2.names:
                    for n2 in l2.names:
                        v1, x1 = W.atom(('x', n1)), W.atom(('x', n2))
                        if n1 == n2 or W.unh(l2.entry[n1]) != nextmsg or W.unh(l2.entry[n2]) != W.add(x, ln): continue
                        l1 = s.ld(W.add(v1, c(8)))
                        okc = all(W.sub(x1, b) == W.add(x1, l1) and W.sub(v1, b) == W.add(W.add(v1, c(12)), W.mul(c(4), l1)) and s.endt(l2.ev(a), v1, end) for a, b in l2.rounds) or okc
            if not okc: raise Bad('count', 'cap-rest', 'messages behind the capacity are not counted', w)
        for q, nx in lv.rounds: look(q, lv.ev(q), nx, False)
        k0 = [k for k, e in enumerate(after) if e[0] == 'loop' and s.lv and s.level(e) is lv][0]
        look(p, [z for z in after[k0 + 1:]], {}, True)
        if cut: s.ok('space')
        s.cuts = getattr(s, 'cuts', 0) + cut
        # numbers
        if not ret or len(ret) != 1 or next(iter(ret))[0][0] != 'udiv' or dict(next(iter(ret))[0][2]) != rs: 
            if rs != c(1): raise Bad('count', 'returned', f'{W.show(ret)} is returned, not the number of records that arrived')
        done = False
        for e, l in unpacks:
            if l is lv: continue
            try: i = s.index(l, {})
            except Bad: continue
            for q, nx in l.rounds:
                st = [z for z in l.ev(q) if z[0] == 'store' and z[1] == s.part(i, 'n')]
                if not st: break
                done = True; v = st[-1][2]
                if not (v == ret and ge(W, q, mx, ret) or v == mx and (ge(W, q, ret, mx) or q.facts.get(('ult', W.k(mx), W.k(ret))) is True)): raise Bad('count', 'cap-set', f'an array is said to have {W.show(v)} records, not the smaller of what arrived and what fits', st[-1][3].where)
        if not done: raise Bad('count', 'set', 'the arrays are not all told how many records they have')
        s.ok('count')

def remainder(q, x):
    a = [z for mm in q for z in mm]
    return len(q) == 1 and len(a) == 1 and a[0][0] in ('urem', 'and') and a[0][1] == x and dict(a[0][2]).get((), 0) in (3, 4)
def self_div(q): return len(q) == 1 and len(next(iter(q))) == 1 and next(iter(q))[0][0] in ('udiv', 'lshr')
