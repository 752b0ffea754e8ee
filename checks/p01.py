"""P01: every acquired resource is released exactly once"""
import an, build
from an import *
from heap import *
EXPLANATION = ('Flow- and path-sensitive abstract heap over the LLVM IR of every function (helpers placed into their callers, other functions by their summary), in every configuration: '
  'each allocation and each duplicated communicator is a token that is live, released or absent, kept in cells named by their path from a parameter, a global or the result. At every return, and at every '
  'branch, a live block must still be reachable from an object that outlives the call; nothing may be released twice, from its inside, or read after release. For every kind of object the '
  'parts its set-up (and operations) leave owned are compared with the parts its teardown releases: each exactly once, on every path, and defined by every path of the set-up.')
# objects of the interface: set-up (function, parameter or None for the result), operations that may add parts, teardown
OBJECTS = {'crystal': (('crystal_init', 0), ['crystal_router'], ('crystal_free', 0)), 'gs': (('gs_setup', None), [], ('gs_free', 0))}
for d in '23':
    OBJECTS[f'findpts_{d}'] = ((f'findpts_setup_{d}', None), [f'findpts_{d}', f'findpts_eval_{d}', f'findptsms_{d}', f'findptsms_eval_{d}'], (f'findpts_free_{d}', 0))
    OBJECTS[f'findptsms_{d}'] = ((f'findptsms_setup_{d}', None), [f'findptsms_{d}', f'findptsms_eval_{d}'], (f'findptsms_free_{d}', 0))
    OBJECTS[f'findpts_local_{d}'] = ((f'findpts_local_setup_{d}', 0), [], (f'findpts_local_free_{d}', 0))
    OBJECTS[f'findptsms_local_{d}'] = ((f'findptsms_local_setup_{d}', 0), [], (f'findptsms_local_free_{d}', 0))
    OBJECTS[f'findpts_el_{d}'] = ((f'findpts_el_setup_{d}', 0), [], (f'findpts_el_free_{d}', 0))
UNROLL = ',function(loop-simplify,lcssa,loop(loop-unroll-full),simplifycfg)'
WK = {'free': 'heap'}
WORDS = {'heap': 'a heap block', 'comm': 'a duplicated communicator'}

def show(root, path):
    if root == ('ret',): return 'result' + ''.join(f'->{p}' for p in path)
    b = f'argument {root[1] + 1}' if root[0] == 'p' else plain(root[1].lstrip('@')).split('.')[0] if root[0] == 'g' else str(root[1])
    return b + ''.join('->' + (str(o) if isinstance(o, int) else '[]' if o == '*' else f'[]+{o[2]}') for o in path)

class Analysis:
    """every function that touches the heap, callees first; a function is analysed again for the constants a call passes for what it branches on"""
    def __init__(s, m):
        s.m, s.noret, s.H, s.base, s.memo, s.rel = m, noret_funcs(m), {}, {}, {}, {}
        direct = {f.name for f in m.funcs.values() if any(i.op == 'call' and (cname(m, i) or '') in ALLOC | {'free', 'MPI_Comm_dup', 'MPI_Comm_free'} for i in f.insts())}
        done = set()
        def visit(n):
            if n in done: return
            done.add(n); f = m.funcs[n]
            for c in sorted(m.cg.callees(f)):
                if c in m.funcs: visit(c)
            s.rel[n] = s.relevant(f)
            if n in s.noret or not (n in direct or any(c in s.H for c in m.cg.callees(f))): return
            s.H[n] = s.go(f, {}); s.base[n] = summary(s.H[n])
        for n in sorted(m.funcs): visit(n)
    def go(s, f, consts):
        h = Heap(f, s, s.noret, consts); h.run(); h.own = [owners(h, st, rv) for _, st, rv in h.ret]; return h
    def __getitem__(s, n): return s.base[n]
    def __contains__(s, n): return n in s.base
    def of(s, n, consts):
        if n not in s.base: return None
        consts = {k: v for k, v in consts.items() if k in s.rel[n]}
        if not consts: return s.base[n]
        k = n, tuple(sorted(consts.items()))
        if k not in s.memo: s.memo[k] = summary(s.go(s.m.funcs[n], consts))
        return s.memo[k]
    def relevant(s, f):
        out = set(); ps = {p[0]: k for k, p in enumerate(f.params)}
        for i in f.insts():
            if i.op == 'icmp' and i.extra in ('eq', 'ne') and any(isinstance(x, int) for x in i.ops): out |= {ps[x] for x in i.ops if x in ps and f.params[ps[x]][1] != 'ptr'}
            if i.op == 'call' and i.extra in s.rel: out |= {ps[v] for k, v in enumerate(i.ops) if k in s.rel[i.extra] and v in ps}
        return out

def summary(h):
    free = []; own = set(); fresh = set(); ret = False
    for (root, path), l in h.freed.items():
        if root[0] == 'p' and any(k != 'realloc' for _, k in l): free.append((root[1], path[:-1], [WK.get(k, k) for _, k in l if k != 'realloc'][0]))
    free.sort(key=lambda x: (-len(x[1]), repr(x)))
    for (t, st, rv), (ow, ex) in zip(h.ret, h.own):
        top = {x for k in ow if 'L' in st.tok.get(k, '') for x in ex.get(k, ())}
        for k in ow:
            if 'L' not in st.tok.get(k, ''): continue
            for root, path in ex.get(k, ()):
                if root == ('ret',) and not path and len(ex[k]) == 1: ret = True
                if root[0] != 'p' or any((root, path[:n]) in top for n in range(1, len(path))): continue
                e = (root[1], path, h.sites[k][1]); own.add(e)
                if not grown(h, k, root, path): fresh.add(e)
    ret = ret and h.f.ret == 'ptr'
    return dict(free=free, own=sorted(own, key=repr), grow=own - fresh, ret=ret)

def part(r, cfg):
    m = norm(cfg, passes=build.NORMAL + UNROLL); summ = Analysis(m); H = summ.H
    fins = teardowns(m)
    obj = dict(OBJECTS); byname = {}
    for n, h in H.items(): byname.setdefault(src(h.f) if not h.f.internal else src(h.f), []).append(h)
    # --- every function by itself
    for n, h in sorted(H.items()):
        f = h.f; nm = src(f); seen = {}
        for t, (i, how) in h.leaks.items(): r.bad('released', f'{nm}:lost:{h.sites[t][1]}', i.where, f'{nm}: {WORDS.get(h.sites[t][1], "an object")} acquired here is no longer reachable on some path, and was not released')
        for (t, st, rv), (ow, ex) in zip(h.ret, h.own):
            for k, v in st.tok.items():
                if k[0] != 'tok': continue
                seen.setdefault(k, True)
                if 'L' in v and k not in ow:
                    r.bad('released', f'{nm}:kept:{h.sites[k][1]}', h.sites[k][0].where, f'{nm}: {WORDS.get(h.sites[k][1], "an object")} acquired here is neither released nor part of an object when the call returns ({t.where})')
        r.ok('released', len(seen))
        for k, i in h.double.items(): r.bad('once', f'{nm}:twice', i.where, f'{nm} releases the same block twice')
        for k, (i, how) in h.foreign.items(): r.bad('once', f'{nm}:{how}', i.where, f'{nm} releases memory that is not an allocated block (' + ('inside a block' if how == 'inside' else 'storage of a local variable') + ')')
        for k, i in h.used.items(): r.bad('once', f'{nm}:used', i.where, f'{nm} uses a block it has released')
        r.ok('once', sum(len(l) for l in h.freed.values()) + 1)
    # --- objects
    for name, (su, ops, td) in sorted(obj.items()):
        hs = byname.get(su[0]), byname.get(td[0])
        if not all(hs): r.notes.append(f'{cfg}: {name}: no such object'); continue
        parts(r, name, hs[0][0], ('p', su[1]) if su[1] is not None else ('ret',), 0, [h for o in ops for h in byname.get(o, ())], hs[1][0], td[1], H)
    for f, i, same in m.fincalls:
        if same: r.ok('teardown')
        else: r.bad('teardown', f'{src(f)}:mixed', i.where, f'{src(f)} hands the storage of one object to the teardown routine of another')
    for s, (t, off, data) in sorted(fins.items()):
        if s in H and t in H: parts(r, src(m.funcs[s]), H[s], ('p', 0), data, [], H[t], 0, H)
        elif s in H: r.bad('teardown', f'{src(m.funcs[s])}:none', m.funcs[s].file, f'{src(m.funcs[s])} acquires storage, but the routine it names as its teardown releases nothing')
    registries(r, m, H)
    # --- operations and everything else: what they leave in their arguments is either grown in place or new
    special = {x[0] for o in obj.values() for x in (o[0],)} | {src(m.funcs[s]) for s in fins}
    allops = {x: o for nme, o in obj.items() for x in o[1]}
    for n, h in sorted(H.items()):
        nm = src(h.f)
        for k, path, kind in summ[n]['own']:
            if nm in special or (k, path, kind) in summ[n]['grow']: continue
            if any(k == p and path[:1] == (d,) for p, d in setup_slots(m, h, fins)): continue
            if nm in allops: r.ok('replaced'); continue
            r.bad('replaced', f'{nm}:{show(("p", k), path)}', h.f.file, f'{nm} puts a new block into {show(("p", k), path)} without releasing the one that was there')
        r.ok('replaced')

def setup_slots(m, h, fins): 
    """cells that calls of a set-up routine through the table, or directly, fill"""
    out = set()
    for i, fns, args in h.calls:
        for g in fns:
            if g.name in fins and args:
                for it in args[0]:
                    if isinstance(it, tuple) and it[0][0] == 'p': out.add((it[0][1], plus(it[1][-1], fins[g.name][2])))
    return out

def base_off(f, a):
    """(value, offset) an address is, through constant steps"""
    off = 0; n = 0
    while isinstance(a, str) and a in f.defs and n < 30:
        d = f.defs[a]; n += 1
        if d.op == 'bitcast': a = d.ops[0]; continue
        if d.op != 'getelementptr': break
        ty = d.extra; o = 0
        for k, x in enumerate(d.ops[1:]):
            if k:
                rt = f.mod.resolve(ty)
                if rt[0] == 'st': o += f.mod.field_off(ty, x); ty = rt[1][x]; continue
                ty = rt[2]
            if not isinstance(x, int): return a, None
            o += x * f.mod.size(ty)
        off += o; a = d.ops[0]
    return a, off

def teardowns(m):
    """{set-up routine: (teardown it stores in its object, its offset, offset of the data pointer handed to it)}"""
    st = {}
    for f in m.funcs.values():
        if not f.params or f.params[0][1] != 'ptr': continue
        for i in f.insts():
            if i.op != 'store' or i.ty != 'ptr' or not isinstance(i.ops[0], str) or i.ops[0] not in m.funcs: continue
            g = m.funcs[i.ops[0]]; b, o = base_off(f, i.ops[1])
            if len(g.params) == 1 and g.params[0][1] == 'ptr' and b == f.params[0][0]: st[f.name] = (g.name, o)
    tds = {g for g, _ in st.values()}; diff = {}; m.fincalls = []
    for f in m.funcs.values():
        for i in f.insts():
            if i.op != 'call' or not isinstance(i.extra, str) or i.extra in m.funcs or i.extra[:1] == '@' or not (m.cg.targets(i) or set()) & tds: continue
            c, a = f.defs.get(i.extra), f.defs.get(i.ops[0]) if i.ops and isinstance(i.ops[0], str) else None
            if c is None or c.op != 'load' or a is None or a.op != 'load': continue
            (cb, co), (ab, ao) = base_off(f, c.ops[0]), base_off(f, a.ops[0])
            m.fincalls.append((f, i, cb == ab))
            if cb == ab and co is not None and ao is not None: diff[co - ao] = diff.get(co - ao, 0) + 1
    if not diff: return {}
    d = max(diff, key=diff.get)
    return {s: (g, o, o - d) for s, (g, o) in st.items()}

def null_tested(f, i):
    """the only condition of the release is that there is a block"""
    v = i.ops[0]; same = lambda a: a == v or isinstance(a, str) and isinstance(v, str) and a in f.defs and v in f.defs and f.defs[a].op == f.defs[v].op == 'load' and base_off(f, f.defs[a].ops[0]) == base_off(f, f.defs[v].ops[0])
    L = f.loop_of(i.bb)
    for c, pol, b in guards(f, i.bb):
        if L is not None and b not in L.body: continue
        d = f.defs.get(c) if isinstance(c, str) else None
        if L is not None and any(t not in L.body for t in b.succs): continue
        if d is None or d.op != 'icmp' or not any(same(x) for x in d.ops): return False
    return True

def pools(r, name, hs, ht, kt, own, freed):
    """parts kept in an array of the object: as many are released as the array has elements"""
    many = [x for x in freed if x and not isinstance(x[-1], int) and all(isinstance(o, int) for o in x[:-1])]
    if not many: return
    P, Q = PN(hs.f), LP(ht.f); arr = {}
    for (t, st, rv), (ow, ex) in zip(hs.ret, hs.own):
        for k in ow:
            i = hs.sites[k][0]
            if 'L' not in st.tok.get(k, '') or i.op != 'call' or (cname(hs.m, i) or '') not in ('malloc', 'calloc'): continue
            al = {b[len(b) - n:] for a, b in ow[k] for n in range(len(b) + 1)}
            hit = [x for x in many if x[:-1] in al and x in own]
            if hit: arr[k] = (i, hit)
    for k, (i, hit) in arr.items():
        S = hit[0][-1][1] if isinstance(hit[0][-1], tuple) else None
        if S is None: continue
        size = P.n(i.ops[0]) if (cname(hs.m, i) or '') == 'malloc' else P.mul(P.n(i.ops[0]), P.n(i.ops[1]))
        if any(c % S for c in size.values()): continue
        cnt = {}
        for fi in {id(y[0]): y[0] for x in hit for y in freed[x]}.values():
            L = ht.f.loop_of(fi.bb); ends = [b for b in L.latches] if L is not None else [t.bb for t, _, _ in ht.ret]
            if not all(ht.f.dominates(fi.bb, b) for b in ends) and not null_tested(ht.f, fi):
                r.bad('parts', f'{name}:sometimes:{"-".join(map(str, hit[0][:-1]))}', fi.where, f'{src(ht.f)} releases some of the blocks in an array of {src(hs.f)} only under a condition')
        for fi in {id(y[0]): y[0] for x in hit for y in freed[x]}.values():
            n = Q.const(1); L = ht.f.loop_of(fi.bb)
            while L is not None: n = Q.mul(n, Q.add(Q.trip(L), Q.const(int(fi.bb is L.head)))); L = L.parent
            cnt = Q.add(cnt, n)
        put = {}              # fields the set-up writes once
        for i2 in hs.f.insts():
            if i2.op == 'store' and i2.ty != 'ptr':
                q = dict(P.n(i2.ops[1])); o = q.pop((), 0)
                if len(q) == 1 and list(q.values()) == [1] and len(list(q)[0]) == 1 and list(q)[0][0][0] in ('call', 'p'): put.setdefault(o, []).append(P.n(i2.ops[0]))
        def fld(p, base):
            def fn(a):
                if a[0] == 'ld':
                    q = dict(a[1]); o = q.pop((), 0)
                    if len(q) == 1 and list(q.values()) == [1] and base(list(q)[0]): return put[o][0] if len(put.get(o, ())) == 1 else Q.atom(('k', f'field {o}'))
            return Q.subst(p, fn)
        a = fld({m: c // S for m, c in size.items()}, lambda m: len(m) == 1 and m[0][0] in ('call', 'p'))
        b = fld(cnt, lambda m: m == (('p', kt),))
        pure = lambda p: all(z[0] in ('k', 'x') for m in p for z in m)
        if not (pure(a) and pure(b)): r.notes.append(f'{name}: number of parts released from an array not comparable: {Q.show(b)} of {P.show(a)}'); continue
        if a != b: r.bad('parts', f'{name}:count:{"-".join(map(str, hit[0][:-1]))}', freed[hit[0]][0][0].where, f'{src(ht.f)} releases {Q.show(b)} of the {P.show(a)} blocks that the array of {src(hs.f)} holds')
        else: r.ok('parts')

def covers(x, y): return len(x) == len(y) and all(a == b or not isinstance(a, int) and meets(a, b) for a, b in zip(x, y))

def deepest(h, k, x, H):
    """the routine that really releases the part, and the part's path there, when (a member of) the object is handed on"""
    while True:
        i = h.freed[('p', k), x + (0,)][0][0]
        g = H.get(i.extra)
        if g is None: return h, k, x
        for n, v in enumerate(i.ops):
            b, o = base_off(h.f, v)
            if b == h.f.params[k][0] and o is not None:
                y = (x[0] - o,) + x[1:] if x and isinstance(x[0], int) else x
                if (('p', n), y + (0,)) in g.freed: break
        else: return h, k, x
        h, k, x = g, n, y

def parts(r, name, hs, root, data, ops, ht, kt, H):
    """what the set-up leaves in the object against what the teardown releases"""
    own = {}; loose = {}          # path in the object -> kinds; paths that only may name a block
    blocks = []; later = {}
    def rel(rt, path, rt0, pre):
        if rt != rt0 or path[:len(pre)] != pre: return None
        return path[len(pre):]
    pre = () if root == ('ret',) or not data else (data,)
    for (t, st, rv), (ow, ex) in zip(hs.ret, hs.own):
        for k in ow:
            if 'L' not in st.tok.get(k, ''): continue
            ps = {rel(a, b, root, pre) for a, b in ex.get(k, ())} - {None}
            al = {rel(a, b, root, pre) for a, b in ow[k]} - {None}
            if not al: continue
            if ps or al: blocks.append((k, ps, al, hs, st))
            for x in ps: own.setdefault(x, set()).add(hs.sites[k][1])
    for h in ops:
        for (t, st, rv), (ow, ex) in zip(h.ret, h.own):
            for k in ow:
                if 'L' not in st.tok.get(k, ''): continue
                for a, b in ex.get(k, ()):
                    if a[0] == 'p' and rooted(h, a[1], name) and b: own.setdefault(b, set()).add(h.sites[k][1]); later.setdefault(b, (h, h.sites[k]))
    freed = {}
    for (a, b), l in ht.freed.items():
        if a == ('p', kt): freed.setdefault(b[:-1], []).extend((i, k, b) for i, k in l if k != 'realloc')
    freed = {k: v for k, v in freed.items() if v}
    tn = src(ht.f); sn = src(hs.f)
    for k, ps, al, h, st in blocks:
        hit = [x for x in ps if x in freed] or [x for x in freed if any(covers(x, y) for y in ps)]
        if not hit:
            w = min(ps or al, key=lambda x: (len(x), repr(x)))
            r.bad('parts', f'{name}:{"-".join(map(str, w)) or "object"}', ht.f.file, f'{tn} does not release {WORDS.get(h.sites[k][1], "object")} that {src(h.f)} keeps at {show(("ret",), w).replace("result", "the object")}')
        elif len([x for x in hit if all(isinstance(o, int) for o in x)]) > 1:
            r.bad('parts', f'{name}:twice', ht.f.file, f'{tn} releases one block under two names: ' + ', '.join(show(('ret',), x) for x in hit))
        else: r.ok('parts')
    for b, (h, (i, kind)) in sorted(later.items(), key=repr):
        if b in freed: r.ok('parts')
        else: r.bad('parts', f'{name}:{"-".join(map(str, b))}', ht.f.file, f'{tn} does not release {WORDS.get(kind, "an object")} that {src(h.f)} puts at {show(("ret",), b).replace("result", "the object")}')
    pools(r, name, hs, ht, kt, own, freed)
    # each released part is one that is acquired, by what releases its kind
    for x, l in sorted(freed.items(), key=repr):
        ks = {WK.get(k, k) for _, k, _ in l}
        if x not in own:
            he, ke, xe = deepest(ht, kt, x, H)
            if he is not ht and guard_flag(he, he.freed[('p', ke), xe + (0,)][0][0], ke): r.ok('parts'); continue        # a part that this set-up never asks for
            r.bad('parts', f'{name}:foreign:{"-".join(map(str, x))}', l[0][0].where, f'{tn} releases {show(("ret",), x).replace("result", "the object")}, which is not a block that its set-up acquires'); continue
        if own[x] != ks: r.bad('parts', f'{name}:kind:{"-".join(map(str, x))}', l[0][0].where, f'{tn} releases {show(("ret",), x).replace("result", "the object")} by the wrong routine'); continue
        # ... on every path, where the part is there
        flag = None
        if all(isinstance(o, int) for o in x):
            he, ke, xe = deepest(ht, kt, x, H)
            if xe != x: he, ke = ht, kt                # a member of its own kind: judged there
            rel_ = ('rel', ('p', ke), x + (0,))
            if any(st.tok.get(rel_, '-') not in ({'F'}, {'N'}) for _, st, _ in he.ret):
                flag = guard_flag(he, he.freed[('p', ke), x + (0,)][0][0], ke)
                if flag is None: r.bad('always', f'{name}:{"-".join(map(str, x))}', l[0][0].where, f'{tn} releases {show(("ret",), x).replace("result", "the object")} on some paths only'); continue
        # ... and defined by every path of the set-up
        if flag is None and x and all(isinstance(o, int) for o in x):
            for _, st, rv in hs.ret:
                for c in cell(hs, st, rv, root, pre + x):
                    if c == 'und' or c == 'top' or c != 'null' and c[0][0] == 'p':
                        r.bad('defined', f'{name}:{"-".join(map(str, x))}', hs.f.file, f'{sn} leaves {show(("ret",), x).replace("result", "the object")} without a value of its own on some path; {tn} releases it'); break
            r.ok('defined')
        if flag is not None: optional(r, name, x, flag, hs, root, ops, he, ke, H)
        r.ok('always')

def rooted(h, k, name): return h.f.params[k][1] == 'ptr' and k == objparam(h)
def objparam(h):
    """the object of an operation is its last pointer argument"""
    return max(k for k, p in enumerate(h.f.params) if p[1] == 'ptr')

def cell(h, st, rv, root, path):
    cur = frozenset(rv) if root == ('ret',) else frozenset([(root, (0,))])
    for n, o in enumerate(path):
        cur = frozenset((it[0], it[1][:-1] + (plus(it[1][-1], o),)) for it in cur if isinstance(it, tuple))
        cur = h.load(cur, st) if n < len(path) - 1 else frozenset(x for c in cur for x in st.mem.get(c, UND(c)))
    return cur

def flags_of(f, k):
    """constants stored in scalar fields of the object: [(offset, value, store)]"""
    out = []
    for i in f.insts():
        if i.op == 'store' and i.ty != 'ptr' and isinstance(i.ops[0], int):
            b, o = base_off(f, i.ops[1])
            if o is not None and (b == k or k is None and isinstance(b, str) and b in f.defs and f.defs[b].op == 'call'): out.append((o, int(i.ops[0]), i))
    return out

def tests(f, bb, pname):
    """tests of a field of the object that hold at the block: [(offset, predicate)]"""
    out = []
    for c, pol, _ in guards(f, bb):
        d = f.defs.get(c) if isinstance(c, str) else None
        if isinstance(c, tuple): continue
        if d is None or d.op != 'icmp' or d.extra not in ('eq', 'ne'): continue
        a, b = d.ops
        if isinstance(a, int): a, b = b, a
        l = f.defs.get(a) if isinstance(a, str) else None
        while l is not None and l.op in ('zext', 'sext', 'trunc'): l = f.defs.get(l.ops[0])
        if l is None or l.op != 'load' or not isinstance(b, int): continue
        base, o = base_off(f, l.ops[0])
        if base == pname and o is not None: out.append((o, (lambda v, b=b, e=(d.extra == 'eq') == pol: (v == b) == e), l))
    return out

def guard_flag(h, i, k):
    l = tests(h.f, i.bb, h.f.params[k][0])
    return l[0][:2] if l else None

def beside(f, s, i):
    """the store happens whenever the instruction does"""
    pd = f.pdom()[0]; b = i.bb
    while b is not None and b is not s.bb: b = pd.get(b)
    return b is s.bb or f.dominates(s.bb, i.bb)

def same_test(f, i, off, test, obj):
    """the part is acquired under the very condition that is stored in the field"""
    w = [s for s in f.insts() if s.op == 'store' and s.ty != 'ptr' and base_off(f, s.ops[1]) == (obj, off)]
    if not w or not all(f.dominates(s.bb, i.bb) for s in w): return False
    for c, pol, _ in guards(f, i.bb):
        d = f.defs.get(c) if isinstance(c, str) else None
        if d is None or d.op != 'icmp' or d.extra not in ('eq', 'ne'): continue
        a, b = d.ops
        if isinstance(a, int): a, b = b, a
        l = f.defs.get(a) if isinstance(a, str) else None
        if isinstance(b, int) and (all(s.ops[0] == a for s in w) or l is not None and l.op == 'load' and base_off(f, l.ops[0]) == (obj, off)):
            if all((((v == b) == (d.extra == 'eq')) == pol) == test(v) for v in range(4)): return True
    return False

def optional(r, name, x, flag, hs, root, ops, ht, kt, H):
    """a part that is there only when a field says so"""
    off, test = flag; tag = f'{name}:{"-".join(map(str, x))}'
    st = [s for o, v, s in flags_of(hs.f, None if root == ('ret',) else hs.f.params[root[1]][0]) if o == off and not test(v)]
    new = [hs.sites[t][0] for t in hs.sites if any((root, x) in ex.get(t, ()) for _, ex in hs.own)]
    if new and all(i.extra in H for i in new): r.ok('optional')          # the set-up of the part is another routine's
    elif not any(all(beside(hs.f, s, t) for t, _, _ in hs.ret) for s in st) and not (new and all(same_test(hs.f, i, off, test, hs.f.params[root[1]][0] if root[0] == 'p' else None) for i in new)):
        r.bad('optional', tag + ':setup', hs.f.file, f'{src(hs.f)} does not record that {show(("ret",), x).replace("result", "the object")} is absent, which {src(ht.f)} relies on')
    else: r.ok('optional')
    dom = sorted({v for h in ops for o, v, _ in flags_of(h.f, h.f.params[objparam(h)][0]) if o == off} | {v for o, v, _ in flags_of(hs.f, None if root == ('ret',) else hs.f.params[root[1]][0]) if o == off}) or range(4)
    for h in ops:
        k = objparam(h); pn = h.f.params[k][0]; nm = src(h.f)
        fl = [(v, s) for o, v, s in flags_of(h.f, pn) if o == off]
        new = [h.sites[t][0] for t in h.sites if any((('p', k), x) in ex.get(t, ()) for _, ex in h.own)]
        old = [i for i, kk in h.freed.get((('p', k), x + (0,)), ()) if kk != 'realloc']
        for i in new:
            if i.extra in H: r.ok('optional')
            elif not any(o == off and all(test(v) is False or not p(v) for v in dom) for o, p, _ in tests(h.f, i.bb, pn)):
                r.bad('optional', tag + f':{nm}:again', i.where, f'{nm} puts a new block into {show(("ret",), x).replace("result", "the object")} without making sure that there is none')
            elif not any(test(v) and beside(h.f, s, i) for v, s in fl): r.bad('optional', tag + f':{nm}:unrecorded', i.where, f'{nm} puts a block into {show(("ret",), x).replace("result", "the object")} without recording that it is there')
            else: r.ok('optional')
        for i in old:
            if i.extra in H: r.ok('optional')
            elif not any(o == off and all(test(v) or not p(v) for v in dom) for o, p, _ in tests(h.f, i.bb, pn)):
                r.bad('optional', tag + f':{nm}:absent', i.where, f'{nm} releases {show(("ret",), x).replace("result", "the object")} without making sure that it is there')
            elif not any(not test(v) and beside(h.f, s, i) for v, s in fl): r.bad('optional', tag + f':{nm}:unrecorded', i.where, f'{nm} releases {show(("ret",), x).replace("result", "the object")} without recording that it is gone')
            else: r.ok('optional')
        for v, s in fl:
            if test(v) and not new: r.bad('optional', tag + f':{nm}:claims', s.where, f'{nm} records a part that it does not acquire')
            if not test(v) and not old: r.bad('optional', tag + f':{nm}:forgets', s.where, f'{nm} records that {show(("ret",), x).replace("result", "the object")} is gone without releasing it')

def registries(r, m, H):
    """objects kept in tables of the library, by handle"""
    own, freed, where = {}, {}, {}
    for n, h in sorted(H.items()):
        for (t, st, rv), (ow, ex) in zip(h.ret, h.own):
            for k in ow:
                if 'L' not in st.tok.get(k, ''): continue
                gs = {(a, b) for a, b in ow[k] if a[0] == 'g' and b != (0,)}
                es = {(a, b) for a, b in ex.get(k, ()) if a[0] == 'g' and b != (0,)}
                if not gs: continue
                own.setdefault(gs.pop()[0] if not es else min(es, key=repr)[0], []).append((k, es, h))
        for (a, b), l in h.freed.items():
            if a[0] != 'g' or b[:-1] == (0,): continue
            l = [x for x in l if x[1] != 'realloc']
            if l: freed.setdefault(a, {}).setdefault(b[:-1], []).extend((i, k, h) for i, k in l)
    for g in sorted(set(own) | set(freed), key=repr):
        gn = plain(g[1].lstrip('@')).split('.')[0]; fr = freed.get(g, {}); acq = {}
        for k, es, h in own.get(g, ()):
            for a, b in es: acq.setdefault(b, set()).add(h.sites[k][1])
            if any(b in fr for a, b in es): r.ok('registry')
            else:
                w = min(es, key=repr) if es else (g, (0,))
                r.bad('registry', f'{gn}:{src(h.f)}:{"-".join(map(str, w[1]))}', h.f.file, f'nothing releases {show(*w)}, {WORDS.get(h.sites[k][1], "an object")} that {src(h.f)} acquires')
        for b, l in sorted(fr.items(), key=repr):
            ks = {WK.get(k, k) for _, k, _ in l}
            if b not in acq: r.bad('registry', f'{gn}:foreign:{"-".join(map(str, b))}', l[0][0].where, f'{src(l[0][2].f)} releases {show(g, b)}, which is not a block that is acquired')
            elif acq[b] != ks: r.bad('registry', f'{gn}:kind:{"-".join(map(str, b))}', l[0][0].where, f'{src(l[0][2].f)} releases {show(g, b)} by the wrong routine')
            else: r.ok('registry')
        # an entry goes with all its parts
        teards = [(h2, {b for b, l in fr.items() if any(x[2] is h2 for x in l)}) for h2 in {id(h): h for l in fr.values() for _, _, h in l}.values()]
        for h in {id(h): h for l in fr.values() for _, _, h in l}.values():
            mine = {b for b, l in fr.items() if any(x[2] is h for x in l)}
            direct = {b for b in mine if all(i.op == 'call' and (cname(m, i) or '') in ('free', 'MPI_Comm_free') for i, _, hh in fr[b] if hh is h)}
            top = [b for b in direct if not any(b[:n] in mine for n in range(1, len(b)))]
            for b in [b for b in mine if not any(b[:n] in mine for n in range(1, len(b)))]:
                whole = {c for c in fr if c[:len(b)] == b and any((x[2] is h2 and b in m2) for x in fr[c] for h2, m2 in teards)}
                if whole - mine: r.bad('registry', f'{gn}:{src(h.f)}:whole', fr[b][0][0].where, f'{src(h.f)} releases an entry of {gn} without ' + ', '.join(show(g, c) for c in sorted(whole - mine, key=repr)[:4]))
                if not isinstance(b[-1], int):
                    for t, st, _ in h.ret:
                        if 'F' in st.tok.get(('rel', g, b + (0,)), '-') and st.tok.get(('set', g, b), frozenset('-')) != st.tok['rel', g, b + (0,)] - {'N'}:
                            r.bad('registry', f'{gn}:{src(h.f)}:stale', fr[b][0][0].where, f'{src(h.f)} releases an entry of {gn} and leaves it in the table: it can be released again'); break
                    else: r.ok('registry')
            for _, st, _ in h.ret:
                got = {b for b in direct if st.tok.get(('rel', g, b + (0,)), '-') in ({'F'}, {'N'})}
                for b in top:
                    if ('F' in st.tok.get(('rel', g, b + (0,)), '-')) != all(c in got for c in direct if c[:len(b)] == b):
                        r.bad('registry', f'{gn}:{src(h.f)}:partly', h.f.file, f'{src(h.f)} releases an entry of {gn} and its parts on different paths')
                    else: r.ok('registry')

def check(r):
    parallel(part, ['nbc', 'serial'] if r.tier == 'quick' else build.ALL, r)
    r.need('released', 60); r.need('parts', 20); r.need('registry', 8)
