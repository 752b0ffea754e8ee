"""P02: no use of storage that has moved, been released or gone out of scope"""
import build
import importlib
from an import *
from heap import *
p01 = importlib.import_module('p01')
EXPLANATION = ('Flow- and path-sensitive abstract heap over the LLVM IR of every function (helpers placed into their callers, other functions by their summary), in every configuration: every pointer value names the block it points into; '
  'an operation that may reallocate or release a block gives whatever is there afterwards a new name, so that a pointer kept from before is told from one taken afterwards. No load, store, memory copy, message or call may use a pointer to an old block; '
  'nothing that outlives a call may hold the address of a local variable.')

UNROLL = ',function(loop-simplify,lcssa,loop(loop-unroll-full),instsimplify)'          # no simplifycfg: it turns tests into selections
POSTS = {'MPI_Irecv': (0,), 'MPI_Isend': (0,), 'MPI_Iallreduce': (0, 1)}
class Stale(Heap):
    def __init__(s, *a):
        super().__init__(*a)
        if not hasattr(s, 'stale'): s.stale = {}; s.moved = set(); s.touched = set(); s.late = set(); s.posts = set(); s.nuse = 0
    def run(s):
        s.stale = {}; s.moved = set(); s.touched = set(); s.late = set(); s.posts = set(); s.nuse = 0
        s.rel = set(); s.gone = set(); s.run1()
    # recency: the block of an earlier round goes by another name
    def new(s, i, st, kind, key=None):
        t = ('tok', key or i.name or f'@{i.bb.name}.{i.idx}'); s.sites[t] = (i, kind)
        if t in st.tok:
            o = ('tok', t[1] + '~'); s.sites[o] = s.sites[t]
            ren = lambda v: frozenset((o, x[1]) if isinstance(x, tuple) and x[0] == t else x for x in v) if any(isinstance(x, tuple) and x[0] == t for x in v) else v
            for k in st.env: st.env[k] = ren(st.env[k])
            for k in list(st.mem):
                v = ren(st.mem[k])
                if k[0] == t:
                    del st.mem[k]; k = (o, k[1]); v = v | st.mem.get(k, frozenset())
                st.mem[k] = v
            st.tok[o] = st.tok[t] | st.tok.get(o, frozenset())
        st.tok[t] = frozenset('L')
        return frozenset([(t, (0,))])
    def write(s, addr, val, st):
        if len(addr) > 1:                 # one of several cells; each held a block that is gone now
            for it in addr:
                if isinstance(it, tuple) and isinstance(it[1][-1], int) and all(x in ('null', 'und') or isinstance(x, tuple) and s.old(x, st) for x in st.mem.get(it, UND(it))): st.mem[it] = frozenset()
            for it in addr:
                if isinstance(it, tuple) and not isinstance(it[1][-1], int):
                    c = st.mem.get(it)
                    if c and all(x in ('null', 'und') or isinstance(x, tuple) and s.old(x, st) for x in c): st.mem[it] = frozenset()
        for it in addr:                   # a cell of an array: the element written is the one whose block is gone
            if isinstance(it, tuple) and not isinstance(it[1][-1], int) or isinstance(it, tuple) and any(not isinstance(o, int) for o in it[1]):
                c = st.mem.get(it)
                if c: st.mem[it] = frozenset(x for x in c if not (isinstance(x, tuple) and s.old(x, st)))
        super().write(addr, val, st)
    def release(s, i, v, st, kind):
        for it in v:
            if not isinstance(it, tuple): continue
            root, path = it
            if root[0] == 'tok' and len(path) == 1: st.tok[root] = frozenset('F')
            elif root[0] in ('p', 'g'):
                st.tok['rel', root, path[:-1]] = frozenset('F'); s.rel.add((root, path))
                if s.final: s.freed.setdefault((root, path), []).append((i, kind))
    def old(s, it, st):
        """a block on the way has been moved or released"""
        root, path = it
        if root[0] == 'tok': return st.tok.get(root) == {'F'}
        if st.tok.get(('rel', root, path[:-1])) == {'F'}: return True
        return any(k[0] == 'rel' and k[1] == root and v == {'F'} and any(not isinstance(o, int) for o in k[2]) and p01.covers(k[2], path[:-1]) for k, v in st.tok.items())
    def load(s, addr, st):
        v = super().load(addr, st)
        for it in addr:
            if isinstance(it, tuple) and it[0][0] in ('p', 'g'):
                for (r, p), c in st.mem.items():
                    if r == it[0] and len(p) == len(it[1]) > 1 and p[:-1] != it[1][:-1] and all(meets(a, b) for a, b in zip(p, it[1])): v = v | c
        if any(isinstance(x, tuple) and not s.old(x, st) for x in v):         # something newer lies there: not what was there when the call began
            for it in addr:
                if isinstance(it, tuple) and it not in st.mem and it[0][0] in ('p', 'g'):
                    x = it[0], it[1] + (0,)
                    if s.old(x, st): v = v - {x}
        return v
    def touch(s, i, a, st):
        if not s.final: return
        s.nuse += 1
        for it in a:
            if not isinstance(it, tuple): continue
            if s.old(it, st): s.stale.setdefault((it[0], it[1][:-1]), (i, st)); continue
            if it[0][0] == 'p':
                s.touched.add((it[0][1], it[1][:-1]))
                for k, v in st.tok.items():
                    if k[0] == 'rel' and k[1][0] == 'p' and v == {'F'} and k[1] != it[0] and all(isinstance(o, int) for o in it[1][:-1]): s.late.add((it[0][1], it[1][:-1], k[1][1], k[2]))
    # a value that is an address for sure
    def nonnull(s, it, st):
        if not isinstance(it, tuple): return False
        root, path = it
        return root[0] in ('tok', 'al') and len(path) == 1 or root[0] == 'g' and len(path) == 1 or isinstance(path[-1], int) and path[-1] != 0 or ('nn',) + it in st.tok
    def block(s, b, st, order):
        out = super().block(b, st, order); t = b.term
        c = s.f.defs.get(t.ops[0]) if t.op == 'br' and t.ops and isinstance(t.ops[0], str) else None
        if c is None or c.op != 'icmp' or c.extra not in ('eq', 'ne') or 'null' not in c.ops or len(out) != 2: return out
        p = c.ops[1] if c.ops[0] == 'null' else c.ops[0]
        if not isinstance(p, str): return out
        v = s.val(p, st); yes = s.f.bb[t.extra[0 if c.extra == 'eq' else 1]]; no = s.f.bb[t.extra[1 if c.extra == 'eq' else 0]]
        if yes is no: return out
        if v and all(s.nonnull(it, st) for it in v): return [(x, q) for x, q in out if x is no]
        if len(v) == 1:
            it, = v
            if isinstance(it, tuple):
                for n, (x, q) in enumerate(out):
                    if x is no: q = q.copy(); q.tok[('nn',) + it] = frozenset('F'); out[n] = x, q
        return out
    def post(s, i, v):
        if s.final and s.summ.outlast(s.f, i): s.posts |= {(it, i) for it in v if isinstance(it, tuple)}
    def blocks(s, i, k, path, st):
        """blocks reached from an argument of a call along a path of cells"""
        if k >= len(i.ops): return frozenset()
        v = s.val(i.ops[k], st)
        for o in path:
            v = s.load(frozenset((it[0], it[1][:-1] + (plus(it[1][-1], o),)) for it in v if isinstance(it, tuple)), st)
        return v
    def call(s, i, st):
        n = plain(cname(s.m, i) or '')
        if i.extra in s.noret or n in ('exit', 'abort', 'MPI_Abort'): return False
        if n.startswith('llvm.mem'):
            for v in i.ops[:1 if 'memset' in n else 2]: s.touch(i, s.val(v, st), st)
            return super().call(i, st)
        if n.startswith('llvm.'): return super().call(i, st)
        fn = s.m.funcs.get(i.extra)
        if n in POSTS:
            for k in POSTS[n]: s.post(i, s.val(i.ops[k], st))
        if n in ('MPI_Comm_free', 'MPI_Comm_dup'):
            for v in i.ops:
                if isinstance(v, str): s.touch(i, s.val(v, st), st)
        if n in ('free', 'realloc', 'malloc', 'calloc', 'MPI_Comm_free') : return super().call(i, st)
        fns = [fn] if fn is not None else [s.m.funcs[x] for x in sorted(s.m.cg.targets(i) or ()) if x in s.m.funcs]
        if not fns:
            for v in i.ops:
                if isinstance(v, str): s.touch(i, s.val(v, st), st)
            return super().call(i, st)
        sms = [x for x in (s.summ.of(g.name, {k: s.known(v) for k, v in enumerate(i.ops) if isinstance(s.known(v), int)}) for g in fns) if x]
        if s.final: s.calls.append((i, fns, [s.val(v, st) for v in i.ops]))
        if s.final:
            for k, path in {x for sm in sms for x in sm['touched']}: s.touch(i, s.blocks(i, k, path[:], st), st)
            for j, pj, k, pk in {x for sm in sms for x in sm['late']}:
                a = {(x[0], x[1][:-1]) for x in s.blocks(i, j, pj, st) if isinstance(x, tuple)}; b = {(x[0], x[1][:-1]) for x in s.blocks(i, k, pk, st) if isinstance(x, tuple)}
                if a & b: s.stale.setdefault(min(a & b, key=repr), (i, st))
        for k, path in {x for sm in sms for x in sm['posts']}: s.post(i, s.blocks(i, k, path, st))
        fresh = {}
        for sm in sms:
            for k, path in sm['moved']:
                v = s.blocks(i, k, path, st); s.release(i, frozenset(x for x in v if isinstance(x, tuple)), st, 'moved'); fresh.update({(k, path): 1} if not any((k, path[:n]) in sm['moved'] for n in range(len(path))) else {})
        for sm in sms:
            for k, path, kind in sm['own']: fresh[k, path] = 1
        for k, path in sorted(fresh, key=lambda x: (len(x[1]), repr(x))):
            if not path: continue
            for it in s.arg(i, k, path, st): s.write(frozenset([it]), s.new(i, st, 'heap', key=f'{i.name or i.bb.name + '.' + str(i.idx)}:{k}:{path}'), st)
        put = []
        for sm in sms:
            for g, path in sm['gmoved']:
                for k in list(st.mem):
                    if k[0] == ('g', g) and len(k[1]) > len(path) and p01.covers(path, k[1][:len(path)]): del st.mem[k]
                v = s.load(frozenset([(('g', g), path)]), st)
                s.release(i, frozenset(x for x in v if isinstance(x, tuple)), st, 'moved')
                s.write(frozenset([(('g', g), path)]), s.new(i, st, 'heap', key=f'{i.name or i.bb.name + "." + str(i.idx)}:{g}:{path}'), st)
            for d, dp, k, path in sm['keeps']:
                v = frozenset((x[0], x[1][:-1] + (plus(x[1][-1], path[-1]),)) for x in s.blocks(i, k, path[:-1], st) if isinstance(x, tuple) and x[0][0] == 'al')
                if v: put.append((d, dp, v))
        for d, dp, v in put:
            s.write(frozenset([(d, dp)]) if d[0] == 'g' else frozenset(s.arg(i, d[1], dp, st)), v, st)
        if i.name and i.ty == 'ptr': st.env[i.name] = s.new(i, st, 'heap') if any(sm['ret'] for sm in sms) else s.result(i, fns, sms, st)
    def result(s, i, fns, sms, st):
        """the address a function hands back is one it was given"""
        out = set()
        for sm in sms:
            for k, path, off in sm['gives']:
                out |= {(x[0], x[1][:-1] + (plus(x[1][-1], off),)) for x in s.blocks(i, k, path, st) if isinstance(x, tuple)}
        return frozenset(clip(out)) if out else TOP

def s_old(h, it, st): return h.old(it, st)

def summary(h):
    own = set(); ret = False; moved = set(); gives = set()
    for (root, path), l in h.freed.items():
        if root[0] == 'p': moved.add((root[1], path[:-1]))
    for (t, st, rv), (ow, ex) in zip(h.ret, h.own):
        for k in ow:
            if 'L' not in st.tok.get(k, ''): continue
            for root, path in ex.get(k, ()):
                if root == ('ret',) and not path and len(ex[k]) == 1: ret = True
                if root[0] == 'p': own.add((root[1], path, h.sites[k][1]))
                for it in rv:
                    if isinstance(it, tuple) and it[0] == k and root[0] == 'p': gives.add((root[1], path, it[1][-1]))
        for it in rv:
            if isinstance(it, tuple) and it[0][0] == 'p' and not h.old(it, st): gives.add((it[0][1], it[1][:-1], it[1][-1]))
    top = lambda ks: {x for x in ks if not any((x[0], x[1][:n]) in {(y[0], y[1]) for y in ks} for n in range(len(x[1])))}          # parts of a new, or gone, block go with it
    own = top(own)
    keeps = set(); gmoved = {(root[1], path[:-1]) for (root, path), l in h.freed.items() if root[0] == 'g'}
    for (t, st, rv), (ow, ex) in zip(h.ret, h.own):
        for (root, path), v in st.mem.items():
            ds = [(root, path)] if root[0] in ('p', 'g') else [(a, b + path) for a, b in (ex.get(root, set()) | {x for x in ow[root] if x[0][0] == 'g'}) if a[0] in ('p', 'g')] if root in ow and 'L' in st.tok.get(root, '') else ()
            for d in ds:
                for it in v:
                    if isinstance(it, tuple) and it[0][0] == 'p' and (d[0] != it[0] or d[1] + (0,) != it[1]) and not s_old(h, it, st): keeps.add((d[0], d[1], it[0][1], it[1]))
    posts = {(it[0][1], it[1][:-1]) for it, _ in h.posts if it[0][0] == 'p'}
    return dict(posts=posts, keeps=keeps, gmoved=gmoved, free=[], own=sorted(own, key=repr), grow=set(), ret=ret and h.f.ret == 'ptr' and not gives, moved=moved, touched=h.touched, late=h.late, gives=gives)

class Analysis(p01.Analysis):
    def outlast(s, f, i):
        """a return is reached from the call with no waiting in between"""
        if s.waits is None:
            direct = {g.name for g in s.m.funcs.values() if any(x.op == 'call' and (plain(cname(s.m, x) or '')).startswith('MPI_Wait') for x in g.insts())}
            s.waits = set(direct); ch = True
            while ch:
                n = {g.name for g in s.m.funcs.values() if g.name not in s.waits and s.m.cg.callees(g) & s.waits}; s.waits |= n; ch = bool(n)
        stop = lambda x: x.op == 'call' and (plain(cname(s.m, x) or '').startswith('MPI_Wait') or x.extra in s.waits or (s.m.cg.targets(x) or set()) & s.waits if isinstance(x.extra, str) else False)
        seen = set(); wl = [(i.bb, i.bb.insts.index(i) + 1)]
        while wl:
            b, n = wl.pop()
            if any(stop(x) for x in b.insts[n:]): continue
            if b.term.op == 'ret': return True
            for x in b.succs:
                if x not in seen: seen.add(x); wl.append((x, 0))
        return False
    def __init__(s, m):
        s.waits = None
        s.m, s.noret, s.H, s.base, s.memo, s.rel = m, noret_funcs(m), {}, {}, {}, {}; done = set()
        def visit(n):
            if n in done: return
            done.add(n); f = m.funcs[n]
            for c in sorted(m.cg.callees(f)):
                if c in m.funcs: visit(c)
            s.rel[n] = s.relevant(f)
            if n in s.noret or not any(p[1] == 'ptr' for p in f.params) and not any(i.op == 'call' for i in f.insts()): return
            s.H[n] = s.go(f, {}); s.base[n] = summary(s.H[n])
        for n in sorted(m.funcs): visit(n)
    def go(s, f, consts):
        h = Stale(f, s, s.noret, consts); h.run(); h.own = [owners(h, st, rv) for _, st, rv in h.ret]; return h
    def of(s, n, consts):
        if n not in s.base: return None
        consts = {k: v for k, v in consts.items() if k in s.rel[n]}
        if not consts: return s.base[n]
        k = n, tuple(sorted(consts.items()))
        if k not in s.memo: s.memo[k] = summary(s.go(s.m.funcs[n], consts))
        return s.memo[k]

def outstanding(r, m, A):
    """messages left outstanding do not use storage that every operation shares, and may move"""
    moves = {}
    for n, h in A.H.items():
        for (root, path), l in h.freed.items():
            if root[0] == 'g' and all(isinstance(o, int) for o in path): moves.setdefault((root, path[:-1]), src(h.f))
    for n, h in sorted(A.H.items()):
        for it, i in sorted(h.posts, key=repr):
            r.ok('outstanding')
            if it[0][0] == 'al': r.bad('outstanding', f'{src(h.f)}:local', i.where, f'{src(h.f)} returns while messages use storage of a local variable'); continue
            cells = {(it[0], it[1][:-1])} if it[0][0] == 'g' else {x for _, ex in h.own for x in ex.get(it[0], ())} if it[0][0] == 'tok' else set()
            for c in sorted(cells, key=repr):
                if c in moves: r.bad('outstanding', f'{src(h.f)}:{plain(c[0][1].lstrip("@"))}', i.where, f'{src(h.f)} returns while messages use {p01.show(*c)}, storage shared by all operations, which {moves[c]} may move')

def part(r, cfg):
    m = norm(cfg, passes=build.NORMAL + UNROLL); A = Analysis(m)
    outstanding(r, m, A)
    for n, h in sorted(A.H.items()):
        nm = src(h.f)
        for (root, path), (i, st) in sorted(h.stale.items(), key=repr):
            what = 'a block it acquired' if root[0] == 'tok' else p01.show(root, path)
            r.bad('moved', f'{nm}:{"-".join(map(str, path))}', i.where, f'{nm} uses {what} through a pointer from before it was moved or released')
        r.ok('moved', h.nuse)
        for (t, st, rv), (ow, ex) in zip(h.ret, h.own):
            for it in rv:
                if isinstance(it, tuple) and it[0][0] == 'al': r.bad('local', f'{nm}:result', t.where, f'{nm} hands back the address of a local variable')
            for (root, path), v in st.mem.items():
                if root[0] in ('p', 'g') or root in ow and 'L' in st.tok.get(root, ''):
                    r.ok('local')
                    gone = [it for it in v if isinstance(it, tuple) and it[0][0] == 'tok' and it[1] == (0,) and st.tok.get(it[0]) == {'F'}]
                    if gone: r.bad('dangling', f'{nm}:{"-".join(map(str, path))}', h.sites[gone[0][0]][0].where, f'{nm} releases a block it acquired and leaves its address in storage that outlives the call')
                    if any(isinstance(it, tuple) and it[0][0] == 'al' for it in v): r.bad('local', f'{nm}:{"-".join(map(str, path))}', t.where, f'{nm} leaves the address of a local variable in storage that outlives the call')

def check(r):
    parallel(part, ['nbc', 'serial'] if r.tier == 'quick' else build.ALL, r)
    r.need('moved', 200); r.need('local', 20); r.need('outstanding', 4)
