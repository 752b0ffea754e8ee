"""abstract execution of one round of a loop over affine values: the counters of the loop are symbols with known
parity (n = 2h+e), conditions that the affine values do not settle are followed both ways"""
from an import *
from msgs import POST

def acst(c): return {(): c} if c else {}
def aadd(a, b, k=1):
    r = dict(a)
    for s, c in b.items():
        v = r.get(s, 0) + k * c
        if v: r[s] = v
        else: r.pop(s, None)
    return r
def amul(a, k): return {s: c * k for s, c in a.items()} if k else {}
def acv(a): return 0 if not a else a[()] if len(a) == 1 and () in a else None
def akey(a): return tuple(sorted(a.items(), key=repr))
def ashow(a):
    if not a: return '0'
    nm = lambda s: s if isinstance(s, str) else s[1].lstrip('%') if s[0] in ('s', 'x') else 'id' if s[0] == 'id' else str(s[0])
    return ' + '.join((str(c) if s == () else nm(s) if c == 1 else f'{c}*{nm(s)}') for s, c in sorted(a.items(), key=repr))

class Out:
    def __init__(s): s.events, s.end, s.phis, s.assume, s.blur = [], None, {}, [], False
    def copy(s):
        o = Out(); o.events, o.assume, o.blur = list(s.events), list(s.assume), s.blur; return o

class TooMany(Exception): pass

class Rounds:
    """subs: {address key of a load: affine value}; low: lower bounds of symbols"""
    def __init__(s, f, P, subs=None, low=None):
        s.f, s.P, s.subs, s.low = f, P, subs or {}, low or {}; s.heads = {L.head: L for L in f.loops()}; s.limit = 400; s.ids = set(); s.joined = {}
    # ---------------------------------------------------------------- values
    def val(s, v, env):
        if isinstance(v, bool): return acst(int(v))
        if isinstance(v, int): return acst(v)
        if not isinstance(v, str): return {('o', str(v)): 1}
        if v in env: return env[v]
        d = s.f.defs.get(v)
        if d is None: return {('a', v): 1}
        env[v] = {('x', v): 1}
        r = env[v] = s.inst(d, env); return r
    def inst(s, d, env):
        o = d.op
        if o in ('zext', 'sext', 'trunc', 'freeze', 'bitcast'): 
            r = s.val(d.ops[0], env)
            return r
        if o == 'phi':
            if len(set(map(str, d.ops))) == 1: return s.val(d.ops[0], env)
            return {('x', d.name): 1}
        if o == 'load':
            k = s.P.k(s.P.n(d.ops[0]))
            if k in s.subs: return dict(s.subs[k])
            return {('ld', k): 1}
        if o in ('add', 'sub', 'mul', 'shl', 'lshr', 'udiv', 'ashr', 'sdiv', 'and', 'or', 'xor', 'urem', 'srem'):
            a, b = s.val(d.ops[0], env), s.val(d.ops[1], env); ca, cb = acv(a), acv(b)
            if o == 'add': return aadd(a, b)
            if o == 'sub': return aadd(a, b, -1)
            if o == 'mul':
                if cb is not None: return amul(a, cb)
                if ca is not None: return amul(b, ca)
            if o == 'shl' and cb is not None and 0 <= cb < 32: return amul(a, 1 << cb)
            if o in ('lshr', 'ashr', 'udiv', 'sdiv') and cb is not None and cb > 0:
                k = 1 << cb if o in ('lshr', 'ashr') else cb
                if all(c % k == 0 for t, c in a.items() if t != ()):
                    return {t: v for t, v in ((t, c // k) for t, c in a.items()) if v}
            if o in ('urem', 'srem') and cb: return s.mod(a, cb, o)
            if o == 'and':
                if ca is not None and cb is None: a, b, ca, cb = b, a, cb, ca
                if ca is not None and cb is not None: return acst(ca & cb)
                if cb == 0: return {}
                if d.ty == 'i1' and cb is not None: return a if cb & 1 else {}
                if cb is not None and cb & (cb + 1) == 0: return a if cb >= 0x3fffffff or cb == -1 else s.mod(a, cb + 1, 'and')
                if d.ty == 'i1' and akey(a) == akey(b): return a
            if o == 'or':
                if ca is not None and cb is None: a, b, ca, cb = b, a, cb, ca
                if ca is not None and cb is not None: return acst(ca | cb)
                if cb == 0: return a
                if d.ty == 'i1' and cb is not None: return acst(1)
                for x, y in ((a, b), (b, a)):
                    (t, c), = y.items() if len(y) == 1 else [((), 0)]
                    if c == 1 and t and t[:2] == ('o', 'mod') and all(v % t[3] == 0 for v in x.values()): return aadd(x, y)
                if cb is not None and cb > 0 and cb & (cb + 1) == 0 and all(c % (cb + 1) == 0 for c in a.values()): return aadd(a, b)
            if o == 'xor':
                if ca is not None and cb is not None: return acst(ca ^ cb)
                if cb == -1 and d.ty != 'i1': return aadd(acst(-1), a, -1)
                if d.ty == 'i1' and cb is not None: return aadd(acst(1), a, -1) if cb & 1 else a
            return {('o', o, akey(a), akey(b)): 1}
        if o == 'select':
            c = acv(s.val(d.ops[0], env))
            if c is None: return {('sel', d.name): 1}
            return s.val(d.ops[1 if c else 2], env)
        if o == 'icmp':
            z = s.cmp(d.extra, s.val(d.ops[0], env), s.val(d.ops[1], env), env.get('#', ()))
            return acst(int(z)) if z is not None else {('c', d.name): 1}
        return {('x', d.name or '?'): 1}
    def mod(s, a, k, o):
        if all(c % k == 0 for t, c in a.items() if t != ()): return acst(a.get((), 0) % k)
        return {('o', 'mod', akey(a), k): 1}
    def sign(s, a):
        """('+', '-', '0', '>=', '<=' or None) from the lower bounds of the symbols"""
        c = acv(a)
        if c is not None: return '+' if c > 0 else '-' if c < 0 else '0'
        for k, (st, we) in ((1, ('+', '>=')), (-1, ('-', '<='))):
            m = 0
            for t, v in a.items():
                v *= k
                if t == (): m += v
                elif v > 0 and t in s.low: m += v * s.low[t]
                else: break
            else:
                if m > 0: return st
                if m == 0: return we
        return None
    def cmp(s, pr, a, b, known=()):
        D = aadd(a, b, -1); c = acv(D)
        z = s.cmp0(pr, D, c)
        if z is None:
            for q, x, y in known:
                if q == '?': continue
                K = aadd(x, y, -1); q = q.lstrip('us') if q not in ('eq', 'ne') else q
                if akey(K) != akey(D):
                    K = amul(K, -1); q = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(q, q)
                    if akey(K) != akey(D): continue
                w = pr.lstrip('us') if pr not in ('eq', 'ne') else pr
                yes = {v for v in (-1, 0, 1) if HOLD[q](v)}; want = {v for v in (-1, 0, 1) if HOLD[w](v)}
                if yes <= want: return True
                if not yes & want: return False
        return z
    def cmp0(s, pr, D, c):
        if c is None:
            if pr in ('eq', 'ne'):
                if any(t[0] == 'c' for t in D if t): return None
                cs = [v for t, v in D.items() if t != ()]
                from math import gcd
                g = 0
                for v in cs: g = gcd(g, v)
                if g > 1 and D.get((), 0) % g: return pr == 'ne'
        sg = s.sign(D)
        if sg is None: return None
        eq = {'+': False, '-': False, '0': True}.get(sg)
        lt = {'-': True, '+': False, '0': False, '>=': False}.get(sg)
        le = {'-': True, '0': True, '+': False, '<=': True}.get(sg)
        p = pr[1:] if pr[0] in 'us' and pr not in ('eq', 'ne') else pr
        if p == 'eq': return eq
        if p == 'ne': return None if eq is None else not eq
        if p == 'lt': return lt
        if p == 'ge': return None if lt is None else not lt
        if p == 'le': return le
        if p == 'gt': return None if le is None else not le
    # ---------------------------------------------------------------- paths
    def run(s, b, prev, env, stop):
        """outcomes of going on at a block until a header in 'stop', or the end"""
        outs = []; st = [(b, prev, env, Out(), True)]; s.stop = stop
        while st:
            b, prev, env, o, fresh = st.pop()
            if len(outs) + len(st) > s.limit: raise TooMany()
            if fresh is False:
                if b in stop:
                    ph = {d.name: s.arrive(d, prev, env) for d in b.insts if d.op == 'phi'}
                    pn = [n for v in ph.values() for n in pending(v) if s.root(s.f.defs[n].ops[0], env)]
                    if pn:
                        for e, q in s.both(s.root(s.f.defs[pn[0]].ops[0], env), env, o): st.append((b, prev, e, q, False))
                        continue
                    o.end = b; o.phis = ph; outs.append(o); continue
                L = s.heads.get(b)
                if L is not None:       # a loop inside: its results are unknown
                    env = dict(env)
                    for x in L.body:
                        for i in x.insts:
                            if i.name: env[i.name] = {('x', i.name): 1}
                            if s.event(i): o.blur = True
                    ex = L.exits()
                    for q, x in dict.fromkeys(ex): st.append((x, q, dict(env), o.copy(), False))
                    if not ex: pass
                    continue
            env = dict(env)
            new = {d.name: s.arrive(d, prev, env) for d in b.insts if d.op == 'phi'} if prev is not None else {}
            env.update(new)
            forked = s.block(b, env, o, st)
            if forked: continue
            t = b.term
            if t.op == 'ret': o.end = None; outs.append(o); continue
            if t.op == 'br':
                if len(b.succs) == 1 or not t.ops: st.append((b.succs[0], b, env, o, False)); continue
                c = acv(s.val(t.ops[0], env))
                if c is not None: st.append((s.f.bb[t.extra[0 if c else 1]], b, env, o, False)); continue
                J = s.skip(b, t.ops[0], env)
                if J is not None: s.joined.setdefault(J, set()).add(b); st.append((J, b, s.blank(b, J, env), o, False)); continue
                s.fork(b, t.ops[0], env, o, st); continue
            if t.op == 'switch':
                v = acv(s.val(t.ops[0], env))
                if v is not None: st.append((s.f.bb[next((l for k, l in t.extra[1] if k == v), t.extra[0])], b, env, o, False))
                else:
                    for x in dict.fromkeys(b.succs): q = o.copy(); st.append((x, b, dict(env), q, False))
                continue
        return outs
    def skip(s, b, v, env):
        """where the ways of a branch meet again, if the branch has nothing to do with the counters and nothing happens in between"""
        w = [v]; seen = set()
        while w:
            x = w.pop()
            if x in seen or not isinstance(x, str): continue
            seen.add(x); d = s.f.defs.get(x)
            if d is None: continue
            if d.op == 'icmp':
                if any(s.keen(t) for y in d.ops for t in s.val(y, env)): return None
            elif d.op in ('and', 'or', 'xor', 'zext', 'trunc', 'freeze', 'select', 'phi'): w += d.ops
            elif any(s.keen(t) for t in s.val(x, env)): return None
        J = s.f.pdom()[0].get(b)
        if J is None or not hasattr(J, 'insts'): return None
        for x in s.between(b, J):
            if x in s.stop or any(s.event(i) for i in x.insts): return None
        return J
    def keensel(s, n):
        d = s.f.defs[n]; w = [d.ops[0]]; seen = set()
        while w:
            x = w.pop()
            if x in seen or not isinstance(x, str): continue
            seen.add(x); d = s.f.defs.get(x)
            if d is not None and d.op == 'icmp': return True
            if d is not None: w += d.ops
        return False
    def keen(s, t): return t != () and (isinstance(t, str) or t in s.ids or t[0] == 'sel' and s.keensel(t[1]))
    def between(s, b, J):
        seen = set(); st = [x for x in b.succs]
        while st:
            x = st.pop()
            if x is J or x in seen: continue
            seen.add(x); st += x.succs
        return seen
    def blank(s, b, J, env):
        env = dict(env)
        for x in s.between(b, J):
            for i in x.insts:
                if i.name: env[i.name] = {('x', i.name): 1}
        return env
    def arrive(s, d, prev, env):
        if prev not in d.bb.preds or prev in s.joined.get(d.bb, ()): 
            vs = {akey(s.val(v, env)): s.val(v, env) for v in d.ops}
            return next(iter(vs.values())) if len(vs) == 1 else {('x', d.name): 1}
        v = next((v for v, l in zip(d.ops, d.extra) if (s.f.bb[l] if isinstance(l, str) else l) is prev), None)
        return s.val(v, env) if v is not None else {('x', d.name): 1}
    def event(s, i):
        if i.op == 'store': return False
        return i.op == 'call' and plain(cname(s.f.mod, i) or '') in EV
    def block(s, b, env, o, st):
        """events of a block; a choice their values depend on is settled by following both ways"""
        ev = []
        for i in b.insts:
            if i.op == 'call':
                n = plain(cname(s.f.mod, i) or '')
                if n in EV:
                    vals = [s.val(v, env) for v in i.ops]; ev.append((n, vals, i))
                    if s.split(b, [vals[k] for k in (1, 3, 4) if k < len(vals)], env, o, st): return True
            elif i.op == 'store' and i.ty in ('i32', 'i64'):
                v = s.val(i.ops[0], env); ev.append(('store', [s.P.n(i.ops[1]), v], i))
                if s.split(b, [v], env, o, st): return True
        o.events += ev
        return False
    def split(s, b, vals, env, o, st):
        for v in vals:
            for n in pending(v):
                d = s.f.defs[n]; r = s.root(d.ops[0], env)
                if r is None: continue
                for e, q in s.both(r, env, o): st.append((b, None, e, q, None))
                return True
        return False
    def both(s, r, env, o):
        out = []; d = s.f.defs.get(r)
        for tr in (1, 0):
            e = {k: x for k, x in env.items() if k == '#' or s.f.defs.get(k) is not None and s.f.defs[k].op == 'phi' or not s.stale(x, r)}
            q = o.copy()
            if d is not None: s.note(r, tr, env, q); e['#'] = tuple(q.assume)
            e[r] = acst(tr); out.append((e, q))
        return out
    def root(s, v, env):
        """the comparison an undecided truth value hangs on"""
        seen = set(); w = [v]
        while w:
            v = w.pop()
            if v in seen or not isinstance(v, str): continue
            seen.add(v); d = s.f.defs.get(v)
            if d is None: continue
            if d.op == 'icmp' and acv(s.val(v, env)) is None:
                for x in d.ops:
                    for n in pending(s.val(x, env)):
                        q = s.root(s.f.defs[n].ops[0], env)
                        if q is not None: return q
                return v
            if d.op in ('and', 'or', 'xor', 'zext', 'trunc', 'freeze', 'select'): w += d.ops
            elif d.op == 'phi': return v if acv(s.val(v, env)) is None else None
        return None
    def stale(s, val, name):
        """values that were computed without knowing this one"""
        return any(t and t[0] in ('c', 'sel', 'o') or t == ('x', name) for t in val)
    def note(s, name, tr, env, o):
        d = s.f.defs[name]
        if d.op == 'icmp': o.assume.append((d.extra if tr else INV[d.extra], s.val(d.ops[0], env), s.val(d.ops[1], env)))
        else: o.assume.append(('?', {('x', name): 1}, acst(tr)))
    def fork(s, b, v, env, o, st):
        r = s.root(v, env) or v
        for e, q in s.both(r, env, o):
            c = acv(s.val(v, e))
            if c is None:
                if r != v: s.fork(b, v, e, q, st)
                continue
            st.append((s.f.bb[b.term.extra[0 if c else 1]], b, e, q, False))
def pending(v):
    """undecided choices inside a value"""
    out = []
    def at(a):
        if isinstance(a, tuple):
            if len(a) == 2 and a[0] == 'sel': out.append(a[1])
            else:
                for x in a: at(x)
    for t in v: at(t)
    return out
HOLD = {'eq': lambda v: v == 0, 'ne': lambda v: v != 0, 'lt': lambda v: v < 0, 'le': lambda v: v <= 0, 'gt': lambda v: v > 0, 'ge': lambda v: v >= 0}
EV = set(POST) | {'MPI_Waitall', 'MPI_Wait', 'MPI_Send', 'MPI_Recv'}
