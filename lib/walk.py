"""abstract execution of one round of a loop (or of a routine) over polynomials, with a record of what each path asks,
copies, calls and stores. Inner loops are summarised: their counters are unknown afterwards, what they store is forgotten."""
from an import *

SWAP = {'ugt': 'ult', 'ule': 'uge', 'sgt': 'slt', 'sle': 'sge'}
class Path:
    def __init__(s): s.env, s.mem, s.facts, s.ev, s.zero = {}, {}, {}, [], []
    def copy(s):
        o = Path(); o.env, o.mem, o.facts, o.ev, o.zero = dict(s.env), dict(s.mem), dict(s.facts), list(s.ev), list(s.zero); return o
class Blowup(Exception): pass

class Walk(LP):
    def inst(s, d): return PN.inst(s, d)
    def __init__(s, f, noret, limit=4000):
        super().__init__(f); s.noret, s.limit = noret, limit; s.heads = {L.head: L for L in f.loops()}; s.path = None
    # values on the current path
    def n(s, v):
        if isinstance(v, str) and v and v[0] == '%' and s.path is not None and v in s.path.env: return s.path.env[v]
        return super().n(v)
    def value(s, path, v): s.path = path; return s.n(v)
    # ---- conditions: (canonical key, polarity)
    def cond(s, d):
        a, b = s.n(d.ops[0]), s.n(d.ops[1]); pr = d.extra
        if pr in SWAP: a, b, pr = b, a, SWAP[pr]
        pol = True
        if pr == 'ne': pr, pol = 'eq', False
        if pr == 'uge': pr, pol = 'ult', False
        if pr == 'sge': pr, pol = 'slt', False
        D = s.add(a, b, -1)
        if pr == 'eq':
            if not D: return True == pol, None
            if set(D) == {()}: return False == pol, None
            if sorted(D.items(), key=repr)[0][1] < 0: D = {m: -c for m, c in D.items()}
            return None, (('eq', s.k(D)), pol)
        if not D: return False == pol, None
        if set(a) <= {()} and set(b) <= {()}:
            x, y = a.get((), 0), b.get((), 0)
            if pr == 'slt' or x >= 0 and y >= 0: return (x < y) == pol, None
        if pr == 'ult' and not b: return False == pol, None
        return None, ((pr, s.k(a), s.k(b)), pol)
    def fcond(s, d):
        a, b, pr = s.k(s.n(d.ops[0])), s.k(s.n(d.ops[1])), d.extra
        pr = pr if isinstance(pr, str) else None
        if pr is None: return None
        pr = pr.split()[-1]
        t = {'olt': ('flt', a, b, True), 'ogt': ('flt', b, a, True), 'ole': ('fle', a, b, True), 'oge': ('fle', b, a, True),
             'uge': ('flt', a, b, False), 'ule': ('flt', b, a, False), 'ugt': ('fle', a, b, False), 'ult': ('fle', b, a, False)}.get(pr)
        return ((t[0], t[1], t[2]), t[3]) if t else None
    def truth(s, path, v):
        """True, False, or the instruction whose outcome has to be chosen"""
        if v in (True, 'true', 1): return True
        if v in (False, 'false', 0): return False
        d = s.f.defs.get(v)
        if d is None: return v
        if v in path.env and path.env[v] in ({}, {(): 1}): return bool(path.env[v])
        if ('b', v) in path.facts: return path.facts['b', v]
        if d.op == 'icmp':
            s.path = path; k, c = s.cond(d)
            if k is not None: return k
            if c[0] in path.facts: return path.facts[c[0]] == c[1]
            return ('c', c)
        if d.op == 'fcmp':
            s.path = path; c = s.fcond(d)
            if c is not None:
                if c[0] in path.facts: return path.facts[c[0]] == c[1]
                return ('c', c)
        if d.op == 'select':                       # choices between truths
            a = s.truth(path, d.ops[0])
            return s.truth(path, d.ops[1] if a else d.ops[2]) if isinstance(a, bool) else a
        if d.op in ('and', 'or'):
            a = s.truth(path, d.ops[0]); z = d.op == 'or'
            if a is z: return z
            b = s.truth(path, d.ops[1])
            if b is z: return z
            if a is (not z): return b
            return a if not isinstance(a, bool) else b
        if d.op == 'xor':
            a, b = s.truth(path, d.ops[0]), s.truth(path, d.ops[1])
            if isinstance(a, bool) and isinstance(b, bool): return a != b
            return a if not isinstance(a, bool) else b
        return ('v', v)
    def choose(s, path, t):
        out = []
        for val in (True, False):
            q = path.copy()
            if isinstance(t, tuple) and t[0] == 'c':
                key, pol = t[1]; q.facts[key] = pol == val
                if key[0] == 'eq' and (pol == val) is False: pass
                q.ev.append(('if', key, pol == val))
            else:
                nm = t[1] if isinstance(t, tuple) else t; q.facts['b', nm] = val
            if s.consistent(q): out.append(q)
        return out
    def consistent(s, q): return True
    def local(s, a): return len(a) == 1 and len(next(iter(a))) == 1 and next(iter(a))[0][0] == 'al'
    def effect(s, p, nm, args, i): pass
    # ---- running
    def run(s, b, env, stop=None, within=None, path=None):
        """outcomes: (path, end block, {phi: value on the way in})"""
        s.count = 0; out = []
        p = path.copy() if path else Path(); p.env.update(env)
        work = [(p, b, 0, True)]; s.stop, s.within = stop, within
        while work:
            s.count += 1
            if s.count > s.limit: raise Blowup(s.f.name)
            p, b, k, fresh = work.pop()
            r = s.block(p, b, k)
            for kind, q, x in r:
                if kind == 'again': work.append((q, x[0], x[1], False)); continue
                if kind == 'ret': out.append((q, None, x)); continue
                prev, y = x
                phis = {}
                s.path = q
                for i in y.insts:
                    if i.op != 'phi': break
                    for v, l in zip(i.ops, i.extra):
                        if (s.f.bb[l] if isinstance(l, str) else l) is prev: phis[i.name] = ({(): 1} if v == 'true' else {} if v == 'false' else s.n(v))
                if y is stop: out.append((q, y, phis)); continue
                if within is not None and y not in within: out.append((q, y, phis)); continue
                L = s.heads.get(y)
                if L is not None and prev not in L.body:
                    q.ev.append(('loop', L, dict(phis), q.copy()))
                    for i in y.insts:
                        if i.op == 'phi': phis[i.name] = s.atom(('x', i.name))
                    for z in L.body:
                        for i in z.insts:
                            if i.op == 'store':
                                a = s.k(s.n(i.ops[1])); q.mem[a] = s.atom(('h', L.head.name, a))
                            if i.op == 'call' and (cname(s.m, i) or '') .startswith('MPI'): pass
                elif L is not None: continue            # back to the head of an inner loop: its exits were followed from the first arrival
                for nm, v in phis.items(): q.env[nm] = v
                work.append((q, y, 0, True))
        return out
    def block(s, p, b, k):
        for n, i in enumerate(b.insts):
            if n < k or i.op == 'phi': continue
            s.path = p
            if i.op in ('zext', 'sext') and s.f.defs.get(i.ops[0]) is not None and s.ty(i.ops[0]) == 'i1' or i.op == 'select':
                t = s.truth(p, i.ops[0])
                if not isinstance(t, bool): return [('again', q, (b, n)) for q in s.choose(p, t)]
                p.env[i.name] = s.n(i.ops[1] if t else i.ops[2]) if i.op == 'select' else {(): 1 if i.op == 'zext' else -1} if t else {}
                continue
            if i.op == 'load': p.env[i.name] = s.load(p, i); continue
            if i.op == 'store':
                a = s.n(i.ops[1]); v = s.n(i.ops[0]); p.mem[s.k(a)] = v; p.ev.append(('store', a, v, i)); continue
            if i.op == 'call':
                c = cname(s.m, i)
                if isinstance(i.extra, str) and i.extra in s.noret or c in ('exit', 'abort', 'MPI_Abort'): return []
                if c and c.startswith('llvm.dbg') or c and c.startswith('llvm.lifetime'): continue
                args = [s.n(x) for x in i.ops]
                nm = c or '*'
                for w in ('memcpy', 'memmove', 'memset'):
                    if nm.startswith('llvm.' + w): nm = w
                p.ev.append(('call', nm, args, i, p.mem.get(s.k(args[1])) if nm in ('memcpy', 'memmove') else None))
                if nm in ('memcpy', 'memmove') and s.local(args[0]): p.mem[s.k(args[0])] = p.mem.get(s.k(args[1]), s.atom(('ld', s.k(args[1]))))
                s.effect(p, nm, args, i)
                if i.name: p.env[i.name] = s.atom(('call', nm, i.name))
                if nm == 'memset' and args[1] == {}: p.zero.append((args[0], args[2]))
                if nm in ('MPI_Irecv', 'MPI_Recv'): p.mem[s.k(args[0])] = s.atom(('rcv', s.k(args[0])))
                continue
            if i.op == 'ret': return [('ret', p, s.n(i.ops[0]) if i.ops else None)]
            if i.op == 'unreachable': return []
            if i.op == 'br':
                if not i.ops: return [('go', p, (b, b.succs[0]))]
                t = s.truth(p, i.ops[0])
                if isinstance(t, bool): return [('go', p, (b, s.f.bb[i.extra[0 if t else 1]]))]
                return [('again', q, (b, n)) for q in s.choose(p, t)]
            if i.op == 'switch':
                v = s.n(i.ops[0]); out = []; no = []
                def key(c):
                    D = s.add(v, s.const(c), -1)
                    if D and sorted(D.items(), key=repr)[0][1] < 0: D = {m: -z for m, z in D.items()}
                    return D, ('eq', s.k(D))
                for cvl, lab in list(i.extra[1]) + [(None, i.extra[0])]:
                    q = p.copy(); good = True
                    for c in [cvl] if cvl is not None else [c for c, l in i.extra[1]]:
                        D, kk = key(c); want = cvl is not None
                        if set(D) <= {()}: good = good and (not D) == want; continue
                        if kk in q.facts: good = good and q.facts[kk] == want; continue
                        q.facts[kk] = want; q.ev.append(('if', kk, want))
                    if good and s.consistent(q): out.append(('go', q, (b, s.f.bb[lab])))
                return out
            if i.name and i.op not in ('icmp', 'fcmp') and s.ty(i.name) != 'i1':
                s.memo.pop(i.name, None); p.env.pop(i.name, None); p.env[i.name] = s.inst(i)
        return []
    def ty(s, v):
        d = s.f.defs.get(v); return 'i1' if d is not None and d.op in ('icmp', 'fcmp') else d.ty if d is not None else None
    def load(s, p, i):
        a = s.n(i.ops[0]); k = s.k(a)
        if k in p.mem: return p.mem[k]
        for base, ln in p.zero:
            D = s.add(a, base, -1)
            if set(D) <= {()} and set(ln) <= {()} and 0 <= D.get((), 0) < ln.get((), 0): return {}
        return s.atom(('ld', k))
    def sub(s, p, env):
        """a polynomial with loop variables replaced"""
        return s.subst(p, lambda a: env.get(a[1]) if a[0] == 'x' and a[1] in env else None)
    def exact(s, p, w):
        """q with w*q == p, through exact divisions"""
        if not all(c % w == 0 for c in p.values()): return None
        return {m: c // w for m, c in p.items()}
    def undiv(s, p):
        """4 * (x /exact 4) is x"""
        r = {}                                              # differences of pointers to words
        for m, c in p.items():
            hit = None
            for a in m:
                if a[0] in ('sdiv', 'ashr') and isinstance(a[2], tuple):
                    w = dict(a[2]).get((), 0) if set(dict(a[2])) <= {()} else 0
                    w = 1 << w if a[0] == 'ashr' else w
                    if w and c % w == 0: hit = (a, w); break
            if hit:
                q = s.const(c // hit[1])
                for a in m:
                    q = s.mul(q, dict(hit[0][1]) if a is hit[0] else s.atom(a))
                r = s.add(r, s.undiv(q) if q != {m: c} else q)
            else: r = s.add(r, {m: c})
        return r
