"""P16: Fortran handles and parameters are validated before use"""
import an, build, ir, p06
from an import *

EXPLANATION = ('LLVM IR of every library unit, all configurations, helpers placed into their callers; branch facts (a forward must-analysis that drops paths ending in the failure routine) decide what is known at each use. '
  'R1 handle-bounds: an entry of a registry of objects selected by a number from the caller is addressed only where 0 <= number < number of objects is known. '
  'R2 handle-live: an entry, or what it points to, is used only where it is known not to be released. '
  'R3 code-range: data-type and operation codes from the caller reach tables and operations only where they are known to lie in 1-3 and 1-4. '
  'R4 register: set-up stores the new object in the entry whose number it returns, increases the count by one, and has room: when the table is full it is enlarged first. '
  'R5 release: a release routine clears the entry of its handle on every path that returns. '
  'R6 wait: an outstanding operation is completed only for a number that is in range and outstanding.')

def registries(m):
    """pointer variables that hold tables of objects: {global: (entry size)}"""
    out = {}
    for g in m.globals.values():
        if g['ty'] != 'ptr' or g['kind'] == 'constant': continue
        if not ('internal' in g['linkage']): continue
        out[g['name']] = 1
    return out

def base(v):
    """strip casts"""
    return v

def entry(e):
    """(registry, index expression, entry address) if the expression is an address inside an entry of a registry"""
    path = []
    while isinstance(e, tuple) and e[0] == 'at':
        if e[2][0] == 'i' and e[1][0] == 'ld' and e[1][1][0] == 'g': return e[1][1][1], e[2][2], e
        path.append(e[2]); e = e[1]
    if isinstance(e, tuple) and e[0] == 'ld' and e[1][0] == 'g': return e[1][1], ('c', 0), e
    return None

def check(r):
    parallel(part, build.ALL, r)
    r.need('handle-bounds', 80); r.need('handle-live', 80); r.need('code-range', 24); r.need('register', 12); r.need('release', 12); r.need('wait', 3)
    r.assume += ['a handle variable is not changed by another thread or alias while a routine runs']

def part(r, cfg):
    m = norm(cfg)
    regs = registries(m)
    noret = noret_funcs(m)
    M = Users(m)
    for f in m.funcs.values():
        n = src(f)
        if n.startswith('f:'): routine(r, m, f, regs, noret)
        elif n == 'gs_wait': routine(r, m, f, regs, noret)
        if not f.internal: register(r, m, f, regs, noret)

class Users:
    def __init__(s, m): pass

def handle_param(e, f):
    """the number comes from the caller: a parameter, or what one points to"""
    return e[0] == 'p' or e[0] == 'ld' and e[1][0] == 'p'

def assume(f, x, env, noret):
    k = repr(sorted(env.items(), key=repr)); c = f.__dict__.setdefault('_assume', {})
    if k not in c: c[k] = Assume(f, x, env, noret)
    return c[k]

def bounds(m, f, x, F, i, idx, noret):
    """(0 or None, upper bound known): by the facts on the way, else by following each case that must not get here"""
    lo = F.lower(i.bb, idx); up = upper_is_count(F, i.bb, idx, m)
    if (lo is None or lo < 0) and not any(assume(f, x, {idx: v, **{c: n for c in counts(m, f, x)}}, noret).runs(i.bb) for v in (-1, -2, -2 ** 31) for n in (0, 1, 5)): lo = 0
    if not up and counts(m, f, x) and not any(assume(f, x, {idx: v, **{c: n for c in counts(m, f, x)}}, noret).runs(i.bb) for n in (0, 1, 5) for v in (n, n + 1, 2 ** 31 - 1)): up = True
    return lo, up

def counts(m, f, x):
    if not hasattr(f, '_counts'): f._counts = sorted({e for i in f.insts() if i.op == 'load' for e in [('ld', x.e(i.ops[0]))] if e[1][0] == 'g' and is_count(m, e[1][1])}, key=repr)
    return f._counts

def fields(f, x, q):
    """pointers held in the entry"""
    return {e for i in f.insts() if i.op == 'load' and i.ty == 'ptr' for e in [('ld', x.e(i.ops[0]))] if (entry(e[1]) or (0, 0))[:2] == q[:2]}

def code(f, x, F, b, v, n, noret):
    """range of codes with which b can run, None if it cannot be bounded"""
    lo, up = F.lower(b, v), F.upper(b, v)
    if lo is not None and lo >= 1 and up is not None and up <= n: return lo, up
    bad = [k for k in (-2 ** 31, -1, 0, n + 1, n + 2, 2 ** 31 - 1) if assume(f, x, {v: k}, noret).runs(b)]
    return (1, n) if not bad else (min(bad), max(bad))

def fresh(m, f, x, i, idx):
    """the number was produced just before by a routine that received the variable to store it in"""
    if idx[0] != 'ld': return False
    for c in f.insts():
        if c.op == 'call' and cname(m, c) in ('igs', 'igs_vec', 'igs_many') and any(isinstance(a, str) and x.e(a) == idx[1] for a in c.ops) and f.idominates(c, i): return True
    return False

def routine(r, m, f, regs, noret):
    n = src(f); x = Ex(f); F = Facts(f, noret)
    free = n.endswith('_free')
    cleared = []; handles = set()
    rule = 'wait' if n == 'gs_wait' else None
    for i in f.insts():
        if F.unreachable(i.bb): continue
        if i.op in ('load', 'store'):
            a = i.ops[0] if i.op == 'load' else i.ops[1]
            q = entry(x.e(a)) if isinstance(a, str) else None
            if q and q[0] in regs:
                g, idx, ent = q
                if handle_param(idx, f) and not fresh(m, f, x, i, idx):
                    handles.add(idx)
                    lo, up = bounds(m, f, x, F, i, idx, noret)
                    k = f'{n}:{"lower" if lo is None or lo < 0 else "upper"}'
                    if lo is None or lo < 0: r.bad(rule or 'handle-bounds', k, i.where, f'{n} addresses an object by a number that may be negative')
                    elif not up: r.bad(rule or 'handle-bounds', k, i.where, f'{n} addresses an object by a number that may not be below the number of objects')
                    else: r.ok(rule or 'handle-bounds')
                    if i.op == 'store':
                        if null(i.ops[0]): cleared.append((i, idx, ent))
        # uses of what an entry holds
    ents = {}
    for i in f.insts():
        if F.unreachable(i.bb): continue
        for v in i.ops if i.op != 'phi' else []:
            if not isinstance(v, str): continue
            e = x.e(v)
            if i.op in ('icmp', 'br', 'switch') or i.op == 'load' and False: continue
            if i.op == 'getelementptr' and i.ops[0] != v: continue
            # v is (a pointer loaded from) an entry: e = ld(entry address)
            if e[0] == 'ld' and e[1][0] == 'at':
                q = entry(e[1])
                if q and q[0] in regs and handle_param(q[1], f) and not fresh(m, f, x, i, q[1]) and f.defs.get(v) is not None and f.defs[v].ty == 'ptr':
                    live = any(p == 'ne' and a == e and c == ('c', 0) for p, a, c in F.at(i.bb))
                    live = live or not assume(f, x, {e: 0}, noret).runs(i.bb)
                    if not live: r.bad(rule or 'handle-live', f'{n}', i.where, f'{n} uses an object without knowing that it has not been released')
                    else: r.ok(rule or 'handle-live')
        # fields of an entry other than the one compared (an entry that is itself a structure)
        if i.op == 'load' and i.ty != 'ptr':
            q = entry(x.e(i.ops[0]))
            if q and q[0] in regs and handle_param(q[1], f) and not fresh(m, f, x, i, q[1]):
                live = any(p == 'ne' and c == ('c', 0) and a[0] == 'ld' and (entry(a[1]) or (0, 0))[:2] == q[:2] for p, a, c in F.at(i.bb))
                live = live or any(not assume(f, x, {z: 0}, noret).runs(i.bb) for z in fields(f, x, q))
                if not live: r.bad(rule or 'handle-live', f'{n}', i.where, f'{n} reads an object without knowing that it has not been released')
                else: r.ok(rule or 'handle-live')
    # codes
    if n.startswith('f:'): codes(r, m, f, x, F, noret)
    if free and handles or n == 'gs_wait' and handles:
        # every way to return, except those on which the number is refused, passes a clearing store
        ok = released(f, F, cleared, x, m)
        if cleared and ok: r.ok(rule or 'release')
        else: r.bad(rule or 'release', f'{n}:clear', f.blocks[0].insts[0].where, f'{n} may return without marking the object released')

def null(v): return v in ('null', 0)

def released(f, F, cleared, x, m):
    """all live returning paths on which the entry was used pass a clearing store"""
    blk = {c[0].bb for c in cleared}
    used = set()
    for i in f.insts():
        if i.op == 'call' and isinstance(i.extra, str) and i.extra[1:] == 'free' or i.op == 'call' and str(i.extra) in m.funcs and src(m.funcs[i.extra]).find('free') >= 0: used.add(i.bb)
    if not used: return bool(blk)
    for b in used:
        if F.unreachable(b) or b in F.dead: continue
        # forward from b to return avoiding blk, or clearing store dominating b
        if b in blk: continue
        if any(f.dominates(c, b) for c in blk): continue
        # releases of the table itself (no entry) are not releases of an object
        seen = set(); wl = list(b.succs); esc = b.term.op == 'ret'
        while wl:
            y = wl.pop()
            if y in seen or y in blk or y in F.dead: continue
            seen.add(y)
            if y.term.op == 'ret': esc = True
            wl += y.succs
        if esc:
            # the registry itself being released after the last operation
            calls = [i for i in b.insts if i.op == 'call' and str(i.extra) == '@free']
            if calls and all(x.e(i.ops[0])[0] == 'ld' and x.e(i.ops[0])[1][0] == 'g' for i in calls): continue
            return False
    return True

def upper_is_count(F, b, idx, m):
    """idx < number of registered objects (a counter variable)"""
    for p, a, c in F.at(b):
        if a == idx and p in ('slt', 'ult') and c[0] == 'ld' and c[1][0] == 'g' and is_count(m, c[1][1]): return True
    return False

_cnt = {}
def is_count(m, g):
    """a counter: only ever set to zero or increased by one where an object is stored"""
    if (id(m), g) in _cnt: return _cnt[id(m), g]
    ok = False
    for f in m.funcs.values():
        x = None
        for i in f.insts():
            if i.op == 'store' and i.ops[1] == g:
                x = x or Ex(f)
                e = x.e(i.ops[0])
                if e == ('c', 0): continue
                if e[0] == 'op' and e[1] == 'add' and ('c', 1) in e[2:] and ('ld', ('g', g)) in e[2:]:
                    # the object is stored at the old count
                    if any(j.op == 'store' and isinstance(j.ops[1], str) and (entry(x.e(j.ops[1])) or (0, 0))[1] == ('ld', ('g', g)) for j in f.insts()): ok = True
                    continue
                ok = False; break
        else: continue
        break
    _cnt[id(m), g] = ok
    return ok

def codes(r, m, f, x, F, noret):
    n = src(f)
    kinds = set()                        # expressions that select a data type
    for i in f.insts():
        t = cname(m, i) if i.op == 'call' else None
        if t in p06.PAR: kinds |= set(walk(x.e(i.ops[p06.PAR[t][0]])))
        if i.op == 'load': 
            e = x.e(i.ops[0])
            if e[0] == 'at' and e[1][0] == 'g' and e[2][0] == 'i': kinds |= set(walk(e[2][2]))
    for i in f.insts():
        if F.unreachable(i.bb): continue
        if i.op == 'load':
            e = x.e(i.ops[0])
            if ('ld', e) not in kinds: continue
            if e[0] == 'at' and e[1][0] == 'g' and m.globals.get(e[1][1], {}).get('kind') == 'constant' and e[2][0] == 'i':
                idx = e[2][2]
                if not handle_param(idx, f): continue
                lo, up = code(f, x, F, i.bb, idx, 3, noret)
                if lo is None or lo < 1 or up is None or up > 3: r.bad('code-range', f'{n}:type', i.where, f'{n} uses a data-type code that may lie outside 1-3 (known: {lo}..{up})')
                else: r.ok('code-range')
        if i.op == 'call':
            t = cname(m, i)
            if t in p06.PAR:
                v = x.e(i.ops[p06.PAR[t][0]])
                if v[0] != 'ld' or v[1][0] == 'p':
                    for z in walk(v):
                        if z[0] == 'ld' and z[1][0] == 'p':
                            lo, up = code(f, x, F, i.bb, z, 3, noret)
                            if lo is None or lo < 1 or up is None or up > 3: r.bad('code-range', f'{n}:type', i.where, f'{n} uses a data-type code that may lie outside 1-3 (known: {lo}..{up})')
                            else: r.ok('code-range')
                v = x.e(i.ops[p06.PAR[t][1]])
                ld = [z for z in walk(v) if z[0] == 'ld' and z[1][0] == 'p']
                if not ld: continue
                lo, up = code(f, x, F, i.bb, ld[0], 4, noret)
                if lo is None or lo < 1 or up is None or up > 4: r.bad('code-range', f'{n}:operation', i.where, f'{n} uses an operation code that may lie outside 1-4 (known: {lo}..{up})')
                else: r.ok('code-range')

def register(r, m, f, regs, noret):
    """set-up: the new object goes to A[n], n becomes the handle, the table has room"""
    n = src(f); x = Ex(f); F = Facts(f, noret)
    new = []
    for i in f.insts():
        if i.op == 'store' and isinstance(i.ops[1], str) and not F.unreachable(i.bb):
            q = entry(x.e(i.ops[1]))
            if q and q[0] in regs and q[1][0] == 'ld' and q[1][1][0] == 'g': new.append((i, q))
    if not new: return
    cnts = {q[1][1][1] for _, q in new}
    tabs = {q[0] for _, q in new}
    for g in cnts:
        st = [i for i in f.insts() if i.op == 'store' and i.ops[1] == g and not F.unreachable(i.bb)]
        inc = [i for i in st if x.e(i.ops[0]) == fold('add', ('c', 1), ('ld', ('g', g)))]
        if len(inc) != 1 or len(st) != 1: r.bad('register', f'{n}:count', f.blocks[0].insts[0].where, f'{n} does not increase the number of objects by exactly one'); continue
        r.ok('register'); inc = inc[0]
        # on every returning path
        if not all(f.dominates(inc.bb, b) for b in f.blocks if b.term.op == 'ret'): r.bad('register', f'{n}:count-path', inc.where, f'{n} does not count the object on every path')
        else: r.ok('register')
        # the handle returned is the number before the increase
        hs = [i for i in f.insts() if i.op == 'store' and x.e(i.ops[1])[0] == 'p' and x.e(i.ops[0])[0] == 'ld' and x.e(i.ops[0]) == ('ld', ('g', g))]
        hb = [i for i in f.insts() if i.op == 'store' and x.e(i.ops[1])[0] == 'p' and x.e(i.ops[0]) != ('ld', ('g', g)) and i.ty == 'i32']
        good = False
        for h in hs:
            d = f.defs.get(strip(f, h.ops[0]))
            if d is not None and d.op == 'load' and (f.idominates(d, inc)) and all(f.dominates(h.bb, b) for b in f.blocks if b.term.op == 'ret'): good = True
        if not good: r.bad('register', f'{n}:handle', inc.where, f'{n} does not return the number under which the object was stored')
        else: r.ok('register')
        # the object is stored before the increase, on every path
        obj = {i.bb for i, q in new if q[1] == ('ld', ('g', g)) and f.defs.get(i.ops[0]) is not None and f.defs[i.ops[0]].ty == 'ptr'}
        if inc.bb not in obj and follows(None, inc.bb, obj | F.dead, f.blocks[0]): r.bad('register', f'{n}:stored', inc.where, f'{n} may count an object without storing it')
        else: r.ok('register')
        for i, q in new:
            if q[1] != ('ld', ('g', g)): continue
            addr = f.defs.get(i.ops[1])
            if i.bb is inc.bb and i.bb.insts.index(i) > inc.bb.insts.index(inc) or i.bb is not inc.bb and follows(inc.bb, i.bb): r.bad('register', f'{n}:order', i.where, f'{n} stores the object after the count was increased')
            else: r.ok('register')
            room(r, m, f, x, F, n, i, q[0], g, q[2][2][1])

def follows(a, b, avoid=(), start=None):
    """b can be reached after a (or from start), not passing avoid"""
    wl = [start] if start is not None else list(a.succs); seen = set()
    while wl:
        y = wl.pop()
        if y in seen or y in avoid: continue
        if y is b: return True
        seen.add(y); wl += y.succs
    return False

def room(r, m, f, x, F, n, st, tab, cnt, esz):
    """before the first store to tab[cnt]: either cnt != max, or tab was enlarged"""
    if getattr(f, '_room', None) is None: f._room = set()
    if (tab, cnt) in f._room: return
    f._room.add((tab, cnt))
    grow = [i for i in f.insts() if i.op == 'store' and i.ops[1] == tab and not F.unreachable(i.bb) and isinstance(i.ops[0], str)]
    grow = [i for i in grow if any(c.op == 'call' and cname(m, c) in ('realloc', 'malloc') for c in origins(f, i.ops[0]))]
    if not grow: r.bad('register', f'{n}:room', st.where, f'{n} stores an object without making room for it'); return
    ok = False
    keep = False; big = False
    for g in grow:
        call = [c for c in origins(f, g.ops[0]) if c.op == 'call'][0]
        # what the table held stays: enlarged in place, or copied
        if cname(m, call) == 'realloc': keep |= x.e(call.ops[0]) == ('ld', ('g', tab))
        else: keep |= any(i.op == 'load' and i.ops[0] != tab and ('ld', ('g', tab)) in walk(x.e(i.ops[0])) or i.op == 'call' and str(i.extra).startswith('@llvm.memcpy') and ('ld', ('g', tab)) in walk(x.e(i.ops[1])) for i in f.insts())
        # as large as the new capacity says
        caps = {i.ops[1] for i in f.insts() if i.op == 'store' and isinstance(i.ops[1], str) and i.ops[1].startswith('@') and i.ops[1] not in (cnt, tab) and i.ty != 'ptr'}
        for cap in caps:
            cs = [i for i in f.insts() if i.op == 'store' and i.ops[1] == cap and not F.unreachable(i.bb)]
            if not all(enlarged(x, cap, cnt, x.e(i.ops[0])) for i in cs): continue
            if not sized(f, x, call.ops[-1], esz, cap, cs): continue
            big = True
            if avoid_ok(f, x, F, g, st, cnt, cap): ok = True
    if keep: r.ok('register')
    else: r.bad('register', f'{n}:keep', st.where, f'{n} loses the objects registered before when it enlarges the table')
    if big: r.ok('register')
    else: r.bad('register', f'{n}:size', st.where, f'{n} allocates a table of another size than the capacity it notes')
    if not big: return
    if ok: r.ok('register')
    else: r.bad('register', f'{n}:room', st.where, f'{n} may store an object in a full table')

def origins(f, v, seen=None):
    seen = seen if seen is not None else set(); out = []
    if not isinstance(v, str) or v in seen: return out
    seen.add(v); d = f.defs.get(v)
    if d is None: return out
    if d.op in ('phi', 'select', 'bitcast', 'getelementptr', 'freeze'):
        for y in d.ops[:1] if d.op == 'getelementptr' else d.ops: out += origins(f, y, seen)
    else: out.append(d)
    return out

def enlarged(x, cap, cnt, e):
    """the capacity is set to something larger than it (or the count) was"""
    k = sum_terms(e)
    def old(t): return t in (('ld', ('g', cap)), ('ld', ('g', cnt))) or t[0] == 'op' and t[1] in ('mul', 'shl') and any(old(z) for z in t[2:]) and any(z[0] == 'c' and z[1] >= 1 for z in t[2:])
    return any(old(t) for t in k) and any(t[0] == 'c' and t[1] >= 1 for t in k)

def sized(f, x, v, esz, cap, cs):
    """v = entry size x the capacity as it is after the enlargement"""
    e = x.e(v); news = [x.e(i.ops[0]) for i in cs]
    if e in [fold('mul', ('c', esz), n) for n in news]: return True
    if e != fold('mul', ('c', esz), ('ld', ('g', cap))): return False
    # the capacity is read after it was set
    seen = set(); wl = [v]; good = False
    while wl:
        y = wl.pop()
        if not isinstance(y, str) or y in seen: continue
        seen.add(y); d = f.defs.get(y)
        if d is None: continue
        if d.op == 'load':
            if not any(f.idominates(c, d) for c in cs): return False
            good = True; continue
        wl += d.ops
    return good

def sum_terms(e):
    if e[0] == 'op' and e[1] == 'add': return sum_terms(e[2]) + sum_terms(e[3])
    return [e]

def avoid_ok(f, x, F, g, st, cnt, cap):
    """every path to st that does not pass the enlargement passes a test count == capacity taken the other way"""
    e = [b for b in f.blocks]
    # edges on which count != capacity (or count < capacity) is established
    good = set()
    for b in f.blocks:
        t = b.term
        if t.op == 'br' and t.ops and len(b.succs) == 2:
            d = f.defs.get(t.ops[0]) if isinstance(t.ops[0], str) else None
            if d is not None and d.op == 'icmp':
                a, c = x.e(d.ops[0]), x.e(d.ops[1])
                if {a, c} == {('ld', ('g', cnt)), ('ld', ('g', cap))}:
                    p = d.extra if a == ('ld', ('g', cnt)) else SWP[d.extra]
                    for k in (0, 1):
                        q = p if k == 0 else INV[p]
                        if q in ('ne', 'slt', 'ult'): good.add((b, f.bb[t.extra[k]]))
    if not good: return False
    seen = set(); wl = [f.blocks[0]]
    while wl:
        b = wl.pop()
        if b in seen or b in F.dead: continue
        seen.add(b)
        if b is g.bb: continue
        if b is st.bb: return False
        for y in b.succs:
            if (b, y) not in good: wl.append(y)
    return True
