"""P20: the crystal router keeps every message intact while forwarding"""
import build
from an import *
from walk import *
EXPLANATION = ('Abstract execution, over polynomials, of one round of the router and of one step of every loop that goes through the message stream (LLVM IR, helpers placed into the router). For every path: the scan '
  'starts at the first word and ends behind the last; each step takes one whole record (three words and the length given by the third); which half a record belongs to is decided by its destination and the cut alone; each record is copied '
  'whole, exactly once, to the kept or the outgoing side, the side for the other half being the outgoing one; both sides advance by what was copied; what is sent is all of the outgoing side; arriving words are placed behind what is kept, one message after the other, each '
  'with the length announced by the same process, within the space reserved; and the word count afterwards is their sum.')

def layout(m):
    def off(t, name):
        fs = m.struct_fields(t) or []
        if name not in fs: raise build.Broken(f'{t} has no part {name}')
        return m.field_off(t, fs.index(name))
    C, A, M = '%struct.crystal', '%struct.array', '%struct.comm'
    o = {k: off(C, k) for k in ('comm', 'data', 'work')}
    o.update({k: off(A, k) for k in ('ptr', 'n', 'max')}); o['id'] = off(M, 'id')
    return o

def ge(W, p, a, b):
    """a >= b on this path (unsigned quantities)"""
    D = W.add(a, b, -1)
    if all(c >= 0 for c in D.values()): return True
    if p.facts.get(('ult', W.k(a), W.k(b))) is False: return True
    for (key, v) in p.facts.items():
        if key[0] == 'ult' and v is False and key[2] == W.k(b):                   # x >= b, a >= x
            if all(c >= 0 for c in W.add(a, dict(key[1]), -1).values()): return True
        if key[0] == 'ult' and v is True and key[1] == W.k(b) and all(c >= 0 for c in W.add(a, dict(key[2]), -1).values()): return True
    return False

def capacity(W, p, base, mx):
    """least sizes the block is known to have on this path"""
    out = []
    (a,), c = next(iter(base.items())) if len(base) == 1 and len(next(iter(base))) == 1 else ((None,), 0)
    if a is not None and a[0] == 'call':
        for e in p.ev:
            if e[0] == 'call' and e[3].name == a[2]: out.append(e[2][-1] if e[1] != 'calloc' else W.mul(e[2][0], e[2][1]))
    else: out.append(W.atom(('ld', W.k(mx))))
    return out
def room(W, p, base, mx, need): return any(ge(W, p, c, need) for c in capacity(W, p, base, mx))

def check(r):
    for cfg in (['default', 'nbc', 'serial'] if r.tier == 'thorough' else ['default']): part(r, cfg)
    if getattr(r, 'unfollowed', False): return
    if not r.viol: r.need('step', 4); r.need('decision', 4); r.need('arrivals', 3)
    r.assume += ['word counts and sizes do not wrap (a stream is far below the address space)', 'the stream handed to the router consists of whole records (P21 for the packing routines)']

def part(r, cfg):
    m = norm(cfg); o = layout(m); noret = noret_funcs(m)
    f = m.find('crystal_router'); f = f[0] if isinstance(f, list) else f
    if f is None: raise build.Broken('crystal_router not found')
    W = Walk(f, noret, 20000); P0 = W.atom(('p', 0)); at = lambda *k: W.add(P0, W.const(sum(k)))
    ld = lambda a: W.atom(('ld', W.k(a)))
    data, dn, dmax = at(o['data'], o['ptr']), at(o['data'], o['n']), at(o['data'], o['max'])
    work, wmax = at(o['work'], o['ptr']), at(o['work'], o['max'])
    me = ld(at(o['comm'], o['id']))
    depth = lambda L: L.depth() if callable(L.depth) else L.depth
    outer = [L for L in f.loops() if depth(L) == 1]
    name = src(f)
    if len(outer) != 1: r.bad('round', f'{name}:loops', f.file, f'{name} is not one loop over halvings any more ({len(outer)} outer loops)'); return
    O = outer[0]; fresh = lambda L: {i.name: W.atom(('x', i.name)) for i in L.head.insts if i.op == 'phi'}
    outs = W.run(O.head, fresh(O), stop=O.head, within=O.body)
    outs = [x for x in outs if x[1] is O.head]
    done = {}
    for p, _, nxt in outs:
        ls = [(k, e) for k, e in enumerate(p.ev) if e[0] == 'loop']
        scans = [(k, e) for k, e in ls if any(i.op == 'call' and 'mem' in (cname(m, i) or '') for b in e[1].body for i in b.insts) or any(i.op == 'store' for b in e[1].body for i in b.insts)]
        if len(scans) != 1: r.bad('round', f'{name}:scan', O.head.term.where, f'a round of {name} goes through the stream {len(scans)} times'); continue
        k, e = scans[0]; L, entry, snap = e[1], e[2], e[3]
        key = (L.head.name, tuple(sorted((x, W.k(v)) for x, v in entry.items())), tuple(sorted((repr(a), b) for a, b in snap.facts.items())))
        if key not in done: done[key] = scan(r, W, name, L, entry, snap, data, dn, work, wmax, me, ld)
        S = done[key]
        if S is None: continue
        exchange(r, W, name, p, k, S, data, dn, dmax, work, ld)

def scan(r, W, name, L, entry, snap, data, dn, work, wmax, me, ld):
    """one step of the loop through the stream; returns (kept side, outgoing side) as expressions of the loop's variables"""
    if any(l is not L and l.head in L.body for l in W.f.loops()): r.notes.append(f'{name}: the copying of a record is a loop of its own, which is not followed'); r.unfollowed = True; return None
    ph = {i.name: W.atom(('x', i.name)) for i in L.head.insts if i.op == 'phi'}
    base = snap.mem.get(W.k(data), ld(data)); wb = snap.mem.get(W.k(work), ld(work)); n = snap.mem.get(W.k(dn), ld(dn))
    steps = [x for x in W.run(L.head, ph, stop=L.head, within=L.body, path=snap) if x[1] is L.head]
    where = L.head.term.where; bad = lambda rule, key, msg, w=where: r.bad(rule, f'{name}:{key}', w, msg)
    n0 = len(snap.ev); rec = None; side = {}
    for p, _, nx in steps:
        for e in p.ev[n0:]:
            if e[0] == 'call' and e[1] in ('memcpy', 'memmove'):
                R = e[2][1]
                if rec is None: rec = R
                elif rec != R: bad('step', 'source', 'records are copied from different places of one step', e[3].where); return None
    if rec is None: bad('step', 'copy', f'{name} does not copy the records it goes through'); return None
    ln = W.add(W.const(12), W.mul(W.const(4), ld(W.add(rec, W.const(8)))))
    if W.sub(rec, entry) != base: bad('scan', 'start', 'the scan does not start at the first word of the stream')
    else: r.ok('scan')
    end = W.add(base, W.mul(W.const(4), n)); okend = False
    for p, _, nx in steps:
        for e in p.ev[n0:]:
            if e[0] == 'if':
                a, b = dict(e[1][-2]) if len(e[1]) > 2 else None, dict(e[1][-1])
                if e[1][0] in ('ult', 'slt') and e[2]:
                    for w in (1, 4):
                        if W.mul(W.const(w), W.add(b, a, -1)) == W.add(end, rec, -1): okend = True
                if e[1][0] == 'eq' and not e[2]:
                    for w in (1, -1, 4, -4):
                        if W.mul(W.const(w), b) == W.add(end, rec, -1): okend = True
    if okend: r.ok('scan')
    else: bad('scan', 'end', 'the scan does not stop exactly behind the last word of the stream')
    for p, _, nx in steps:
        for e in p.ev[n0:]:
            if e[0] == 'call' and e[1] in ('memcpy', 'memmove'):
                st = W.sub(e[2][0], entry)
                kind = 'kept' if st == base else 'sent' if st == wb else None
                if kind is None: bad('copy', 'place', 'a record is copied to something that starts neither at the front of the stream nor at the front of the work area', e[3].where); return None
                if side.setdefault(kind, e[2][0]) != e[2][0]: bad('copy', f'{kind}-place', f'{kind} records are put at different places', e[3].where); return None
    for kind in ('kept', 'sent'):
        if kind not in side and kind == 'sent': bad('copy', 'sent', 'no record is ever put on the outgoing side'); return None
    if 'kept' not in side: bad('copy', 'kept', 'no record is ever kept'); return None
    for p, _, nx in steps:
        ev = [e for e in p.ev[n0:] if e[0] == 'call' and e[1] in ('memcpy', 'memmove')]
        facts = {e[1]: e[2] for e in p.ev[n0:] if e[0] == 'if'}; allf = p.facts
        step = W.add(W.sub(rec, nx), rec, -1)
        if step == ln: r.ok('step')
        else: bad('step', 'advance', f'a step of the scan goes on by {W.show(step)} bytes, a record has {W.show(ln)}')
        # what becomes of the record
        kind = None
        if len(ev) > 1: bad('copy', 'twice', 'a record is copied more than once in one step', ev[1][3].where)
        if ev:
            kind = [k for k, v in side.items() if v == ev[0][2][0]][0]
            if ev[0][2][2] != ln: bad('copy', 'length', f'{W.show(ev[0][2][2])} bytes of a record of {W.show(ln)} are copied', ev[0][3].where)
            else: r.ok('copy')
            if kind == 'kept' and ev[0][1] == 'memcpy' and not apart(W, p, ev[0][2], ln): bad('copy', 'overlap', 'a kept record is moved with a copy that does not allow overlap although the places may overlap', ev[0][3].where)
        else:
            D = W.add(side['kept'], rec, -1)
            if any(k[0] == 'eq' and v and dict(k[1]) in (D, W.mul(D, W.const(-1))) for k, v in facts.items()): kind = 'kept'; r.ok('copy')
            else: bad('copy', 'dropped', 'a record is neither copied nor already in its place on some path'); continue
        for k, v in side.items():
            d = W.add(W.sub(v, nx), v, -1); want = ln if k == kind else {}
            if d == want: r.ok('advance')
            else: bad('advance', k, f'the {"outgoing" if k == "sent" else "kept"} side goes on by {W.show(d)} bytes where {W.show(want)} were put')
        # the decision
        dest = W.k(ld(rec)); cut = None
        for k, v in facts.items():
            if k[0] in ('ult', 'slt') and dest in k[1:]:
                lowside = (k[1] == dest); x = k[2] if lowside else k[1]
                # dest < x is v   /   x < dest is v: the cut is then x + 1
                cut = (W.k(dict(x)) if lowside else W.k(W.add(dict(x), W.const(1)))), (v if lowside else not v)
        if cut is None: bad('decision', 'destination', 'the side of a record is not decided by comparing its destination with the cut'); continue
        low = cut[1]
        mine = allf.get(('ult', W.k(me), cut[0]))
        if mine is None:
            y = W.k(W.add(dict(cut[0]), W.const(-1))); z = allf.get(('ult', y, W.k(me))); mine = None if z is None else not z
        if mine is None: bad('decision', 'half', 'the half that is kept does not depend on which side of the same cut this process is'); continue
        for k in facts:
            for q in k[1:]:
                if W.mentions(dict(q), lambda a: a[0] == 'ld' and word(W, dict(a[1]), rec) not in (None, 0, 8)): bad('decision', 'other', 'the side of a record depends on a word other than its destination')
        if (kind == 'kept') == (low == mine): r.ok('decision')
        else: bad('decision', 'side', f'a record for the {"lower" if low else "upper"} half is {kind} by a process of the {"lower" if mine else "upper"} half')
    if room(W, snap, wb, wmax, W.mul(W.const(4), n)): r.ok('work-room')
    else: bad('work-room', 'work', 'the work area may be smaller than the records put into it')
    return side, base, wb, n

def word(W, a, rec):
    d = W.add(a, rec, -1)
    return d.get((), 0) if set(d) <= {()} else None

def apart(W, p, a, ln):
    """dst + len <= src on this path"""
    e = W.add(a[0], ln)
    for k, v in p.facts.items():
        if k[0] == 'ult' and v is False and dict(k[1]) == a[1] and dict(k[2]) == e: return True
        if k[0] == 'ult' and v is True and dict(k[1]) == e and dict(k[2]) == a[1]: return True
    return False

def exchange(r, W, name, p, k, S, data, dn, dmax, work, ld):
    side, base, wb, n = S; ev = p.ev[k + 1:]
    bad = lambda rule, key, msg, w: r.bad(rule, f'{name}:{key}', w, msg)
    four = W.const(4)
    # what is kept and what is sent make up all there was (the rules for the scan): the end of the one follows from the other
    va = [m_[0] for m_, c in side['sent'].items() if len(m_) == 1 and m_[0][0] == 'x' and c == 1]
    if va and va[0] not in [a for q in side['kept'] for a in q]:
        rest = W.add(side['sent'], W.atom(va[0]), -1)
        rel = {va[0][1]: W.add(W.add(W.add(wb, W.mul(four, n)), W.add(side['kept'], base, -1), -1), rest, -1)}
    else: rel = {}
    norm_ = lambda q: W.undiv(W.sub(W.undiv(q), rel)); bytes_ = lambda v: norm_(W.mul(four, v))
    kept = norm_(W.add(side['kept'], base, -1)); sent = norm_(W.add(side['sent'], wb, -1))
    ns = [(j, e) for j, e in enumerate(ev) if e[0] == 'store' and e[1] == dn]
    recvs = [e for e in ev if e[0] == 'call' and e[1] == 'MPI_Irecv']; sends = [e for e in ev if e[0] == 'call' and e[1] in ('MPI_Isend', 'MPI_Send')]
    isloc = lambda a: len(a) >= 1 and any(x[0] == 'al' for q in a for x in q)
    small = [e for e in recvs if isloc(e[2][0])]; big = [e for e in recvs if not isloc(e[2][0])]
    out = [e for e in sends if not isloc(e[2][0])]; ann = [e for e in sends if isloc(e[2][0])]
    where = (recvs or sends or [(0, 0, 0, W.f.blocks[0].term)])[0][3].where
    if not ns: bad('arrivals', 'count', 'the number of words is not updated after a round', where); return
    if not sends and not recvs: return            # built without MPI
    if len(out) != 1 or bytes_(out[0][2][1]) != sent and norm_(out[0][2][1]) != sent or out[0][2][0] != wb: bad('sent', 'words', f'what is sent is not exactly the outgoing side ({W.show(norm_(out[0][2][1])) if out else "nothing"} bytes, not {W.show(sent)})', (out or sends)[0][3].where)
    else: r.ok('sent')
    if len(ann) == 1 and bytes_(p.mem.get(W.k(ann[0][2][0]), {('?',): 1})) == sent: r.ok('sent')
    else: bad('sent', 'announced', 'the number of words announced is not the number sent', where)
    # arrivals: behind what is kept, one after the other
    at = kept; cur = p.mem.get(W.k(data), ld(data)); todo = list(big)
    while todo:
        nx = [e for e in todo if norm_(W.add(e[2][0], cur, -1)) == at]
        if len(nx) != 1:
            bad('arrivals', 'place', f'arriving words are not placed behind what is there already ({W.show(norm_(W.add(todo[0][2][0], cur, -1)))} instead of {W.show(at)} bytes into the stream)', todo[0][3].where); return
        e = nx[0]; todo.remove(e); ln = e[2][1]
        c = [s for s in small if W.mul(four, W.atom(('rcv', W.k(s[2][0])))) == ln]
        if len(c) != 1: bad('arrivals', 'length', f'a message is received with {W.show(ln)} bytes, which is not a length announced in this round', e[3].where)
        elif c[0][2][3] != e[2][3]: bad('arrivals', 'from', 'a message is received with the length another process announced', e[3].where)
        else: r.ok('arrivals')
        at = W.add(at, ln)
    if len(big) != len(small): bad('arrivals', 'missing', f'{len(small)} messages are announced and {len(big)} received', where)
    if not big or room(W, p, cur, dmax, at) or any(ge2(W, p, c, at, norm_) for c in capacity(W, p, cur, dmax)): r.ok('room')
    else: bad('room', 'stream', f'the stream may have no room for the {W.show(at)} bytes that are there after the round', big[0][3].where)
    if bytes_(ns[-1][1][2]) == at: r.ok('total')
    else: bad('total', 'words', f'the stream is said to have {W.show(ns[-1][1][2])} words, there are {W.show(at)} bytes', ns[-1][1][3].where)

def ge2(W, p, a, b, norm_):
    """a >= b where b is given without divisions"""
    for key, v in p.facts.items():
        if key[0] == 'ult' and v is False:
            y = norm_(dict(key[2]))
            if all(c >= 0 for c in W.add(y, b, -1).values()) and ge(W, p, a, dict(key[1])): return True
    return all(c >= 0 for c in W.add(norm_(a), b, -1).values())
