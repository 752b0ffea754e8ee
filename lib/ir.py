"""Textual LLVM IR reader and the control-flow machinery the rules share.

The IR is produced by the installed clang from /repo's current sources on every
run; nothing here is cached between runs."""
import re, sys

TOK = re.compile(r'''
   "(?:[^"\\]|\\.)*"            |
   c"(?:[^"\\]|\\.)*"           |
   [%@](?:"[^"]*"|[-\w.$]+)     |
   !(?:"[^"]*"|[\w.]*)          |
   \#\d+                        |
   -?\d+\.\d+(?:e[+-]?\d+)?     |
   0x[0-9A-Fa-f]+               |
   -?\d+                        |
   \.\.\.                       |
   [A-Za-z_$][\w.$]*            |
   [\[\]{}()<>,=*:|]
''', re.X)

BIN = {'add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor',
       'fadd','fsub','fmul','fdiv','frem'}
CAST = {'trunc','zext','sext','fptrunc','fpext','fptoui','fptosi','uitofp','sitofp',
        'ptrtoint','inttoptr','bitcast','addrspacecast'}
FLAGS = {'nuw','nsw','exact','inbounds','volatile','fast','nnan','ninf','nsz','arcp','contract',
         'afn','reassoc','disjoint','nneg','tail','musttail','notail','noundef','nonnull','signext',
         'zeroext','noalias','nocapture','readonly','readnone','writeonly','returned','inreg','immarg',
         'dso_local','internal','private','unnamed_addr','local_unnamed_addr','hidden','external',
         'linkonce_odr','weak','common','allocptr','range','nofree','samesign','noreturn','nounwind',
         'cold','allocalign'}
PARAM_ATTR_CALL = {'align','dereferenceable','dereferenceable_or_null','byval','sret','elementtype','memory'}


class P:
    """token cursor"""
    __slots__ = ('t', 'i')
    def __init__(self, t): self.t = t; self.i = 0
    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def eat(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1; return True
        return False
    def skipflags(self):
        got = []
        while self.i < len(self.t) and self.t[self.i] in FLAGS:
            got.append(self.next())
        return got

    def attrs(self):
        """parameter / return attributes"""
        while True:
            x = self.peek()
            if x in FLAGS: self.next()
            elif x in PARAM_ATTR_CALL:
                self.next()
                if self.peek() == '(': self.balanced()
                elif x == 'align': self.next()
            else: return

    def balanced(self):
        d = 0
        while True:
            x = self.next()
            if x in '([{<' : d += 1
            elif x in ')]}>' :
                d -= 1
                if d == 0: return

    def type(self):
        x = self.next()
        if x == '[' or (x == '<' and self.peek() != '{'):
            n = int(self.next()); assert self.next() == 'x'
            t = self.type(); self.next()
            r = ('arr' if x == '[' else 'vec', n, t)
        elif x == '{':
            r = ('st', self.types('}'))
        elif x == '<':
            self.next(); r = ('st', self.types('}')); self.eat('>')
        else:
            r = x
        while self.peek() == '(' or self.peek() == '*':
            if self.peek() == '*': self.next(); r = 'ptr'
            else:
                self.next(); a = self.types(')'); r = ('fn', r, a)
        return r

    def types(self, close):
        out = []
        while not self.eat(close):
            if self.eat(','): continue
            if self.peek() == '...': self.next(); out.append('...'); continue
            out.append(self.type()); self.attrs()
        return tuple(out)

    def value(self, ty=None):
        x = self.next()
        if x[0] in '%@': return x
        if x in ('null', 'undef', 'poison', 'none', 'zeroinitializer'): return x
        if x == 'true': return 1
        if x == 'false': return 0
        if x[0] == 'c' and len(x) > 1 and x[1] == '"': return ('str', unesc(x[2:-1]))
        if x[0] == '0' and len(x) > 1 and x[1] == 'x': return ('f', hexfloat(x))
        if x == '[' or x == '{' or x == '<':
            if x == '<' and self.peek() == '{':
                self.next(); v = self.tvlist('}'); self.eat('>'); return ('agg', v)
            v = self.tvlist({'[': ']', '{': '}', '<': '>'}[x]); return ('agg', v)
        if x == 'getelementptr':
            self.skipflags()
            if self.peek() == 'inrange': self.next(); self.balanced()
            self.eat('('); st = self.type(); self.eat(',')
            vs = self.tvlist(')')
            return ('gep', st, vs)
        if x in CAST:
            self.eat('('); t = self.type(); v = self.value(t); self.next(); t2 = self.type(); self.eat(')')
            return ('cast', x, t, v, t2)
        if x in BIN or x in ('icmp', 'fcmp', 'select'):
            self.skipflags()
            pred = self.next() if x in ('icmp', 'fcmp') else None
            self.eat('('); v = self.tvlist(')'); return ('cop', x, pred, v)
        if x == 'blockaddress':
            self.i -= 0; self.balanced(); return ('blockaddr',)
        if x == 'dso_local_equivalent': return self.value(ty)
        if '.' in x or 'e' in x: return ('f', float(x))
        return int(x)

    def tvlist(self, close):
        out = []
        while not self.eat(close):
            if self.eat(','): continue
            self.skipflags()
            t = self.type(); self.attrs(); out.append((t, self.value(t)))
        return tuple(out)


def unesc(s):
    return re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), s)

def hexfloat(x):
    import struct
    return struct.unpack('>d', bytes.fromhex(x[2:].rjust(16, '0')))[0]


class Inst:
    __slots__ = ('name', 'op', 'ty', 'ops', 'extra', 'dbg', 'bb', 'fn', 'idx', 'uid')
    def __init__(s, name, op, ty, ops, extra=None):
        s.name, s.op, s.ty, s.ops, s.extra = name, op, ty, ops, extra
        s.dbg = None; s.bb = None; s.fn = None; s.idx = 0
    @property
    def callee(s):
        return s.extra if isinstance(s.extra, str) else None
    @property
    def line(s): return s.fn.mod.line(s)
    @property
    def where(s): return s.fn.mod.where(s)
    def __repr__(s):
        return f'<{s.name} = {s.op} {s.ty} {s.ops} {s.extra} @{s.where}>'


class Block:
    __slots__ = ('name', 'insts', 'succs', 'preds', 'fn', 'idx')
    def __init__(s, name, fn): s.name = name; s.insts = []; s.succs = []; s.preds = []; s.fn = fn
    @property
    def term(s): return s.insts[-1]
    def __repr__(s): return f'<bb {s.name}>'


class Func:
    def __init__(s, mod, name, ret, params, attrs):
        s.mod, s.name, s.ret, s.params, s.attr_refs = mod, name, ret, params, attrs
        s.internal = False; s.blocks = []; s.bb = {}; s.defs = {}; s.dbg = None; s.decl = False
        s._dom = None; s._pdom = None; s._loops = None; s.vararg = False; s._users = None
    @property
    def pretty(s): return s.mod.pretty(s.name)
    @property
    def file(s):
        d = s.mod.md.get(s.dbg)
        return s.mod.difile(d)
    def insts(s):
        for b in s.blocks:
            for i in b.insts: yield i
    def users(s):
        if s._users is None:
            u = {}
            for i in s.insts():
                for v in values_in(i):
                    u.setdefault(v, []).append(i)
            s._users = u
        return s._users
    def calls(s, name=None):
        for i in s.insts():
            if i.op == 'call' and (name is None or (i.callee and s.mod.base(i.callee) == name)): yield i
    def finish(s):
        for k, b in enumerate(s.blocks):
            b.idx = k
            t = b.term
            if t.op == 'br': b.succs = [s.bb[x] for x in t.extra]
            elif t.op == 'switch': b.succs = [s.bb[x] for x in dict.fromkeys([t.extra[0]] + [y for _, y in t.extra[1]])]
            for n in b.succs:
                pass
        for b in s.blocks:
            b.succs = list(dict.fromkeys(b.succs))
            for n in b.succs: n.preds.append(b)
    # ---- dominators
    def dom(s):
        if s._dom is None: s._dom = dominators(s.blocks[0], lambda b: b.succs, lambda b: b.preds, s.blocks)
        return s._dom
    def dominates(s, a, b):
        """block a dominates block b"""
        d = s.dom()
        while b is not None:
            if a is b: return True
            nb = d.get(b)
            if nb is b: return False
            b = nb
        return False
    def idominates(s, i, j):
        if i.bb is j.bb: return i.idx < j.idx
        return s.dominates(i.bb, j.bb)
    def live(s):
        """blocks from which the function can return (all, if it never does): the rest only
        leads to the failure routine"""
        if getattr(s, '_live', None) is None:
            L = set(b for b in s.blocks if b.insts and b.term.op == 'ret'); wl = list(L)
            while wl:
                for p in wl.pop().preds:
                    if p not in L: L.add(p); wl.append(p)
            s._live = L if L else set(s.blocks)
        return s._live
    def pdom(s):
        if s._pdom is None:
            ex = Block('<exit>', s); L = s.live()
            succ = {b: [x for x in b.succs if x in L] or [ex] for b in s.blocks if b in L}
            pred = {b: [x for x in b.preds if x in L] for b in s.blocks if b in L}
            pred[ex] = [b for b in succ if succ[b] == [ex]]
            succ[ex] = []
            s._pdom = dominators(ex, lambda b: pred[b], lambda b: succ[b], list(succ)), ex
        return s._pdom
    def postdominates(s, a, b):
        d, ex = s.pdom()
        while b is not None and b is not ex:
            if a is b: return True
            b = d.get(b)
        return False
    # ---- control dependence: block -> set of (branch block, successor index)
    def cdeps(s):
        if getattr(s, '_cd', None) is None:
            d, ex = s.pdom(); cd = {b: set() for b in s.blocks}
            for a in s.blocks:
                if a not in s.live() or len([x for x in a.succs if x in s.live()]) < 2: continue
                for k, x in enumerate(a.succs):
                    if x not in s.live(): continue
                    r = x; stop = d.get(a)
                    n = 0
                    while r is not None and r is not stop and r is not ex and n < 10000:
                        cd[r].add((a, k)); 
                        if d.get(r) is r: break
                        r = d.get(r); n += 1
            s._cd = cd
        return s._cd
    # ---- natural loops
    def loops(s):
        if s._loops is None:
            heads = {}
            for b in s.blocks:
                for x in b.succs:
                    if s.dominates(x, b): heads.setdefault(x, set()).add(b)
            L = []
            for h, lat in heads.items():
                body = {h}; wl = [l for l in lat if l is not h]
                while wl:
                    x = wl.pop()
                    if x in body: continue
                    body.add(x); wl += [p for p in x.preds if p not in body]
                L.append(Loop(h, lat, body))
            for l in L:
                cand = [o for o in L if o is not l and l.head in o.body and l.body <= o.body]
                l.parent = min(cand, key=lambda o: len(o.body)) if cand else None
            s._loops = L
        return s._loops
    def loop_of(s, b):
        c = [l for l in s.loops() if b in l.body]
        return min(c, key=lambda o: len(o.body)) if c else None
    def reach(s, b):
        seen = set(); wl = list(b.succs)
        while wl:
            x = wl.pop()
            if x in seen: continue
            seen.add(x); wl += x.succs
        return seen
    def local_names(s):
        """SSA value / alloca -> source variable names (from debug intrinsics)"""
        return s.mod.dbgnames.get(s.name, {})


class Loop:
    def __init__(s, h, l, b): s.head, s.latches, s.body = h, l, b; s.parent = None
    def exits(s): return [(b, x) for b in s.body for x in b.succs if x not in s.body]
    @property
    def depth(s):
        d = 1; p = s.parent
        while p: d += 1; p = p.parent
        return d


def dominators(root, succs, preds, blocks):
    order = []; seen = {root}; st = [(root, iter(succs(root)))]
    while st:
        b, it = st[-1]
        for x in it:
            if x not in seen:
                seen.add(x); st.append((x, iter(succs(x)))); break
        else:
            order.append(b); st.pop()
    num = {b: i for i, b in enumerate(order)}
    idom = {root: root}
    ch = True
    while ch:
        ch = False
        for b in reversed(order):
            if b is root: continue
            n = None
            for p in preds(b):
                if p in idom:
                    if n is None: n = p
                    else:
                        a, c = p, n
                        while a is not c:
                            while num[a] < num[c]: a = idom[a]
                            while num[c] < num[a]: c = idom[c]
                        n = a
            if n is not None and idom.get(b) is not n: idom[b] = n; ch = True
    idom[root] = None
    return idom


def values_in(i):
    """SSA/global names used by an instruction"""
    out = []
    def go(v):
        if isinstance(v, str):
            if v[:1] in '%@': out.append(v)
        elif isinstance(v, tuple):
            for x in v:
                if isinstance(x, (tuple, str)): go(x)
    for v in i.ops: go(v)
    if i.op == 'call' and not isinstance(i.extra, str): go(i.extra)
    return out


class Module:
    def __init__(s, text):
        s.types = {}; s.globals = {}; s.funcs = {}; s.decls = {}; s.md = {}; s.attrs = {}
        s.dbgnames = {}
        s._parse(text)

    # ---------- parsing
    def _parse(s, text):
        lines = text.split('\n')
        i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            if not l or l[0] == ';': i += 1; continue
            c = l[0]
            if c == '!':
                k = l.index('=') if '=' in l else -1
                if k > 0: s.md[l[:k].strip()] = l[k+1:].strip()
            elif c == '%' and ' = type ' in l:
                nm, rest = l.split(' = type ', 1)
                p = P(TOK.findall(rest)); s.types[nm] = p.type() if rest != 'opaque' else 'opaque'
            elif c == '@': s._global(l)
            elif l.startswith('declare'): s._func_head(l, True)
            elif l.startswith('define'):
                f = s._func_head(l, False); i += 1
                i = s._body(f, lines, i)
            elif l.startswith('attributes'):
                m = re.match(r'attributes (#\d+) = \{(.*)\}', l); s.attrs[m.group(1)] = m.group(2)
            i += 1
        for f in s.funcs.values(): f.finish()

    def _global(s, l):
        m = re.match(r'(@(?:"[^"]*"|[-\w.$]+)) = (.*)', l); nm, rest = m.groups()
        toks = TOK.findall(rest); p = P(toks)
        lk = []
        while p.peek() not in ('global', 'constant'):
            if p.peek() == 'alias' : return
            x = p.next(); lk.append(x)
            if x == 'addrspace' or x == 'thread_local':
                if p.peek() == '(': p.balanced()
        kind = p.next(); t = p.type(); v = None
        if p.peek() is not None and p.peek() != ',' and 'external' not in lk: v = p.value(t)
        m = re.search(r'!dbg (!\d+)', rest)
        s.globals[nm] = dict(name=nm, kind=kind, ty=t, init=v, linkage=lk, dbg=m and m.group(1))

    def _func_head(s, l, decl):
        dbg = re.search(r'!dbg (!\d+)', l)
        nmm = re.search(r'@((?:"[^"]*"|[-\w.$]+))\(', l); nm = '@' + nmm.group(1)
        head = l[:nmm.start()]; tail = l[nmm.end():]
        toks = TOK.findall(tail); p = P(toks)
        params = []; va = False
        k = 0
        while not p.eat(')'):
            if p.eat(','): continue
            if p.peek() == '...': p.next(); va = True; continue
            t = p.type(); p.attrs()
            v = p.next() if p.peek() and p.peek()[0] == '%' else f'%{k}'
            params.append((v, t)); k += 1
        rest = p.t[p.i:]
        ht = TOK.findall(head); hp = P(ht); hp.next()
        internal = False
        while hp.peek() in FLAGS or hp.peek() in ('available_externally',):
            internal |= hp.peek() in ('internal', 'private'); hp.next()
        hp.attrs(); ret = hp.type() if hp.i < len(ht) else 'void'
        f = Func(s, nm, ret, params, [x for x in rest if x.startswith('#')])
        f.vararg = va; f.internal = internal; f.decl = decl
        if dbg: f.dbg = dbg.group(1)
        (s.decls if decl else s.funcs)[nm] = f
        return f

    def _body(s, f, lines, i):
        cur = None; names = {}
        while True:
            l = lines[i]
            if l == '}': break
            if not l.strip(): i += 1; continue
            if l[0] not in ' \t':
                m = re.match(r'("[^"]*"|[-\w.$]+):', l)
                cur = Block(m.group(1).strip('"'), f); f.blocks.append(cur); f.bb[cur.name] = cur
                i += 1; continue
            if cur is None:
                cur = Block('entry', f); f.blocks.append(cur)
                f.bb[cur.name] = cur
            st = l.strip()
            if st.startswith('switch'):
                while not lines[i].rstrip().endswith(']') and ' ]' not in lines[i]:
                    i += 1; st += ' ' + lines[i].strip()
            i += 1
            if 'llvm.dbg.' in st:
                m = re.match(r'(?:tail )?call void @llvm\.dbg\.(declare|value)\(metadata (?:[\w%.{}\[\] ]+?) (%[\w.]+|\d+|@[\w.]+|undef|poison|null), metadata (!\d+)', st)
                if m and m.group(2)[0] == '%':
                    names.setdefault(m.group(2), []).append(m.group(3))
                continue
            if 'llvm.lifetime' in st: continue
            ins = s._inst(st)
            if ins is None: continue
            ins.bb = cur; ins.fn = f; ins.idx = len(cur.insts); cur.insts.append(ins)
            if ins.name: f.defs[ins.name] = ins
        s.dbgnames[f.name] = names
        return i

    def _inst(s, st):
        dbg = None
        k = st.find(', !')
        if k >= 0:
            m = re.search(r'!dbg (!\d+)', st[k:]);
            if m: dbg = m.group(1)
            # metadata operands inside calls never occur here other than dbg/lifetime
            st = st[:k]
        toks = TOK.findall(st); p = P(toks)
        name = None
        if p.peek()[0] == '%' and p.peek(1) == '=':
            name = p.next(); p.next()
        ins = s._op(p, name)
        ins.dbg = dbg
        return ins

    def _op(s, p, name):
        while p.peek() in ('tail', 'musttail', 'notail'): p.next()
        op = p.next()
        if op in BIN:
            p.skipflags(); t = p.type(); a = p.value(t); p.eat(','); b = p.value(t)
            return Inst(name, op, t, [a, b])
        if op == 'fneg':
            p.skipflags(); t = p.type(); return Inst(name, op, t, [p.value(t)])
        if op in ('icmp', 'fcmp'):
            p.skipflags(); pr = p.next(); t = p.type(); a = p.value(t); p.eat(','); b = p.value(t)
            return Inst(name, op, t, [a, b], pr)
        if op in CAST:
            p.skipflags(); t = p.type(); v = p.value(t); p.next(); t2 = p.type()
            return Inst(name, op, t2, [v], t)
        if op == 'load':
            p.skipflags(); t = p.type(); p.eat(','); p.type(); v = p.value('ptr')
            return Inst(name, op, t, [v])
        if op == 'store':
            p.skipflags(); t = p.type(); v = p.value(t); p.eat(','); p.type(); d = p.value('ptr')
            return Inst(None, op, t, [v, d])
        if op == 'getelementptr':
            p.skipflags(); t = p.type(); p.eat(','); p.type(); b = p.value('ptr'); idx = []
            while p.eat(','):
                it = p.type(); idx.append(p.value(it))
            return Inst(name, op, 'ptr', [b] + idx, t)
        if op == 'alloca':
            t = p.type(); n = 1
            if p.eat(','):
                if p.peek() != 'align': it = p.type(); n = p.value(it)
            return Inst(name, op, t, [n])
        if op == 'phi':
            p.skipflags(); t = p.type(); vals = []; bbs = []
            while p.eat('['):
                vals.append(p.value(t)); p.eat(','); bbs.append(p.next()[1:].strip('"')); p.eat(']'); p.eat(',')
            return Inst(name, op, t, vals, bbs)
        if op == 'select':
            p.skipflags(); out = []
            for _ in range(3):
                t = p.type(); out.append(p.value(t)); p.eat(',')
            return Inst(name, op, t, out)
        if op == 'br':
            if p.eat('label'): return Inst(None, op, None, [], [p.next()[1:].strip('"')])
            p.type(); c = p.value('i1'); p.eat(','); p.eat('label'); a = p.next(); p.eat(','); p.eat('label'); b = p.next()
            return Inst(None, op, None, [c], [a[1:].strip('"'), b[1:].strip('"')])
        if op == 'switch':
            t = p.type(); v = p.value(t); p.eat(','); p.eat('label'); d = p.next()[1:].strip('"'); p.eat('['); cs = []
            while not p.eat(']'):
                ct = p.type(); cv = p.value(ct); p.eat(','); p.eat('label'); cs.append((cv, p.next()[1:].strip('"')))
            return Inst(None, op, t, [v], (d, cs))
        if op == 'ret':
            t = p.type()
            return Inst(None, op, t, [] if t == 'void' else [p.value(t)])
        if op == 'unreachable': return Inst(None, op, None, [])
        if op == 'call':
            p.skipflags(); p.attrs(); t = p.type()
            if isinstance(t, tuple) and t[0] == 'fn': t = t[1]
            cal = p.value('ptr') ; p.eat('('); args = []; tys = []
            while not p.eat(')'):
                if p.eat(','): continue
                at = p.type(); p.attrs()
                if at == 'metadata':
                    p.next(); args.append('undef')
                else: args.append(p.value(at))
                tys.append(at)
            ins = Inst(name, op, t, args, cal)
            return ins
        if op in ('extractvalue', 'insertvalue'):
            t = p.type(); a = p.value(t); ops = [a]
            if op == 'insertvalue': p.eat(','); t2 = p.type(); ops.append(p.value(t2))
            ix = []
            while p.eat(','): ix.append(int(p.next()))
            return Inst(name, op, t, ops, ix)
        if op == 'freeze':
            t = p.type(); return Inst(name, op, t, [p.value(t)])
        if op == 'va_arg':
            t = p.type(); v = p.value(t); p.eat(','); t2 = p.type(); return Inst(name, op, t2, [v])
        if op in ('extractelement', 'insertelement', 'shufflevector'):
            ops = []
            while True:
                t = p.type(); ops.append(p.value(t))
                if not p.eat(','): break
            return Inst(name, op, t, ops)
        raise ValueError('unknown instruction ' + op + ' ' + ' '.join(p.t))

    # ---------- debug info
    def mdget(s, id):
        t = s.md.get(id)
        if t is None: return None
        return t
    def mdf(s, id, key):
        t = s.md.get(id)
        if not t: return None
        m = re.search(r'\b' + key + r': ("(?:[^"\\]|\\.)*"|!\d+|[\w|]+)', t)
        if not m: return None
        v = m.group(1)
        return v[1:-1] if v[0] == '"' else v
    def mdlist(s, id):
        t = s.md.get(id)
        return re.findall(r'!\d+|null', t[t.index('{'):]) if t else []
    def difile(s, text):
        if not text: return '?'
        m = re.search(r'\bfile: (!\d+)', text)
        return (s.mdf(m.group(1), 'filename') or '?').split('/')[-1] if m else '?'
    def scope_file(s, sc):
        n = 0
        while sc and n < 50:
            f = s.mdf(sc, 'file')
            if f: return (s.mdf(f, 'filename') or '?').split('/')[-1]
            sc = s.mdf(sc, 'scope'); n += 1
        return '?'
    def line(s, i):
        if not i.dbg: return 0
        l = s.mdf(i.dbg, 'line'); return int(l) if l else 0
    def where(s, i):
        if not i.dbg: return f'{i.fn.file}:?'
        return f"{s.scope_file(s.mdf(i.dbg, 'scope'))}:{s.line(i)}"

    # ---------- names
    def base(s, name):
        """source-level function name: strip linker suffix, keep prefix"""
        n = name[1:].strip('"')
        d = s.funcs.get(name) or s.decls.get(name)
        if d is not None and d.dbg:
            x = s.mdf(d.dbg, 'name')
            if x: return x
        return re.sub(r'\.\d+$', '', n)
    def pretty(s, name):
        return s.base(name)
    def find(s, base, file=None):
        """functions by source name (prefix optional)"""
        out = []
        for f in s.funcs.values():
            b = s.base(f.name)
            if b == base or b == 'gslib_' + base or b == 'fgslib_' + base + '_' :
                if file is None or f.file == file: out.append(f)
        return out

    # ---------- layout
    def resolve(s, t):
        while isinstance(t, str) and t.startswith('%'): t = s.types[t]
        return t
    def size(s, t):
        t = s.resolve(t)
        if t == 'ptr': return 8
        if t == 'double': return 8
        if t == 'float': return 4
        if isinstance(t, str) and t[0] == 'i': return max(1, (int(t[1:]) + 7) // 8)
        if t == 'x86_fp80': return 16
        if isinstance(t, tuple):
            if t[0] in ('arr', 'vec'): return t[1] * s.size(t[2])
            if t[0] == 'st':
                o = 0; al = 1
                for x in t[1]:
                    a = s.align(x); o = (o + a - 1) // a * a + s.size(x); al = max(al, a)
                return (o + al - 1) // al * al
        raise ValueError(t)
    def align(s, t):
        t = s.resolve(t)
        if isinstance(t, tuple):
            if t[0] in ('arr', 'vec'): return s.align(t[2])
            return max([s.align(x) for x in t[1]] or [1])
        return s.size(t)
    def field_off(s, t, k):
        t = s.resolve(t); o = 0
        for j, x in enumerate(t[1]):
            a = s.align(x); o = (o + a - 1) // a * a
            if j == k: return o
            o += s.size(x)
    def struct_fields(s, tname):
        """debug-info member names for an LLVM struct type name such as %struct.comm"""
        if not hasattr(s, '_sf'):
            s._sf = {}
            for k, t in s.md.items():
                if t.startswith('!DICompositeType') or t.startswith('distinct !DICompositeType'):
                    if 'DW_TAG_structure_type' in t or 'DW_TAG_union_type' in t:
                        nm = s.mdf(k, 'name'); el = s.mdf(k, 'elements')
                        if nm and el:
                            s._sf.setdefault(nm, [s.mdf(m, 'name') for m in s.mdlist(el)])
            # typedef'd anonymous structs
            for k, t in s.md.items():
                if 'DW_TAG_typedef' in t:
                    b = s.mdf(k, 'baseType'); nm = s.mdf(k, 'name')
                    if b and s.md.get(b, '').find('DICompositeType') >= 0 and not s.mdf(b, 'name'):
                        el = s.mdf(b, 'elements')
                        if el: s._sf.setdefault(nm, [s.mdf(m, 'name') for m in s.mdlist(el)])
        nm = re.sub(r'\.\d+$', '', tname.replace('%struct.', '').replace('%union.', ''))
        return s._sf.get(nm)
    def fname(s, tname, k):
        f = s.struct_fields(tname)
        return f[k] if f and k < len(f) else f'#{k}'
    def sname(s, tname):
        return re.sub(r'\.\d+$', '', tname.replace('%struct.', '').replace('%union.', ''))
