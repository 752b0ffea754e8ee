"""P15: duplicated declarations of one structure or routine agree"""
import re, os
import build
from multiprocessing import Pool
EXPLANATION = ('clang AST of every unit (and of a unit that includes all public headers): every externally visible routine or object is declared with one type in all units; every structure '
  'reachable from such a declaration has one layout (field names, types, order) in all units that define it; the two- and three-dimensional instances of a routine have the same signature up to the dimension.')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def canon(t):
    t = re.sub(r'\b(restrict|__restrict|volatile)\b', '', t)
    t = re.sub(r'\*\s*const\b', '*', t)
    t = re.sub(r'\s+', ' ', t).strip()
    t = re.sub(r' ?\* ?', '*', t)
    return t

def split_params(t):
    """'R (A, B)' -> [R, A, B], top-level const dropped"""
    m = re.match(r'(.*?)\((.*)\)$', t)
    if not m: return [t]
    out, d, cur = [], 0, ''
    for ch in m.group(2):
        if ch == ',' and d == 0: out.append(cur); cur = ''; continue
        d += ch in '(['; d -= ch in ')]'; cur += ch
    out.append(cur)
    def top(x):
        x = x.strip()
        if '*' not in x and '[' not in x: x = re.sub(r'\bconst\b ?', '', x).strip()
        return x
    return [top(m.group(1))] + [top(x) for x in out]

def unit_ast(a):
    name, path, fl = a
    import json
    out = build.run([build.CLANG, '-fsyntax-only', '-w', '-std=gnu11', '-Xclang', '-ast-dump=json', *build.incs(), *fl, path], 'ast ' + name)
    t = json.loads(out)
    funs, recs, objs, tds = {}, {}, {}, {}
    file = [None]
    def loc(n):
        l = n.get('loc', {}); l = l.get('expansionLoc', l)
        if 'file' in l: file[0] = l['file']
        return os.path.basename(file[0] or '?')
    def T(n):
        t = n.get('type', {}); return t.get('desugaredQualType') or t.get('qualType') or ''
    anon = {}
    for n in t['inner']:
        f = loc(n)
        k = n.get('kind')
        own = file[0] and (file[0].startswith(build.SRC) or file[0].startswith(HERE) or not file[0].startswith('/'))
        # the file of a declaration may come from a macro: positions inside also count
        if k == 'FunctionDecl' and n.get('storageClass') != 'static' and not n.get('isImplicit'):
            funs[n['name']] = (canon(n['type']['qualType']), f, any(c.get('kind') == 'CompoundStmt' for c in n.get('inner', [])))
        elif k == 'VarDecl' and n.get('storageClass') != 'static': objs.setdefault(n['name'], (canon(T(n)), f))
        elif k == 'RecordDecl' and n.get('completeDefinition'):
            fl_ = [(c.get('name', ''), canon(T(c)), bool(c.get('isBitfield'))) for c in n.get('inner', []) if c.get('kind') == 'FieldDecl']
            anon[n['id']] = fl_
            if n.get('name'): recs[n['name']] = (n.get('tagUsed'), fl_, f)
        elif k == 'EnumDecl':
            es = [c.get('name') for c in n.get('inner', []) if c.get('kind') == 'EnumConstantDecl']
            anon[n['id']] = [(e, 'enum', False) for e in es]
            if n.get('name'): recs['enum ' + n['name']] = ('enum', [(e, '', False) for e in es], f)
        elif k == 'TypedefDecl':
            q = n['type']['qualType']
            tds[n['name']] = (canon(n['type'].get('desugaredQualType') or q), f)
            def owned(x):
                if isinstance(x, dict):
                    o = x.get('ownedTagDecl') or (x.get('decl') if x.get('kind') in ('RecordType', 'EnumType') else None)
                    if o and o.get('id') in anon and not o.get('name'): recs[n['name']] = ('typedef', anon[o['id']], f)
                    for c in x.get('inner', []): owned(c)
            owned(n)
    def ex(t, depth=0):
        if t in tds and depth < 6:
            q = tds[t][0]
            if q != t and q not in recs_anon: return ex(q, depth + 1)
        def one(m):
            w = m.group(0)
            if w in recs and recs[w][0] == 'typedef' and recs[w][1] and recs[w][1][0][1] == 'enum': return 'enum{' + '|'.join(x[0] for x in recs[w][1]) + '}'
            if w in tds and depth < 6:
                q = tds[w][0]
                if q != w and '(' not in q and '{' not in q and '[' not in q: return ex(q, depth + 1)
            return w
        return re.sub(r'(?<!struct )(?<!union )(?<!enum )\b[A-Za-z_]\w*\b', one, t)
    recs_anon = set()
    funs = {n: (canon(ex(t)), f, d) for n, (t, f, d) in funs.items()}
    objs = {n: (canon(ex(t)), f) for n, (t, f) in objs.items()}
    recs = {n: (k, [(a, b if b == 'enum' else canon(ex(b)), c) for a, b, c in v], f) for n, (k, v, f) in recs.items()}
    return name, funs, recs, objs, tds

def check(r):
    cfgs = ['nbc'] if r.tier == 'quick' else ['nbc', 'default', 'blas', 'serial']
    for cfg in cfgs:
        fl = build.CONFIGS[cfg]
        jobs = [(u, f'{build.SRC}/{u}', fl) for u in build.units()] + [('headers.c', HERE + '/witness/headers.c', fl)]
        with Pool(8) as p: res = p.map(unit_ast, jobs)
        defs = {n for u, fs, *_ in res for n, (t, f, d) in fs.items() if d}
        gobjs = {n for u, fs, rs, os_, ts in res for n in os_ if n.startswith('gslib_')}
        F, O, R = {}, {}, {}
        mentioned = set()
        tdmap = {}
        for u, fs, rs, os_, ts in res:
            for n, (t, f, d) in fs.items():
                if n in defs or n.startswith('gslib_') or n.startswith('fgslib_'):
                    F.setdefault(n, {}).setdefault(tuple(split_params(t)), []).append((u, f))
                    mentioned |= set(re.findall(r'(?:struct|union) (\w+)', t)) | set(re.findall(r'\b\w+\b', t))
            for n, (t, f) in os_.items():
                if n in gobjs:
                    O.setdefault(n, {}).setdefault(t, []).append((u, f)); mentioned |= set(re.findall(r'\b\w+\b', t))
            for n, x in rs.items(): R.setdefault(n, []).append((u, x))
            for n, (t, f) in ts.items():
                if n in mentioned or True: tdmap.setdefault(n, {}).setdefault(t, []).append(u)
        def text(ts): return ' / '.join(f'{", ".join(sorted(set(x for x, _ in us)))}: {t if isinstance(t, str) else t[0] + "(" + ", ".join(t[1:]) + ")"}' for t, us in ts.items())
        for n, ts in F.items():
            k = sum(len(x) for x in ts.values())
            if len(ts) == 1: r.ok('routine-types', k)
            else: r.bad('routine-types', plain(n), list(ts.values())[0][0][1], f'{n} is declared differently in different units: {text(ts)}')
        for n, ts in O.items():
            if len(ts) == 1: r.ok('object-types')
            else: r.bad('object-types', plain(n), list(ts.values())[0][0][1], f'{n} is declared differently: {text(ts)}')
        # structures that cross units
        wl = list(mentioned); seen = set()
        while wl:
            x = wl.pop()
            if x in seen: continue
            seen.add(x)
            for u, (tag, fl_, f) in R.get(x, ()):
                for nm, t, b in fl_: wl += re.findall(r'\b\w+\b', t)
        for n, defs_ in R.items():
            if n not in seen and not n.startswith('enum '): continue
            lay = {}
            for u, (tag, fl_, f) in defs_: lay.setdefault(tuple(fl_), []).append((u, f))
            files = {f for us in lay.values() for _, f in us}
            if len(lay) == 1: r.ok('layouts', len(defs_))
            else:
                a, b = list(lay.items())[:2]
                d = next(((x, y) for x, y in zip(a[0], b[0]) if x != y), (a[0][len(b[0]):][:1], b[0][len(a[0]):][:1]))
                r.bad('layouts', n, a[1][0][1], f'structure {n} is laid out differently in {a[1][0][0]} and {b[1][0][0]}: {d[0]} against {d[1]}')
        # dimensions
        for n in F:
            if n.endswith('_2') and n[:-1] + '3' in F:
                a = {dim(t) for t in F[n]}; b = {dim(t) for t in F[n[:-1] + '3']}
                if a & b: r.ok('dimensions')
                elif len(next(iter(a))) != len(next(iter(b))): continue       # takes one set of arguments per direction
                else: r.bad('dimensions', plain(n)[:-2], list(F[n].values())[0][0][1], f'{n} and its three-dimensional counterpart have different signatures: {a} / {b}')
        r.cov.setdefault('units', {})[cfg] = len(jobs); r.cov.setdefault('routines', {})[cfg] = len(F)
    r.need('routine-types', 100); r.need('layouts', 20)

def plain(n): return re.sub(r'^f?gslib_', '', n)
def dim(t):
    return tuple(re.sub(r'\[[23]\]', '[D]', re.sub(r'_[23]\b', '_D', x)) for x in t)
