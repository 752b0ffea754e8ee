"""P10: global identifiers keep their width"""
import os, re
import an, build, ir, witness
from an import *
EXPLANATION = ('The library is compiled to LLVM IR for a data model in which pointers, sizes and long are 32 bits wide, so that every 64-bit integer in the program is a global '
  'identifier, an index derived from one, or a 64-bit data value. Each narrowing (trunc, conversion to floating point, narrow access to a 64-bit field or array, integer-kind mismatch between '
  'a reduction\'s data type and its buffer) must act on a value that was reduced first (remainder, quotient, mask, difference, count). Sort keys: a compile-fail witness forces each sorted field to be sorted at its own width.')
TARGET = ['--target=x86_64-linux-gnux32']
COUNTS = {('primary_shared_id', 'ord'), ('gs_topology', 'total_shared'), ('hash_data_2', 'hash_n'), ('hash_data_3', 'hash_n')}
# the only field kernels narrow on purpose (bit-pattern operation of the data type): data, not identifiers
DATA_FILES = {'gs_local.c', 'comm.c'}

def x32(cfg):
    import tempfile, shutil
    d = tempfile.mkdtemp(prefix='gsx.')
    try:
        os.mkdir(d + '/gnu')
        open(d + '/gnu/stubs-x32.h', 'w').close()
        fl = build.CONFIGS[cfg] + TARGET + ['-I' + d, '-I/usr/include/x86_64-linux-gnu']
        m = build.module(cfg, flags=fl, helpers=True)
        m.cg = CG(m)
        return m
    finally: shutil.rmtree(d, ignore_errors=True)

def small(f, v, seen=None, depth=0):
    """is the i64 value reduced to something that fits: not an identifier as such"""
    seen = seen if seen is not None else set()
    if isinstance(v, int): return abs(v) < 2**32
    if not isinstance(v, str) or v in ('undef', 'poison'): return True
    if v in seen: return True
    seen.add(v)
    d = f.defs.get(v)
    if d is None: return False                       # parameter
    o = d.op
    if o in ('zext', 'sext'): return True
    if o in ('urem', 'srem', 'udiv', 'sdiv', 'lshr', 'ashr'): return True
    if o == 'and': return any(isinstance(x, int) and 0 <= x < 2**32 for x in d.ops) or all(small(f, x, seen) for x in d.ops)
    if o == 'sub':
        if isinstance(d.ops[1], int): return small(f, d.ops[0], seen)
        return not any(id_rooted(f, x) for x in d.ops)     # distance between two indices, not between identifiers
    if o in ('add', 'mul', 'or', 'xor', 'shl'):
        return all(small(f, x, seen) for x in d.ops)
    if o == 'phi': return all(small(f, x, seen) for x in d.ops)
    if o == 'select': return all(small(f, x, seen) for x in d.ops[1:])
    if o == 'freeze': return small(f, d.ops[0], seen)
    if o in ('fptoui', 'fptosi'): return True         # indices computed from coordinates
    if o == 'load':
        sl = chain_slot(f, d.ops[0])
        if sl in COUNTS: return True
        if sl is not None and sl[0].startswith('ulong_range'): return True
        b = rootv(f, d.ops[0])
        bd = f.defs.get(b) if isinstance(b, str) else None
        if bd is not None and bd.op == 'alloca' and not sl:
            sts = [i for i in f.insts() if i.op == 'store' and isinstance(i.ops[1], str) and rootv(f, i.ops[1]) == b]
            if any(i.op == 'call' and any(isinstance(a, str) and rootv(f, a) == b for a in i.ops) for i in f.insts()): return bd.ty in ('i64',) or isinstance(bd.ty, tuple) and False
            return bool(sts) and all(small(f, s.ops[0], seen) for s in sts)
        return False
    return False

def id_rooted(f, v, seen=None):
    """an identifier or key read from memory or a parameter reaches the value by adding/casting only"""
    seen = seen if seen is not None else set()
    if not isinstance(v, str) or v in seen or v in ('undef', 'poison'): return False
    seen.add(v)
    d = f.defs.get(v)
    if d is None: return True
    if d.op in ('add', 'sub', 'mul', 'or', 'xor', 'phi', 'freeze'): return any(id_rooted(f, x, seen) for x in d.ops)
    if d.op == 'select': return any(id_rooted(f, x, seen) for x in d.ops[1:])
    if d.op == 'load':
        sl = chain_slot(f, d.ops[0])
        if sl in COUNTS or sl and sl[0].startswith('ulong_range'): return False
        b = rootv(f, d.ops[0]); bd = f.defs.get(b) if isinstance(b, str) else None
        return not (bd is not None and bd.op == 'alloca')
    return False

def only_messages(f, i):
    for u in f.users().get(i.name, ()):
        if u.op in ('zext', 'sext') : 
            if not only_messages(f, u): return False
        elif u.op == 'call' and (cname(f.mod, u) in ('fail', 'diagnostic', 'printf', 'fprintf', 'sprintf', 'warn')): continue
        else: return False
    return True

def wide_params(m, f):
    """pointer parameters declared as pointers to 64-bit integers"""
    out = set()
    sp = m.md.get(f.dbg, '')
    t = re.search(r'type: (!\d+)', sp)
    if not t: return out
    types = m.mdlist(m.mdf(t.group(1), 'types'))[1:]
    for k, ty in enumerate(types):
        if k < len(f.params) and wide_ptr(m, ty): out.add(f.params[k][0])
    return out
def wide_ptr(m, ty, depth=0):
    x = m.md.get(ty, '')
    if depth > 8: return False
    if 'DW_TAG_pointer_type' in x:
        b = m.mdf(ty, 'baseType')
        return b is not None and wide_int(m, b)
    if re.search(r'DW_TAG_(const|restrict|volatile)_type|DW_TAG_typedef', x): return wide_ptr(m, m.mdf(ty, 'baseType'), depth + 1)
    return False
def wide_int(m, ty, depth=0):
    x = m.md.get(ty, '')
    if 'DIBasicType' in x: return 'size: 64' in x and 'DW_ATE_float' not in x
    if depth < 8 and re.search(r'DW_TAG_(const|restrict|volatile)_type|DW_TAG_typedef', x): return wide_int(m, m.mdf(ty, 'baseType'), depth + 1)
    return False

BITS = {'i8': 8, 'i16': 16, 'i32': 32, 'float': 32}
DOMS = {0: 'double', 1: 'float', 2: 'i32', 3: 'i32', 4: 'i64'}     # in this data model

def check(r):
    parallel(part, (['nbc', 'default', 'serial'] if r.tier == 'thorough' else ['nbc', 'serial']) + ['keys'], r)
    r.need('narrowing', 30)

def part(r, cfg):
    if cfg == 'keys': return keys(r)
    m = x32(cfg)
    for f in m.funcs.values():
        wp = wide_params(m, f)
        wpd = deriv(f, wp) if wp else set()
        for i in f.insts():
            file = i.where.split(':')[0]
            if i.op == 'trunc' and i.extra == 'i64':
                if file in DATA_FILES: r.ok('data-kernel'); continue
                if small(f, i.ops[0]) or only_messages(f, i): r.ok('narrowing')
                else: r.bad('narrowing', f'{src(f)}', i.where, f'{src(f)}: a 64-bit value is cut to {i.ty} without having been reduced to fit (identifiers that differ only in their upper bits become equal)')
            elif i.op in ('sitofp', 'uitofp') and i.extra == 'i64' and file not in DATA_FILES:
                if id_rooted(f, i.ops[0]): r.bad('narrowing', f'{src(f)}:fp', i.where, f'{src(f)}: an identifier is converted to {i.ty}: large identifiers are rounded')
                else: r.ok('narrowing')
            elif i.op in ('load', 'store') and i.ty in BITS and file not in DATA_FILES:
                a = i.ops[0 if i.op == 'load' else 1]
                if not isinstance(a, str): continue
                w = None
                if a in wpd: w = 'an array of 64-bit integers'
                else:
                    d = f.defs.get(a)
                    if d is not None and d.op == 'getelementptr':
                        ty = field_type(m, d)
                        if ty == 'i64': w = f'the 64-bit field {".".join(map(str, slot_of(m, d)))}'
                if w: r.bad('narrow-access', f'{src(f)}', i.where, f'{src(f)}: {w} is accessed as {i.ty}')
            elif i.op in ('load', 'store') and i.ty == 'i64': r.ok('full-access')
            elif i.op == 'call' and cname(m, i) in ('comm_scan', 'comm_allreduce', 'comm_iallreduce'):
                n = cname(m, i)
                for dk, bk in {'comm_scan': ((2, 4), (2, 0)), 'comm_allreduce': ((1, 3),), 'comm_iallreduce': ((2, 4),)}[n]:
                    dom = i.ops[dk]
                    if not isinstance(dom, int): continue
                    b = rootv(f, i.ops[bk]) if isinstance(i.ops[bk], str) else None
                    al = f.defs.get(b) if b else None
                    if al is None or al.op != 'alloca': continue
                    t = al.ty
                    while isinstance(t, tuple) and t[0] == 'arr': t = t[2]
                    if t == 'ptr' or isinstance(t, tuple) or str(t).startswith('%'): continue
                    if DOMS.get(dom) == t: r.ok('reduction-type')
                    else: r.bad('reduction-type', f'{src(f)}:{n}', i.where, f'{src(f)}: {n} is told the data is {["double","float","int","long","long long"][dom] if dom < 5 else dom} but its buffer holds {t}')

def field_type(m, gep):
    t = gep.extra
    for k, v in enumerate(gep.ops[2:]):
        rt = m.resolve(t)
        if isinstance(rt, tuple) and rt[0] == 'st': t = rt[1][v]
        elif isinstance(rt, tuple): t = rt[2]
    return t if slot_of(m, gep) else None

def keys(r):
    bad, n = witness.sort_fields()
    r.ok('sort-keys', max(0, n - len(bad)))
    for u, w, msg in bad:
        k = re.search(r'SORTWIDTH ([^"]*)', msg)
        r.bad('sort-keys', f'{u}:{k.group(1) if k else msg[:60]}', w, f'record field sorted at a width other than its own: {k.group(1) if k else msg}')
    # arrays sorted directly: the pointer handed over keeps its element type
    import json
    W64 = re.compile(r'^(un)?(signed )?long long \*$|^unsigned long long \*$')
    from concurrent.futures import ThreadPoolExecutor
    def one(u):
        out = []; cnt = [0]
        def walk(n, st):
            if not isinstance(n, dict): return
            k = n.get('kind')
            if k == 'FunctionDecl': st = n.get('name')
            if k in ('ImplicitCastExpr', 'CStyleCastExpr') and n.get('inner'):
                s, d = ty(n['inner'][0]), ty(n)
                if W64.match(s) and d != s:
                    if re.match(r'^(unsigned |signed )?(int|short|char|long) ?\*$|^(float|double) \*$', d) and 'long long' not in d and 'char' not in d: out.append((st, s, d))
                    else: cnt[0] += 1
            for c in n.get('inner', []): walk(c, st)
        walk(build.ast(u, 'nbc'), None)
        return u, out, cnt[0]
    us = [u for u in build.units() if u in ('gs.c', 'findpts.c', 'fcrystal.c', 'sarray_transfer.c', 'sarray_sort.c', 'sort.c')] or build.units()
    for u in us:
        u, out, c = one(u)
        r.ok('pointer-casts', c)
        for st, s, d in out: r.bad('pointer-casts', f'{st}', u, f'{st}: a pointer to 64-bit identifiers ({s.strip()}) is converted to {d.strip()}')
def ty(n):
    t = n.get('type', {})
    return (t.get('desugaredQualType') or t.get('qualType') or '').replace('const ', '').replace('volatile ', '').replace('restrict', '').replace('*const', '*').strip().replace('  ', ' ')
