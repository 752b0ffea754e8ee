"""P14: every integer-width configuration compiles, links and denotes the widths it should"""
import re, subprocess, os
import build
from concurrent.futures import ThreadPoolExecutor
EXPLANATION = ('Every library unit is compiled in the combinations of local and global integer width with the type-confusion diagnostics as errors; '
  'every library name referenced must be defined in that configuration; a witness unit (witness/widths.c) made of static assertions over types must compile, '
  'and its probes must fold to the sort entry points and sizes of the right width.')
W = {'int': ('int', []), 'long': ('long', ['-DGSLIB_USE_LONG']), 'llong': ('long long', ['-DGSLIB_USE_LONG_LONG'])}
G = {'int': ('int', []), 'long': ('long', ['-DGSLIB_USE_GLOBAL_LONG']), 'llong': ('long long', ['-DGSLIB_USE_GLOBAL_LONG_LONG'])}
ERR = ['-Wno-everything', '-Werror=incompatible-pointer-types', '-Werror=int-conversion', '-Werror=implicit-function-declaration',
       '-Werror=incompatible-function-pointer-types', '-Werror=format', '-Werror=implicit-int', '-Werror=return-type']
BASE = ['-DGSLIB_UNDERSCORE', '-DGSLIB_PREFIX=gslib_', '-DGSLIB_FPREFIX=fgslib_']
KIND = {'mpi': ['-DGSLIB_USE_MPI', '-DGSLIB_USE_NBC', '-DGSLIB_USE_NAIVE_BLAS'], 'serial': ['-DGSLIB_USE_NAIVE_BLAS'], 'cblas': ['-DGSLIB_USE_MPI', '-DGSLIB_USE_CBLAS']}
SORT = {'int': 'ui', 'long': 'ul', 'llong': 'ull'}
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def comp(args):
    path, fl, opt = args
    p = subprocess.run([build.CLANG, opt, *ERR, '-ferror-limit=3', '-std=gnu11', '-S', '-emit-llvm', *build.incs(), *fl, path, '-o', '-'], capture_output=True, text=True)
    return p.returncode, p.stdout, p.stderr

def check(r):
    jobs = []
    for k, kf in KIND.items():
        for l, (lt, lf) in W.items():
            for g, (gt, gf) in G.items():
                if r.tier == 'quick' and k == 'cblas' and (l, g) != ('int', 'llong'): continue
                fl = BASE + kf + lf + gf
                for u in build.units(): jobs.append((k, l, g, u, (f'{build.SRC}/{u}', fl, '-O0')))
                jobs.append((k, l, g, 'widths.c', (HERE + '/witness/widths.c', fl + [f'-DLOCAL_T={lt}', f'-DGLOBAL_T={gt}'], '-O2')))
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(comp, [j[4] for j in jobs]))
    defs, refs = {}, {}
    for (k, l, g, u, _), (rc, out, err) in zip(jobs, res):
        c = f'{k}, local {l}, global {g}'
        if rc:
            m = re.search(r'^(\S+?):(\d+):\d+: (?:fatal )?error: (.*)', err, re.M)
            f, ln, msg = (os.path.basename(m.group(1)), m.group(2), m.group(3)) if m else (u, '?', err[-300:])
            rule = 'witness' if u == 'widths.c' else 'compiles'
            r.bad(rule, f'{u}:{re.sub(r"[^A-Za-z_ ]", "", msg)[:60]}', f'{f}:{ln}', f'configuration {c}: {msg}')
            continue
        r.ok('witness' if u == 'widths.c' else 'compiles')
        if u == 'widths.c':
            want = [f'sortp_{SORT[l]}', f'sortp_{SORT[g]}', 'sortp_float', 'sortp_double']
            b = body(out, 'probe_sorts')
            got = [x[6:] for x in re.findall(r'call .*@(gslib_sortp_\w+)\(', b)]
            if got == want: r.ok('sort-dispatch')
            else: r.bad('sort-dispatch', 'sarray_sort', 'sarray_sort.h', f'configuration {c}: sorting fields of type uint, ulong, float, double calls {got} instead of {want}')
            b = body(out, 'probe_sizes')
            nz = [x for x in re.findall(r'store [^,]*?(-?\d+|%[\w.]+|<[^>]*> [^,]*), ptr', b) if x.strip() not in ('0',) and 'zeroinit' not in x]
            if re.search(r'memset[^\n]*i8 0, i64 24|zeroinitializer', b) and not nz or (not nz and b): r.ok('type-sizes')
            else: r.bad('type-sizes', 'gs_dom_size', 'gs_defs.h', f'configuration {c}: the element size kept for a data type differs from the size of its C type')
            continue
        for n in re.findall(r'^define (?!internal)[^@\n]*@(gslib_\w+|fgslib_\w+)\(', out, re.M): defs.setdefault((k, l, g), set()).add(n)
        for n in re.findall(r'^@(gslib_\w+) = (?!external)', out, re.M): defs.setdefault((k, l, g), set()).add(n)
        for n in re.findall(r'^declare [^@\n]*@(f?gslib_\w+)\(', out, re.M) + re.findall(r'^@(gslib_\w+) = external', out, re.M): refs.setdefault((k, l, g), {}).setdefault(n, u)
    failed = {(k, l, g) for (k, l, g, u, _), x in zip(jobs, res) if x[0]}
    for c, rs in refs.items():
        if c in failed: continue
        for n, u in rs.items():
            if n in defs[c]: r.ok('links')
            else: r.bad('links', f'{u}:{n}', u, f'configuration {", ".join(c)}: {n} is used but the library does not define it')
    r.cov['configurations'] = len({j[:3] for j in jobs}); r.cov['units_compiled'] = len(jobs)

def body(t, fn):
    m = re.search(r'^define [^\n]*@' + fn + r'\(.*?^\}', t, re.M | re.S)
    return m.group(0) if m else ''
