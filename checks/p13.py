"""P13: every linkable name carries the configured prefix"""
import re
import build
from concurrent.futures import ThreadPoolExecutor
EXPLANATION = ('Every library unit is compiled to LLVM IR under unusual prefixes and each Fortran naming convention; each definition with '
  'external linkage must carry the C prefix, or the Fortran prefix in the shape of that convention, and each reference to a name of the library must carry it too.')
CP, FP = 'zqx_', 'Zfy_'
BASE = [f'-DGSLIB_PREFIX={CP}', f'-DGSLIB_FPREFIX={FP}', '-DGSLIB_USE_GLOBAL_LONG_LONG']
CONV = {'underscore': (['-DGSLIB_UNDERSCORE'], r'[a-z0-9_]+_'), 'plain': ([], r'[a-z0-9_]*[a-z0-9]'), 'upcase': (['-DGSLIB_UPCASE'], r'[A-Z0-9_]*[A-Z0-9]')}
MPI = ['-DGSLIB_USE_MPI', '-DGSLIB_USE_NBC']
LIBS = [('naive', MPI + ['-DGSLIB_USE_NAIVE_BLAS']), ('cblas', MPI + ['-DGSLIB_USE_CBLAS']), ('fortran-mxm', MPI), ('serial', ['-DGSLIB_USE_NAIVE_BLAS']),
        ('user-exit', MPI + ['-DGSLIB_USE_NAIVE_BLAS', '-DGSLIB_USE_USR_EXIT']), ('no-nbc', ['-DGSLIB_USE_MPI', '-DGSLIB_USE_NAIVE_BLAS'])]
DEF = re.compile(r'^define (?!internal|private|available_externally)[^@\n]*@("[^"]*"|[-\w.$]+)\(', re.M)
GDEF = re.compile(r'^@("[^"]*"|[-\w.$]+) = (?!internal|private|external|available_externally|appending)', re.M)
DECL = re.compile(r'^declare [^@\n]*@("[^"]*"|[-\w.$]+)\(', re.M)
GDECL = re.compile(r'^@("[^"]*"|[-\w.$]+) = external', re.M)

def compile_one(u, fl):
    return build.run([build.CLANG, '-O0', '-w', '-std=gnu11', '-S', '-emit-llvm', *build.incs(), *fl, f'{build.SRC}/{u}', '-o', '-'], 'compile ' + u)

def check(r):
    jobs = []
    for ln, lf in LIBS:
        for cn, (cf, pat) in CONV.items():
            if r.tier == 'quick' and ln in ('no-nbc', 'fortran-mxm') and cn != 'underscore': continue
            for u in build.units(): jobs.append((ln, cn, pat, u, BASE + lf + cf))
    with ThreadPoolExecutor(8) as ex: irs = list(ex.map(lambda j: compile_one(j[3], j[4]), jobs))
    defs = {}; per = {}
    for (ln, cn, pat, u, fl), t in zip(jobs, irs):
        for n in DEF.findall(t) + GDEF.findall(t):
            n = n.strip('"')
            if n.startswith('llvm.') or n.startswith('.str'): continue
            per.setdefault((ln, cn), {})[n] = u
    for (ln, cn), ds in per.items():
        pat = CONV[cn][1]
        for n, u in ds.items():
            if n.startswith(CP): r.ok('c-prefix')
            elif n.startswith(FP) and re.fullmatch(pat, n[len(FP):]): r.ok('fortran-prefix')
            elif n.startswith(FP): r.bad('fortran-prefix', f'{u}:{n[len(FP):].lower().rstrip("_")}', u, f'{n} is exported in a shape that is not the {cn} naming convention')
            else: r.bad('c-prefix', f'{u}:{n}', u, f'{n} is exported without the configured prefix (configuration {ln}, {cn}): it clashes with any other code that uses the name')
    # the same Fortran routines exist under every convention
    for ln, _ in LIBS:
        sets = {cn: {n[len(FP):].lower().rstrip('_') for n in per.get((ln, cn), {}) if n.startswith(FP)} for cn in CONV if (ln, cn) in per}
        base = set().union(*sets.values())
        for cn, x in sets.items():
            for n in sorted(base):
                if n in x: r.ok('conventions-agree')
                else: r.bad('conventions-agree', f'{n}:{cn}', 'library', f'Fortran routine {n} does not exist under the {cn} naming convention')
    # references to library names carry the prefix too: an unprefixed reference binds to foreign code
    cnames = {n[len(CP):] for ds in per.values() for n in ds if n.startswith(CP)}
    for (ln, cn, pat, u, fl), t in zip(jobs, irs):
        for n in DECL.findall(t) + GDECL.findall(t):
            n = n.strip('"')
            if n in cnames: r.bad('references', f'{u}:{n}', u, f'{n} is referenced without the configured prefix although the library defines it: the reference binds to other code')
            elif n.startswith(CP):
                if n in per[ln, cn]: r.ok('references')
                else: r.bad('references', f'{u}:{n}', u, f'{n} is referenced but not defined by the library in configuration {ln}, {cn}')
    r.cov['configurations'] = sorted(f'{a}/{b}' for a, b in per)
    r.need('c-prefix', 50); r.need('fortran-prefix', 20)
