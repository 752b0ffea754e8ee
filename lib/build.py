"""Produces the resolved program (LLVM IR / clang AST) from /repo's current
working tree, with the macros of the project's own Makefile configurations."""
import os, re, subprocess, sys, json, tempfile, shutil, glob, hashlib
from concurrent.futures import ThreadPoolExecutor
import ir

REPO = os.environ.get('GSLIB_REPO', '/repo')
SRC = REPO + '/src'
CLANG, OPT, LINK = 'clang-18', 'opt-18', 'llvm-link-18'

class Broken(Exception):
    """the analysis could not be carried out: an error exit, never a verdict"""

def mpi_flags():
    r = subprocess.run(['mpicc.openmpi', '--showme:compile'], capture_output=True, text=True)
    if r.returncode: raise Broken('mpicc.openmpi: ' + r.stderr)
    return r.stdout.split()

BASE = ['-DGSLIB_UNDERSCORE', '-DGSLIB_PREFIX=gslib_', '-DGSLIB_FPREFIX=fgslib_', '-DGSLIB_USE_GLOBAL_LONG_LONG']
CONFIGS = {
    'nbc':     BASE + ['-DGSLIB_USE_MPI', '-DGSLIB_USE_NBC', '-DGSLIB_USE_NAIVE_BLAS'],
    'default': BASE + ['-DGSLIB_USE_MPI', '-DGSLIB_USE_NAIVE_BLAS'],
    'blas':    BASE + ['-DGSLIB_USE_MPI', '-DGSLIB_USE_CBLAS'],
}
GENERATORS = {'gen_poly_imp.c'}          # a stand-alone program, not part of the library

def units():
    u = sorted(os.path.basename(f) for f in glob.glob(SRC + '/*.c'))
    u = [x for x in u if x not in GENERATORS]
    if len(u) < 10: raise Broken(f'only {len(u)} source files in {SRC}')
    return u

def incs():
    flags = mpi_flags() + ['-I' + SRC]
    return flags

def run(cmd, what, inp=None):
    r = subprocess.run(cmd, capture_output=True, text=True, input=inp)
    if r.returncode: raise Broken(f'{what}: {" ".join(cmd[:3])}...\n{r.stderr[-2000:]}')
    return r.stdout

class Scratch:
    def __enter__(s): s.d = tempfile.mkdtemp(prefix='gsa.'); return s.d
    def __exit__(s, *a): shutil.rmtree(s.d, ignore_errors=True)

def compile_units(cfg, d, flags=None, opt='-O1', only=None, extra=()):
    fl = CONFIGS[cfg] if flags is None else flags
    inc = incs()
    us = [u for u in units() if only is None or u in only]
    def one(u):
        o = f'{d}/{u[:-2]}.ll'
        run([CLANG, opt, '-Xclang', '-disable-llvm-passes', '-funroll-loops', '-fno-discard-value-names', '-w', '-g',
             '-std=gnu11', '-S', '-emit-llvm', *inc, *fl, *extra, f'{SRC}/{u}', '-o', o], 'compile ' + u)
        return o
    with ThreadPoolExecutor(8) as ex: return list(ex.map(one, us))

def link(objs, d, passes):
    a = f'{d}/all.ll'
    run([LINK, '-S', *objs, '-o', a], 'link')
    if not passes: return a
    n = f'{d}/norm.ll'
    run([OPT, '-S', '-passes=' + passes, a, '-o', n], 'normalise')
    return n

NORMAL = 'function(mem2reg)'

def module(cfg='default', passes=NORMAL, flags=None, inline=None, keep=None, only=None, helpers=False):
    """whole-program module of one configuration.
    inline(fn_basename, file) -> True: the function's body is placed in its callers first"""
    with Scratch() as d:
        objs = compile_units(cfg, d, flags, only=only)
        a = link(objs, d, None)
        text = open(a).read()
        if helpers:
            text = inline_helpers(text, inline)
            open(a, 'w').write(text)
            passes = 'always-inline,' + passes
        elif inline is not None:
            text = mark_inline(text, inline)
            open(a, 'w').write(text)
            passes = 'always-inline,' + passes
        n = f'{d}/norm.ll'
        passes, *more = passes.split('|')
        run([OPT, '-S', '-passes=' + passes, *more, a, '-o', n], 'normalise')
        m = ir.Module(open(n).read())
        if keep: shutil.copy(n, keep)
    m.cfg = cfg
    return m

def inline_helpers(text, keep=None):
    """internal functions whose address is not taken get the alwaysinline attribute
    (keep(name) -> True: not this one)"""
    names = set(re.findall(r'^define internal [^@\n]*@([-\w.$]+)\(', text, re.M))
    taken = set(re.findall(r'@([-\w.$]+)(?![-\w.$(])', text))
    go = {n for n in names - taken if not (keep and keep(re.sub(r'\.\d+$', '', n)))}
    def fix(m):
        if m.group(1) not in go: return m.group(0)
        return re.sub(r'( #\d+)?( !dbg !\d+)? \{$', lambda k: ' alwaysinline' + (k.group(1) or '') + (k.group(2) or '') + ' {', m.group(0))
    text = re.sub(r'^define internal [^@\n]*@([-\w.$]+)\(.*\{$', fix, text, flags=re.M)
    return text.replace(' noinline ', ' ').replace(' optnone ', ' ')

def mark_inline(text, pred):
    """give every function accepted by pred the alwaysinline attribute"""
    m0 = ir.Module(text)
    ids = set()
    out = []
    for l in text.split('\n'):
        if l.startswith('define'):
            nm = re.search(r'@((?:"[^"]*"|[-\w.$]+))\(', l).group(0)[:-1]
            f = m0.funcs[nm]
            if pred(m0.base(nm), f.file, f):
                # attribute goes after the parameter list
                l = re.sub(r'( #\d+)?( !dbg !\d+)? \{$', lambda m: (' ' + 'alwaysinline' + (m.group(1) or '') + (m.group(2) or '') + ' {'), l)
        out.append(l)
    t = '\n'.join(out)
    # noinline/optnone never appear at -O1, but stay safe
    return t.replace(' noinline ', ' ').replace(' optnone ', ' ')

def ast(unit, cfg='default', flags=None):
    fl = CONFIGS[cfg] if flags is None else flags
    out = run([CLANG, '-fsyntax-only', '-w', '-std=gnu11', '-Xclang', '-ast-dump=json', *incs(), *fl, f'{SRC}/{unit}'], 'ast ' + unit)
    return json.loads(out)
CONFIGS['serial'] = BASE + ['-DGSLIB_USE_NAIVE_BLAS']
ALL = ['nbc', 'default', 'blas', 'serial']
