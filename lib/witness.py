"""compile-fail witnesses shared by several properties"""
import os, re, shutil, subprocess, glob
import build
from concurrent.futures import ThreadPoolExecutor

SORT_SHIM = r'''
/* appended by the verification: a field sorted at a width other than its own does not compile */
#undef sarray_sort_field
#define sarray_sort_field(T,A,n, field,is_long, buf,keep) do { \
  _Static_assert(_Generic(((T*)0)->field, uint: 1, sint: 1, default: 0) * ((is_long)==0) + \
                 _Generic(((T*)0)->field, ulong: 1, slong: 1, default: 0) * ((is_long)==1) + \
                 _Generic(((T*)0)->field, float: 1, default: 0) * ((is_long)==2) + \
                 _Generic(((T*)0)->field, double: 1, default: 0) * ((is_long)==3) > 0, \
                 "SORTWIDTH " #T "." #field " sorted as " #is_long); \
  const T *check_array_ = (A); (void)check_array_; (void)(buf); (void)(keep); (void)(n); \
} while(0)
'''

def sort_fields(cfg='nbc'):
    """-> (violations [(unit, line, message)], number of sorted fields checked)"""
    bad = []; n = 0
    with build.Scratch() as d:
        s = d + '/src'; os.mkdir(s)
        for f in glob.glob(build.SRC + '/*.[ch]'): shutil.copy(f, s)
        h = s + '/sarray_sort.h'
        t = open(h).read()
        k = t.rstrip().rfind('#endif')
        open(h, 'w').write(t[:k] + SORT_SHIM + t[k:])
        inc = [x if x != '-I' + build.SRC else '-I' + s for x in build.incs()]
        us = [u for u in build.units() if 'sarray_sort' in open(f'{s}/{u}').read() or 'sarray_sort' in ''.join(open(x).read() for x in glob.glob(s + '/*_imp.h'))]
        def one(u):
            p = subprocess.run([build.CLANG, '-fsyntax-only', '-w', '-ferror-limit=0', '-Werror=incompatible-pointer-types', '-std=gnu11', *inc, *build.CONFIGS[cfg], f'{s}/{u}'], capture_output=True, text=True)
            pre = subprocess.run([build.CLANG, '-E', '-P', '-w', '-std=gnu11', *inc, *build.CONFIGS[cfg], f'{s}/{u}'], capture_output=True, text=True).stdout
            return u, p.stderr, len(re.findall(r'"SORTWIDTH ', pre))
        with ThreadPoolExecutor(8) as ex:
            for u, err, k in ex.map(one, us):
                n += k
                for m in re.finditer(r'^(\S+?):(\d+):\d+: error: (.*)', err, re.M):
                    bad.append((u, f'{os.path.basename(m.group(1))}:{m.group(2)}', m.group(3)))
    return bad, n
