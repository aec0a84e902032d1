"""Compiles C code against /repo's headers for the bounded parts."""
import ctypes, os, subprocess, tempfile, itertools
INC = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'emlearn')
_n = itertools.count()
_dir = tempfile.TemporaryDirectory(prefix='cc_')


def lib(code, flags=()):
    k = next(_n)
    src, out = os.path.join(_dir.name, 'm%d.c' % k), os.path.join(_dir.name, 'm%d.so' % k)
    open(src, 'w').write(code)
    r = subprocess.run(['gcc', '-O1', '-w', '-std=gnu99', '-shared', '-fPIC', '-ffp-contract=off', '-I', INC, *flags, src, '-o', out, '-lm'], capture_output=True, text=True)
    if r.returncode: return None, r.stderr[:1500]
    return ctypes.CDLL(out), None


def arr(t, xs): return (t * max(1, len(xs)))(*xs)
def floats(xs): return arr(ctypes.c_float, [float(x) for x in xs])
def ints(xs): return arr(ctypes.c_int, [int(x) for x in xs])
