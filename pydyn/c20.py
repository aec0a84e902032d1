import numpy, ctypes
from emlearn import signal
from common import main
import cc


def check(x):
    dense = numpy.array(x['m'], dtype=x.get('dtype', 'float64'))
    data = numpy.array(x['x'], dtype='float64')
    want = dense.astype('float64') @ data
    before = dense.copy()
    sparse = signal.sparse_filterbank(dense)
    if not numpy.array_equal(before, dense): return 'frame: the dense matrix was modified'
    starts, ends, coeffs = sparse
    if len(starts) != len(dense) or len(ends) != len(dense): return 'shape: %d starts, %d ends for %d rows' % (len(starts), len(ends), len(dense))
    k = 0
    for i, row in enumerate(dense):
        a, b = int(starts[i]), int(ends[i])
        w = numpy.zeros(len(row))
        if not 0 <= a <= b < len(row): return 'range: row %d has range %d..%d' % (i, a, b)
        if k + b - a + 1 > len(coeffs): return 'coefficients: row %d needs more than the %d coefficients' % (i, len(coeffs))
        w[a:b + 1] = coeffs[k:k + b - a + 1]
        k += b - a + 1
        if not numpy.array_equal(w, row): return 'conversion: row %d is %s, not %s' % (i, w.tolist(), row.tolist())
    if k != len(coeffs): return 'coefficients: %d of %d are not used' % (len(coeffs) - k, len(coeffs))
    got = numpy.asarray(signal.sparse_filterbank_reduce(sparse, data))
    if got.shape != want.shape or not numpy.allclose(got, want, rtol=1e-6, atol=1e-6): return 'python: reduce gives %s, not %s' % (got.tolist(), want.tolist())
    if not x.get('c'): return None
    code = '#include <eml_audio.h>\n' + signal.sparse_filterbank_serialize(sparse, name='fb') + \
        '\nint apply(const float *x, float *o, int n) { return eml_sparse_filterbank(x, o, n, fb_starts, fb_ends, fb_lut); }\nint bands(void) { return fb_bands; }\nint length(void) { return fb_length; }\n'
    L, err = cc.lib(code)
    if L is None: return 'compile: ' + err
    if L.bands() != len(dense) or L.length() != len(coeffs): return 'sizes: the generated code says %d bands, %d coefficients' % (L.bands(), L.length())
    o = cc.floats([7.0] * len(dense))
    e = L.apply(cc.floats(data), o, len(dense))
    if e != 0 or not numpy.allclose(list(o)[:len(dense)], want, rtol=1e-4, atol=1e-4): return 'c: status %d, result %s, not %s' % (e, list(o), want.tolist())


def matrix(rng, n, m):
    out = []
    for _ in range(n):
        row = [0] * m
        a = rng.randint(0, m - 1)
        b = rng.choice([a, m - 1, rng.randint(a, m - 1), rng.randint(a, m - 1)])
        for j in range(a, b + 1): row[j] = rng.choice([0, 0, rng.randint(1, 40) / 8, rng.randint(1, 40) / 8, -rng.randint(1, 9) / 4])
        row[a], row[b] = rng.randint(1, 9) / 4, rng.randint(1, 9) / 4
        out.append(row)
    return out


def gen(tier, rng):
    yield dict(m=[[1, 0, 2]], x=[1, 10, 100], c=1)
    yield dict(m=[[0, 0, 3], [1, 0, 0]], x=[1, 10, 100], c=1)
    for m in ([[2]], [[0, 1, 2, 1, 0, 0], [0, 0, 0, 1, 2, 1]], [[1e-7, 0, 1e-7], [3, 1, 2]]): yield dict(m=m, x=[1000.0 * (i + 1) for i in range(len(m[0]))], c=1)
    for k in range(400 if tier == 'quick' else 8000):
        n, m = rng.randint(1, 6), rng.randint(1, 9)
        yield dict(m=matrix(rng, n, m), x=[rng.randint(-16, 16) / 4 for _ in range(m)], c=int(k % 8 == 0), dtype=rng.choice(['float64', 'float64', 'float32']))


if __name__ == '__main__': main(gen, check)
