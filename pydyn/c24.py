import numpy
from fractions import Fraction as Fr
from emlearn import fixedpoint
from emlearn.preprocessing import Quantizer
from common import main


def tr(f): return int(f)        # Fraction -> towards zero


def check(x):
    if x['kind'] == 'fixed':
        fmt = fixedpoint.FixedPointFormat(integer_bits=x['ib'], fraction_bits=x['fb'])
        if fmt.total_bits != x['ib'] + x['fb'] + 1: return 'total_bits: %r' % fmt.total_bits
        a = numpy.array([float.fromhex(v) for v in x['v']], dtype=x['dtype'])
        f = fixedpoint.from_float(a, fmt=fmt)
        if f.shape != a.shape: return 'shape'
        b = fixedpoint.to_float(f, fmt=fmt)
        for u, v, w in zip(a.tolist(), f.tolist(), b.tolist()):
            if v != tr(Fr(u) * 2 ** x['fb']): return 'from_float: %r -> %r with %d fraction bits' % (u, v, x['fb'])
            if abs(Fr(w) - Fr(u)) >= Fr(1, 2 ** x['fb']): return 'to_float: %r -> %r -> %r' % (u, v, w)
        ints = numpy.array(x['ints'], dtype=numpy.int64)
        back = fixedpoint.from_float(fixedpoint.to_float(ints, fmt=fmt), fmt=fmt)
        if back.tolist() != ints.tolist(): return 'to_float: %r comes back as %r' % (ints.tolist(), back.tolist())
        return
    X = numpy.array(x['X'], dtype=x['xdtype'])
    kw = {k: x[k] for k in ('max_quantile', 'max_value', 'out_max') if k in x}
    q = Quantizer(dtype=x['dtype'], **kw)
    q.fit(X)
    dt = numpy.dtype(x['dtype'])
    M = x.get('out_max') or (numpy.iinfo(dt).max if dt.kind in 'iu' else float(numpy.finfo(dt).max))
    s = float(q.scale_)
    if 'max_value' in x and abs(s * x['max_value'] - M) > 1e-6 * M: return 'fit: scale %r for max_value %r' % (s, x['max_value'])
    if 'max_value' not in x and kw.get('max_quantile', 0) is None:
        big = float(numpy.max(numpy.abs(X.astype(float))))
        if abs(s * big - M) > 1e-5 * M: return 'fit: scale %r for data up to %r' % (s, big)
    if 'max_value' not in x and kw.get('max_quantile', 0) is not None:
        mq = kw.get('max_quantile', 0.0001)
        big = float(max(numpy.quantile(X, 1 - mq), -numpy.quantile(X, mq)))
        if abs(s * big - M) > 1e-5 * M: return 'fit: scale %r for quantile %r' % (s, big)
    out = q.transform(X)
    if out.dtype != dt or out.shape != X.shape: return 'transform: %s %s' % (out.dtype, out.shape)
    inv = q.inverse_transform(out)
    rel = 1e-5 if x['xdtype'] == 'float32' else 1e-9
    if dt.kind == 'f': rel = 2e-3
    for u, v, w in zip(X.reshape(-1).tolist(), out.reshape(-1).tolist(), inv.reshape(-1).tolist()):
        t = Fr(u) * Fr(s)
        c = max(Fr(-M), min(Fr(M), t))
        tol = abs(c) * Fr(rel) + Fr(1, 10 ** 6)
        if dt.kind in 'iu':
            if not -M <= v <= M: return 'transform: %r -> %r' % (u, v)
            if not tr(c - tol) <= v <= tr(c + tol): return 'transform: %r -> %r, scale %r' % (u, v, s)
        elif abs(v - c) > tol: return 'transform: %r -> %r, scale %r' % (u, v, s)
        if abs(t) <= M:
            lim = (1 + tol if dt.kind in 'iu' else tol) / Fr(s) * (1 + Fr(1, 1000))
            if abs(Fr(w) - Fr(u)) > lim: return 'inverse: %r -> %r -> %r' % (u, v, w)
        elif abs(abs(w) * s - M) > max(tol, Fr(1, 1000)) * 2 or (w > 0) != (u > 0): return 'inverse: clipped %r -> %r -> %r' % (u, v, w)


def gen(tier, rng):
    for fb in (0, 1, 7, 8, 15, 16, 23, 24, 31):
        ib = 31 - fb
        vs = [0.0, 1.0, -1.0, .5, -.5, .75, -.75, 2.0 ** -fb, -2.0 ** -fb, 1.5 * 2.0 ** -fb, -1.5 * 2.0 ** -fb, .99 * 2.0 ** -fb, -.99 * 2.0 ** -fb, 2.0 ** ib - 1, -2.0 ** ib, 1 / 3, -1 / 3, 2.0 ** ib - 2.0 ** -fb]
        for dt in ('float64', 'float32'): yield dict(kind='fixed', ib=ib, fb=fb, dtype=dt, v=[v.hex() for v in vs], ints=[0, 1, -1, 2 ** 31 - 1, -2 ** 31, 12345, -54321])
    for dt in ('int8', 'int16', 'int32', 'i4'):
        for xd in ('float64', 'float32'):
            yield dict(kind='q', dtype=dt, xdtype=xd, max_value=9.0, X=[[-100, -10, -9, -8.999, -1, -.5, 0, .5, 1, 8.999, 9, 10, 1000]])
            yield dict(kind='q', dtype=dt, xdtype=xd, max_quantile=None, X=[[-3.0, 1.0], [2.0, .25]])
            yield dict(kind='q', dtype=dt, xdtype=xd, max_quantile=None, X=[[-1.0, 1.5], [2.0, .25]])
            yield dict(kind='q', dtype=dt, xdtype=xd, X=[[-3.0, 1.0], [2.0, .25]])
            yield dict(kind='q', dtype=dt, xdtype=xd, max_quantile=.1, X=[[float(i * i % 17) - 5] for i in range(40)])
        yield dict(kind='q', dtype=dt, xdtype='int64', max_value=100, X=[[-300, -100, -99, 0, 1, 99, 100, 300]])
        if dt.startswith('i'): yield dict(kind='q', dtype=dt, xdtype='float64', max_value=2.0, out_max=100, X=[[-3, -2, -1.999, 0, .011, 1.999, 2, 3]])
    for _ in range(400 if tier == 'quick' else 20000):
        sc = 10 ** rng.uniform(-6, 6)
        X = [[rng.gauss(0, sc) for _ in range(rng.randint(1, 6))]]
        d = dict(kind='q', dtype=rng.choice(['int8', 'int16', 'int32']), xdtype=rng.choice(['float64', 'float32']), X=X)
        r = rng.random()
        if r < .4: d['max_value'] = sc * rng.uniform(.1, 3)
        elif r < .7: d['max_quantile'] = None
        yield d
        fb = rng.randint(0, 31)
        vs = [rng.uniform(-1, 1) * 2.0 ** rng.randint(-fb, 31 - fb) for _ in range(5)]
        yield dict(kind='fixed', ib=31 - fb, fb=fb, dtype='float64', v=[v.hex() for v in vs], ints=[rng.randint(-2 ** 31, 2 ** 31 - 1) for _ in range(5)])


if __name__ == '__main__': main(gen, check)
