"""C24: fixed-point conversion and the Quantizer, for a generic element of the array."""
import z3
from vc import py
from vc.py import P, Sym, Vec, num, zb, POW2

INTS = {'int8': 127, 'int16': 32767, 'int32': 2147483647, 'i4': 2147483647, 'uint8': 255}


def vec(sort=None, name='x'):
    n, k = z3.Int('n'), z3.Int('k')
    f = z3.Function(name, z3.IntSort(), z3.RealSort() if sort is None else sort)
    P().assume(z3.And(k >= 0, k < n))
    P().__dict__['idx'] = [Sym(k)]
    return Vec(Sym(n), lambda i: Sym(f(num(i))), py.DType('float64' if sort is None else 'int64')), f(k), Sym(k), n


def absr(e): return z3.If(e >= 0, e, -e)
def real(e): return z3.ToReal(e) if e.sort() == z3.IntSort() else e


def contracts():
    out = []
    def fmt(m):
        fb, ib = z3.Int('fraction_bits'), z3.Int('integer_bits')
        P().assume(z3.And(fb >= 0, ib >= 0))
        d = z3.ToReal(POW2(fb))
        P().assume(d >= 1)
        return m.FixedPointFormat(integer_bits=Sym(ib), fraction_bits=Sym(fb)), d

    def truncated(q, t):
        """q is t truncated towards zero"""
        return z3.And(absr(q) <= absr(t), absr(t) - absr(q) < 1, z3.Implies(q > 0, t > 0), z3.Implies(q < 0, t < 0))

    def from_float():
        m = py.Loader().load('emlearn.fixedpoint')
        F, d = fmt(m)
        X, x, k, n = vec()
        P().assume(absr(x) * d < z3.RealVal(2 ** 62))
        o = py.call(m.from_float, X, F)
        P().oblige('no exception', o.exc is None)
        if o.exc is not None: return
        y = num(o.value.f(k))
        P().oblige('one number per number', num(o.value.n) == n)
        P().oblige('the result is an integer', y.sort() == z3.IntSort())
        t = z3.Real('scaled')
        P().assume(t == x * d)
        P().oblige('x * 2^fraction_bits truncated towards zero', truncated(real(y), t))
        b = py.call(m.to_float, o.value, F)
        P().oblige('no exception converting back', b.exc is None)
        if b.exc is None:
            z = real(num(b.value.f(k)))
            P().oblige('the converted value is the integer times the resolution', z * d == real(y))
            P().oblige('within one resolution step after converting back', z3.And((z - x) * d < 1, (x - z) * d < 1))
    out.append(('fixedpoint.from_float', from_float))

    def to_float():
        m = py.Loader().load('emlearn.fixedpoint')
        F, d = fmt(m)
        X, y, k, n = vec(z3.IntSort(), 'y')
        P().assume(z3.And(y < 2 ** 62, y > -2 ** 62))
        o = py.call(m.to_float, X, F)
        P().oblige('no exception', o.exc is None)
        if o.exc is not None: return
        P().oblige('the integer times the resolution', real(num(o.value.f(k))) * d == real(y))
        P().oblige('one number per number', num(o.value.n) == n)
        b = py.call(m.from_float, o.value, F)
        P().oblige('no exception converting back', b.exc is None)
        if b.exc is None: P().oblige('converting back gives the same integer', num(b.value.f(k)) == y)
    out.append(('fixedpoint.to_float', to_float))

    def total():
        m = py.Loader().load('emlearn.fixedpoint')
        i, f = z3.Int('i'), z3.Int('f')
        o = py.call(lambda: m.FixedPointFormat(integer_bits=Sym(i), fraction_bits=Sym(f)).total_bits)
        P().oblige('no exception', o.exc is None)
        if o.exc is None: P().oblige('total bits', num(o.value) == i + f + 1)
    out.append(('fixedpoint.FixedPointFormat.total_bits', total))

    def quantizer(dt, kw):
        m = py.Loader().load('emlearn.preprocessing.quantizer')
        q = m.Quantizer(dtype=dt, **kw)
        return q, (z3.RealVal(INTS[dt]) if 'out_max' not in kw else real(num(kw['out_max'])))

    def transform(dt, custom):
        def g():
            kw = {}
            if custom:
                om = z3.Int('out_max')
                P().assume(z3.And(om > 0, om <= INTS[dt]))
                kw['out_max'] = Sym(om)
            q, M = quantizer(dt, kw)
            s = z3.Real('scale')
            P().assume(s > 0)
            q.scale_ = Sym(s)
            X, x, k, n = vec()
            t = z3.Real('scaled')
            P().assume(t == x * s)
            if dt.startswith('u'): P().assume(t > -1)
            o = py.call(q.transform, X)
            P().oblige('no exception', o.exc is None)
            if o.exc is not None: return
            y = num(o.value.f(k))
            P().oblige('the result is an integer', y.sort() == z3.IntSort())
            y = real(y)
            P().oblige('values above the limit give the limit', z3.Implies(t >= M, y == M))
            P().oblige('values below the negative limit give the negative limit', z3.Implies(t <= -M, y == -M))
            P().oblige('other values are scaled and truncated towards zero', z3.Implies(z3.And(t < M, t > -M), truncated(y, t)))
            P().oblige('type of the result', o.value.dtype == py.DType(py.ALIAS.get(dt, dt)))
            b = py.call(q.inverse_transform, o.value)
            P().oblige('no exception inverting', b.exc is None)
            if b.exc is None:
                z = real(num(b.value.f(k)))
                P().oblige('the inverse divides by the scale', z * s == y)
                P().oblige('in-range values come back within one step', z3.Implies(z3.And(t <= M, t >= -M), z3.And((z - x) * s < 1, (x - z) * s < 1)))
        return g
    for dt in ('int8', 'int16', 'int32', 'i4'):
        out.append(('Quantizer.transform (%s)' % dt, transform(dt, False)))
    out.append(('Quantizer.transform (int16, own limit)', transform('int16', True)))

    def inverse(dt):
        def g():
            q, M = quantizer(dt, {})
            s = z3.Real('scale')
            P().assume(s > 0)
            q.scale_ = Sym(s)
            X, y, k, n = vec(z3.IntSort(), 'y')
            P().assume(z3.And(real(y) <= M, real(y) >= -M))
            o = py.call(q.inverse_transform, X)
            P().oblige('no exception', o.exc is None)
            if o.exc is None: P().oblige('the integer divided by the scale', real(num(o.value.f(k))) * s == real(y))
        return g
    for dt in ('int8', 'int16', 'int32'): out.append(('Quantizer.inverse_transform (%s)' % dt, inverse(dt)))

    def fit(mode):
        def g():
            kw = dict(max_quantile=None) if mode == 'extremes' else {}
            if mode == 'given':
                mv = z3.Real('max_value')
                P().assume(mv > 0)
                kw['max_value'] = Sym(mv)
            q, M = quantizer('int16', kw)
            X, x, k, n = vec()
            f = X.f
            P().assume(num(f(Sym(z3.IntVal(0)))) != 0)
            P().idx.append(Sym(z3.IntVal(0)))
            o = py.call(q.fit, X)
            P().oblige('no exception', o.exc is None)
            if o.exc is not None: return
            P().oblige('fit returns the estimator', o.value is q)
            s = real(num(q.scale_))
            if mode == 'given': P().oblige('the scale maps max_value to the limit', s * mv == M)
            if mode == 'extremes':
                P().oblige('the scale is positive', s > 0)
                P().oblige('the scale maps every fitted value into the target range', z3.And(x * s <= M, x * s >= -M))
        return g
    out.append(('Quantizer.fit (max_value given)', fit('given')))
    out.append(('Quantizer.fit (extremes)', fit('extremes')))
    return out


def run(tier, seed, secs):
    res = [py.verify(n, f) for n, f in contracts()]
    dyn = py.rundyn('C24', tier, seed, 60 if tier == 'quick' else 300)
    out = py.collect(res, dyn, ['numpy.clip, astype, elementwise arithmetic, numpy.min/max', 'floating-point arithmetic is real arithmetic (single-precision inputs are executed)'])
    out['bounded'].append(dict(fn='Quantizer.fit (quantiles)', why='numpy.quantile is only executed'))
    return out


def replay(x): return py.rundyn('C24', 'quick', 1, 60, replay=x)['replay']
