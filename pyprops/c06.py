"""C06: quantization of class proportions into bytes, for a generic element of the array."""
import z3
from vc import py
from vc.py import P, Sym, Vec, num, zb
import itertools


def setup(bits):
    m = py.Loader().load('emlearn.trees')
    n, i, j = z3.Int('n'), z3.Int('i'), z3.Int('j')
    f = z3.Function('p', z3.IntSort(), z3.RealSort())
    inr = lambda k: z3.And(f(num(k)) >= 0, f(num(k)) <= 1)
    P().assume(z3.And(i >= 0, i < n, j >= 0, j < n, inr(i), inr(j)))
    P().__dict__['idx'] = [Sym(i), Sym(j)]
    P().__dict__['generic'] = [inr]
    o = py.call(m.quantize_probabilities_into_byte, Vec(Sym(n), lambda k: Sym(f(num(k)))), bits=bits)
    P().oblige('proportions in [0,1] are not refused', o.exc is None)
    return o, f, n, i, j


def contracts():
    out = []
    def value(bits):
        def g():
            o, f, n, i, j = setup(bits)
            if o.exc is not None: return
            P().oblige('one byte per proportion', num(o.value.n) == n)
            q, r = num(o.value.f(Sym(i))), num(o.value.f(Sym(j)))
            P().oblige('the result is an integer', q.sort() == z3.IntSort())
            q = z3.ToReal(q) if q.sort() == z3.IntSort() else q
            r = z3.ToReal(r) if r.sort() == z3.IntSort() else r
            x, lim = f(i), z3.RealVal(255) / (2 * (2 ** bits - 2)) + 1
            P().oblige('in 0..255', z3.And(q >= 0, q <= 255))
            P().oblige('within half a level plus one of 255 times the proportion', z3.And(q - 255 * x < lim, 255 * x - q < lim))
            P().oblige('monotone', z3.Implies(f(i) <= f(j), q <= r))
            P().oblige('0 gives 0', z3.Implies(x == 0, q == 0))
            P().oblige('1 gives 255', z3.Implies(x == 1, q == 255))
            s = z3.Solver()
            s.set('timeout', 3000)
            s.add(*P().pc)
            taken = 0
            for v in range(256):
                s.push()
                s.add(q == v)
                taken += s.check() != z3.unsat
                s.pop()
            P().oblige('at most 2^bits values', taken <= 2 ** bits)
        return g
    for b in range(3, 9): out.append(('trees.quantize_probabilities_into_byte (%d bits)' % b, value(b)))
    return out


def run(tier, seed, secs):
    res = [py.verify(n, f) for n, f in contracts()]
    dyn = py.rundyn('C06', tier, seed, 60 if tier == 'quick' else 300)
    return py.collect(res, dyn, ['numpy.max, numpy.min (bounds attained by an element), numpy.round (to nearest, ties to even), astype (truncation; the value must fit)', 'floating-point arithmetic is real arithmetic (all levels are also executed)'])


def replay(x): return py.rundyn('C06', 'quick', 1, 60, replay=x)['replay']
