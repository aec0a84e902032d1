"""C13: the C quantizer."""
from vc.contract import *

LIM = 32767
UNDER = spec.Fold('q_under', lambda v, s, k: If(lt(mul(v[k], s), -LIM), 1, 0), real=False)
OVER = spec.Fold('q_over', lambda v, s, k: If(gt(mul(v[k], s), LIM), 1, 0), real=False)


def quant(x):
    return If(lt(x, -LIM), -LIM, If(gt(x, LIM), LIM, T.trunc(x)))


def qdef(o, x):
    """o is the saturated truncation of x, stated without the truncation function."""
    if not T.isz(o) and not T.isz(x): return o == quant(x)
    x = T.zr(x)
    return z3.And(z3.Implies(x < -LIM, o == -LIM), z3.Implies(x > LIM, o == LIM),
                  z3.Implies(z3.And(x >= 0, x <= LIM), z3.And(z3.ToReal(o) <= x, x < z3.ToReal(o) + 1)),
                  z3.Implies(z3.And(x < 0, x >= -LIM), z3.And(z3.ToReal(o) >= x, x > z3.ToReal(o) - 1)))


class Check(Contract):
    fn = 'eml_quantizer_check_forward_int16'
    args = ['q', 'v', 'n', 'out', 'm', 'u', 'o']
    shape = dict(q=P(1), v=P(lambda c, o: c.n), out=P(lambda c, o: c.m), u=P(1), o=P(1))
    props = ('C13',)

    def ok(self, c): return eq(c.n, c.m)
    def assigns(self, c):
        k = If(self.ok(c), 1, 0)
        return [(c.out, 0, If(self.ok(c), c.m, 0)), (c.u, 0, k), (c.o, 0, k)]

    def ensures(self, c):
        ok, s = self.ok(c), c.q.scale
        out, v = c.post(c.out), c.v
        yield 'length mismatch is an error', iff(eq(c.ret, c.E('EmlOk')), ok)
        yield 'the error is EmlSizeMismatch', Or(ok, eq(c.ret, c.E('EmlSizeMismatch')))
        yield 'every element scaled, saturated, truncated', Implies(ok, forall(0, c.n, lambda j: qdef(out[j], mul(v[j], s))))
        yield 'underflows counted', Implies(ok, Or(lt(c.n, 0), eq(c.post(c.u)[0], UNDER(0, c.n, v.ref(), s))))
        yield 'overflows counted', Implies(ok, Or(lt(c.n, 0), eq(c.post(c.o)[0], OVER(0, c.n, v.ref(), s))))

    def invs(self, c, L):
        s = c.q.scale
        out = L.cur(c.out)
        for i in L.ints:
            yield 'elements', forall(0, i, lambda j: qdef(out[j], mul(c.v[j], s)))
            for u in L.ints:
                if u is i: continue
                yield 'under', eq(u, UNDER(0, i, c.v.ref(), s))
                yield 'over', eq(u, OVER(0, i, c.v.ref(), s))

    def gen(self, r):
        n = r.int(0, 6)
        m = r.pick([n, n, n, n + 1])
        sc = r.pick([1, 2, Fraction(1, 2), 1024, Fraction(-1, 2)])
        vals = [r.pick([r.real(), Fraction(LIM, 1) / sc, Fraction(-LIM, 1) / sc, Fraction(LIM + 1) / sc, Fraction(-LIM - 1) / sc, Fraction(2 * LIM + 1, 2) / sc, Fraction(3, 4) / sc, Fraction(-3, 4) / sc, 100000, -100000]) for _ in range(n)]
        return dict(q=[dict(scale=sc)], v=[f32(x) for x in vals], n=n, out=r.ints(m), m=m, u=[r.int(-5, 5)], o=[r.int(-5, 5)])


class Forward(Contract):
    fn = 'eml_quantizer_forward_int16'
    args = ['q', 'v', 'n', 'out', 'm']
    shape = dict(q=P(1), v=P(lambda c, o: c.n), out=P(lambda c, o: c.m))
    props = ('C13',)
    ok = Check.ok
    def assigns(self, c): return [(c.out, 0, If(self.ok(c), c.m, 0))]

    def ensures(self, c):
        ok, s = self.ok(c), c.q.scale
        out, v = c.post(c.out), c.v
        yield 'mismatch is an error', iff(eq(c.ret, c.E('EmlOk')), ok)
        yield 'every element scaled, saturated, truncated', Implies(ok, forall(0, c.n, lambda j: qdef(out[j], mul(v[j], s))))

    def gen(self, r):
        d = Check().gen(r)
        del d['u'], d['o']
        return d


class Inverse(Contract):
    fn = 'eml_quantizer_inverse_int16'
    args = ['q', 'v', 'n', 'out', 'm']
    shape = dict(q=P(1), v=P(lambda c, o: c.n), out=P(lambda c, o: c.m))
    props = ('C13',)
    check_fdiv = True
    ok = Check.ok
    def requires(self, c): return [('scale is not zero', ne(c.q.scale, 0))]
    def assigns(self, c): return [(c.out, 0, If(self.ok(c), c.m, 0))]

    def ensures(self, c):
        ok, s = self.ok(c), c.q.scale
        out, v = c.post(c.out), c.v
        yield 'mismatch is an error', iff(eq(c.ret, c.E('EmlOk')), ok)
        yield 'every element divided by the scale', Implies(ok, forall(0, c.n, lambda j: req(out[j], T.div_real(v[j], s))))

    def invs(self, c, L):
        out = L.cur(c.out)
        for i in L.ints: yield 'elements', forall(0, i, lambda j: req(out[j], T.div_real(c.v[j], c.q.scale)))

    def gen(self, r):
        n = r.int(0, 6)
        m = r.pick([n, n, n, n + 1])
        return dict(q=[dict(scale=r.pick([1, 2, Fraction(1, 2), 1024, Fraction(-1, 2)]))], v=r.ints(n, -32768, 32767), n=n, out=r.reals(m), m=m)


CONTRACTS = [Check(), Forward(), Inverse()]
