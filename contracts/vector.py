"""C21 (vectors): assignment, fill, view, mean, window."""
from vc.contract import *
from vc import libc

SUM = spec.Fold('vsum', lambda v, i: v[i])
VEC = lambda const=False: S(data=P(lambda c, o: o.length, const=const))


class Set(Contract):
    fn = 'eml_vector_set'
    args = ['d', 's', 'loc']
    shape = dict(d=VEC(), s=VEC(True))
    props = ('C21',)
    def requires(self, c): return [('lengths', And(ge(c.d.length, 0), ge(c.s.length, 0), le(add(c.s.length, c.loc), 2**31 - 1)))]
    def good(self, c): return And(ge(c.loc, 0), le(add(c.s.length, c.loc), c.d.length))
    def assigns(self, c): return [(c.d.data, c.loc, If(self.good(c), add(c.loc, c.s.length), c.loc))]

    def ensures(self, c):
        d = c.post(c.d.data)
        yield 'fits exactly when 0 is returned', iff(eq(c.ret, 0), self.good(c))
        if not c.symbolic and not self.good(c): return
        yield 'whole source copied', Implies(self.good(c), forall(0, c.s.length, lambda j: req(d[add(c.loc, j)], c.s.data[j])))

    def invs(self, c, L):
        d = L.cur(c.d.data)
        for i in L.ints:
            yield 'copied', forall(c.loc, i, lambda j: req(d[j], c.s.data[sub(j, c.loc)]))
            yield 'copied0', forall(0, i, lambda j: req(d[add(c.loc, j)], c.s.data[j]))

    def gen(self, r):
        n, m = r.int(0, 5), r.int(0, 4)
        return dict(d=dict(data=r.reals(n), length=n), s=dict(data=r.reals(m), length=m), loc=r.pick([0, 0, n - m, n - m, n - m + 1, -1, r.int(-2, 5), 1]))


class SetValue(Contract):
    fn = 'eml_vector_set_value'
    args = ['a', 'val']
    shape = dict(a=VEC())
    props = ('C21',)
    def requires(self, c): return [('length', ge(c.a.length, 0))]
    def assigns(self, c): return [(c.a.data, 0, c.a.length)]
    def ensures(self, c):
        d = c.post(c.a.data)
        return [('ok', eq(c.ret, c.E('EmlOk'))), ('all set', forall(0, c.a.length, lambda j: req(d[j], c.val)))]
    def invs(self, c, L):
        d = L.cur(c.a.data)
        for i in L.ints: yield 'set', forall(0, i, lambda j: req(d[j], c.val))
    def gen(self, r):
        n = r.int(0, 6)
        return dict(a=dict(data=r.reals(n), length=n), val=r.real())


class ViewC(Contract):
    fn = 'eml_vector_view'
    args = ['v', 'a', 'b']
    shape = dict(v=VEC())
    props = ('C21',)
    def requires(self, c): return [('range', And(ge(c.a, 0), le(c.a, c.b), le(c.b, c.v.length)))]
    def ensures(self, c):
        yield 'length', eq(c.ret.length, sub(c.b, c.a))
        if c.symbolic:
            p, q = c.ret.data._p, c.v.data._p
            ok = len(p.alts) == 1 and p.alts[0][1] is q.alts[0][1]
            yield 'aliases the original from the start position', eq(p.alts[0][3], add(q.alts[0][3], c.a)) if ok else False
    def gen(self, r):
        n = r.int(0, 6)
        a = r.int(0, n)
        return dict(v=dict(data=r.reals(n), length=n), a=a, b=r.int(a, n))


class Mean(Contract):
    fn = 'eml_signal_mean'
    args = ['d', 'n']
    shape = dict(d=P(lambda c, o: c.n))
    props = ('C21',)
    check_fdiv = True
    def requires(self, c): return [('length', ge(c.n, 1))]
    def ensures(self, c): return [('sum over length', req(mul(c.ret, T.zr(c.n) if T.isz(c.n) else c.n), SUM(0, c.n, c.d.ref())))]
    def invs(self, c, L):
        for i in L.ints:
            for r in L.reals: yield 'sum', req(r, SUM(0, i, c.d.ref()))
    def gen(self, r):
        n = r.int(1, 6)
        return dict(d=r.reals(n), n=n)


def hann(c, i):
    """Weight i of the symmetric Hann window of length n."""
    n = c.n
    if not T.isz(n) and not T.isz(i): return Fraction(0.5 * (1 - math.cos(2 * math.pi * i / (n - 1)))) if n > 1 else 0
    pi = Fraction(math.pi)
    x = T.div_real(mul(mul(2, pi), T.zr(i)), T.zr(sub(n, 1)))
    return mul(Fraction(1, 2), sub(1, libc.cos_(T.zr(x))))


class Hann(Contract):
    fn = 'eml_signal_hann_apply'
    args = ['d', 'n']
    shape = dict(d=P(lambda c, o: c.n))
    props = ('C21',)
    check_fdiv = True
    def requires(self, c): return [('length', Or(ge(c.n, 2), eq(c.n, 0)))]
    def assigns(self, c): return [(c.d, 0, c.n)]
    def ensures(self, c):
        d = c.post(c.d)
        return [('ok', eq(c.ret, c.E('EmlOk'))), ('every sample times its weight', forall(0, c.n, lambda j: req(d[j], mul(hann(c, j), c.d[j]))))]
    def invs(self, c, L):
        d = L.cur(c.d)
        for i in L.ints:
            yield 'done', forall(0, i, lambda j: req(d[j], mul(hann(c, j), c.d[j])))
            yield 'to do', forall(i, c.n, lambda j: req(d[j], c.d[j]))
    def gen(self, r):
        n = r.pick([0, 2, 3, 4, 7])
        return dict(d=r.reals(n), n=n)


CONTRACTS = [Set(), SetValue(), ViewC(), Mean(), Hann()]
