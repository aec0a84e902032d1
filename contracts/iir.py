"""C14: IIR cascades."""
from vc.contract import *

# value entering stage k+1: out of the first k stages
OUT = spec.Rec('iir_out', lambda s, co, x, k: If(le(k, 0), x, lambda: add(s[add(mul(4, sub(k, 1)), 1)], mul(co[mul(6, sub(k, 1))], OUT(s, co, x, sub(k, 1))))), real=True)


class Biquad(Contract):
    fn = 'eml_biquad_tdf2'
    args = ['s1', 's2', 'a', 'b', 'x']
    shape = dict(s1=P(2), s2=P(2), a=P(3, const=True), b=P(3, const=True))
    props = ('C14',)

    def assigns(self, c): return [(c.s1, 0, 2), (c.s2, 0, 2)]

    def ensures(self, c):
        y = add(c.s1[1], mul(c.b[0], c.x))
        n1, n2 = c.post(c.s1), c.post(c.s2)
        return [('y = b0 x + s1', req(c.ret, y)),
                ('s1 becomes s2 + b1 x - a1 y', req(n1[1], sub(add(c.s2[1], mul(c.b[1], c.x)), mul(c.a[1], y)))),
                ('s2 becomes b2 x - a2 y', req(n2[1], sub(mul(c.b[2], c.x), mul(c.a[2], y))))]

    def gen(self, r):
        return dict(s1=r.reals(2), s2=r.reals(2), a=r.reals(3), b=r.reals(3), x=r.real())


class Filter(Contract):
    fn = 'eml_iir_filter'
    args = ['f', 'x']
    shape = dict(f=S(states=P(lambda c, o: o.states_length), coefficients=P(lambda c, o: o.coefficients_length, const=True)))
    props = ('C14',)
    inline = ('eml_biquad_tdf2',)

    def requires(self, c):
        f = c.f
        return [('filter passes eml_iir_check', And(ge(f.n_stages, 1), eq(f.states_length, mul(4, f.n_stages)), eq(f.coefficients_length, mul(6, f.n_stages)),
                                                     le(mul(6, f.n_stages), 2**31 - 1)))]

    def assigns(self, c): return [(c.f.states, 0, mul(4, c.f.n_stages))]

    def out(self, c, k): return OUT(c.f.states.ref(), c.f.coefficients.ref(), c.x, k)

    def s1(self, c, new, k):
        s, co = c.f.states, c.f.coefficients
        x, y = self.out(c, k), self.out(c, add(k, 1))
        return And(req(new[add(mul(4, k), 1)], sub(add(s[add(mul(4, k), 3)], mul(co[add(mul(6, k), 1)], x)), mul(co[add(mul(6, k), 4)], y))),
                   req(new[add(mul(4, k), 3)], sub(mul(co[add(mul(6, k), 2)], x), mul(co[add(mul(6, k), 5)], y))))

    def ensures(self, c):
        n = c.f.n_stages
        new = c.post(c.f.states)
        return [('output is the output of the last stage', req(c.ret, self.out(c, n))),
                ('every stage updates its own two state values', forall(0, n, lambda k: self.s1(c, new, k)))]

    def invs(self, c, L):
        new = L.cur(c.f.states)
        for i in L.ints:
            for r in L.reals: yield 'out', req(r, self.out(c, i))
            yield 'states done', forall(0, i, lambda k: self.s1(c, new, k))
            j = z3.Int('j!q')
            yield 'states to do', z3.ForAll([j], z3.Implies(z3.And(j >= 4 * i), new[j] == c.f.states[j]))

    def gen(self, r):
        n = r.int(1, 4)
        return dict(f=dict(n_stages=n, states=r.reals(4 * n), states_length=4 * n, coefficients=r.reals(6 * n), coefficients_length=6 * n), x=r.real())


class Check(Contract):
    fn = 'eml_iir_check'
    args = ['f']
    shape = dict(f=S(states=P(0, null=True), coefficients=P(0, null=True)))
    props = ('C14',)

    def requires(self, c): return [('sizes do not overflow', And(le(c.f.n_stages, 2**31 // 6 - 1)))]

    def ensures(self, c):
        f = c.f
        return [('accepted exactly when consistent', iff(eq(c.ret, c.E('EmlOk')), And(ge(f.n_stages, 1), Not(f.states.isnull), Not(f.coefficients.isnull),
                eq(f.states_length, mul(4, f.n_stages)), eq(f.coefficients_length, mul(6, f.n_stages)))))]

    def gen(self, r):
        n = r.pick([0, 1, 2, 3, -1])
        k = r.pick([1, 1, 0])
        return dict(f=dict(n_stages=n, states=r.pick([None, []]), states_length=r.pick([4 * n, 4 * n, 4 * n + 1, 6 * n]), coefficients=r.pick([None, [], []]), coefficients_length=r.pick([6 * n, 6 * n, 6 * n - 1, 4 * n])))


CONTRACTS = [Biquad(), Filter(), Check()]
