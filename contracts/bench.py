"""C26: the benchmark generator."""
from vc.contract import *

N, G = 2**31 - 1, 48271


def step(s): return T.zi(mul(G, s)) % N if T.isz(s) else (G * s) % N


# k-th state of the sequence started at 1
SEQ = spec.Rec('parkmiller', lambda k: If(le(k, 0), 1, lambda: step(SEQ(sub(k, 1)))))


def valid(s): return And(ge(s, 1), le(s, N - 1))


class Lcg(Contract):
    fn = 'eml_lcg_parkmiller'
    args = ['s']
    shape = dict(s=P(1))
    props = ('C26',)
    def requires(self, c): return [('valid state', valid(c.s[0]))]
    def assigns(self, c): return [(c.s, 0, 1)]

    def ensures(self, c):
        s, n = c.s[0], c.post(c.s)[0]
        return [('returns the new state', eq(c.ret, n)),
                ('stays valid', valid(n)),
                ('new state is 48271 s modulo 2^31-1', eq(n, step(s)))]

    def gen(self, r): return dict(s=[r.pick([1, 2, 3, N - 1, N - 2, r.int(1, N - 1), r.int(1, N - 1), (N // G) * r.int(1, G - 1), (N // G) * r.int(1, G - 1) + (N // G) - 1])])


class Fill(Contract):
    fn = 'eml_benchmark_fill'
    args = ['v', 'n']
    shape = dict(v=P(lambda c, o: c.n))
    props = ('C26',)
    def assigns(self, c): return [(c.v, 0, c.n)]

    def ensures(self, c):
        v = c.post(c.v)
        return [('succeeds', eq(c.ret, c.E('EmlOk'))),
                ('value j is element j+1 of the sequence started at 1', forall(0, c.n, lambda j: req(v[j], T.zr(SEQ(add(j, 1))) if T.isz(j) else SEQ(j + 1))))]

    def invs(self, c, L):
        v = L.cur(c.v)
        for i in L.ints:
            yield 'done', forall(0, i, lambda j: req(v[j], T.zr(SEQ(add(j, 1)))))
            for k, a in L.locals():
                s = z3.Select(a, 0) if z3.is_array(a) else a
                if s.sort() == T.I:
                    yield 'state', eq(s, SEQ(i))
                    yield 'valid', valid(s)
            for s in L.ints:
                if s is not i:
                    yield 'state', eq(s, SEQ(i))
                    yield 'valid', valid(s)

    def gen(self, r):
        n = r.int(0, 20)
        return dict(v=r.reals(n), n=n)


CONTRACTS = [Lcg(), Fill()]
