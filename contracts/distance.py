"""C17: Mahalanobis distance and elliptic envelope."""
from vc.contract import *

# sum over j of P[j*n+i] (x[j]-m[j])
COL = spec.Fold('maha_col', lambda x, m, p, n, i, j: mul(p[add(mul(j, n), i)], sub(x[j], m[j])))
DIST = spec.Fold('maha', lambda x, m, p, n, i: mul(COL(0, n, x, m, p, n, i), sub(x[i], m[i])))


def gen_model(r, n):
    return dict(n_features=n, decision_boundary=r.pick([r.real(), Fraction(0), Fraction(-5)]), means=r.reals(n), precision=r.reals(n * n))


class Maha(Contract):
    fn = 'eml_mahalanobis_distance_squared'
    args = ['x', 'm', 'p', 'n']
    shape = dict(x=P(lambda c, o: c.n, const=True), m=P(lambda c, o: c.n, const=True), p=P(lambda c, o: mul(c.n, c.n), const=True))
    props = ('C17',)
    alias_ok = True
    def requires(self, c): return [('length', And(ge(c.n, 0), le(c.n, 46340)))]
    def pp(self, c): return (c.x.ref(), c.m.ref(), c.p.ref(), c.n)
    def ensures(self, c): return [('(x-m) P (x-m)', req(c.ret, DIST(0, c.n, *self.pp(c))))]

    def invs(self, c, L):
        for i in L.ints:
            for r in L.reals:
                yield 'rows', req(r, DIST(0, i, *self.pp(c)))
                for o in L.outer: yield 'column', req(r, COL(0, i, *self.pp(c), o))

    def gen(self, r):
        n = r.int(0, 4)
        return dict(x=r.reals(n), m=r.reals(n), p=r.reals(n * n), n=n)


class Predict(Contract):
    fn = 'eml_elliptic_envelope_predict'
    args = ['s', 'x', 'n', 'out']
    shape = dict(s=P(1, const=True, means=P(lambda c, o: o.n_features, const=True), precision=P(lambda c, o: mul(o.n_features, o.n_features), const=True)),
                 x=P(lambda c, o: c.n, const=True), out=P(1, null=True))
    props = ('C17',)
    def requires(self, c): return [('model', And(ge(c.s.n_features, 0), le(c.s.n_features, 46340)))]
    def good(self, c): return eq(c.n, c.s.n_features)
    def assigns(self, c): return [(c.out, 0, If(self.good(c), 1, 0))]

    def ensures(self, c):
        s = c.s
        yield 'feature count mismatch is an error', Implies(Not(self.good(c)), eq(c.ret, c.E('EmlSizeMismatch')))
        if not c.symbolic and not self.good(c): return
        d = DIST(0, c.n, c.x.ref(), s.means.ref(), s.precision.ref(), c.n)
        if c.symbolic:
            yield 'outlier exactly when -distance is below the boundary', Implies(self.good(c), eq(c.ret, If(lt(T.neg(d), s.decision_boundary), 1, 0)))
            o = c.post(c.out)
            yield 'distance reported', Implies(And(self.good(c), Not(c.out.isnull)), req(o[0], d))
        else:
            near = abs(d + s.decision_boundary) < Fraction(1, 1000) * max(1, abs(d)) and abs(d) > 4096
            yield 'outlier exactly when -distance is below the boundary', Or(near, eq(c.ret, 1 if -d < s.decision_boundary else 0))
            if not c.out.isnull: yield 'distance reported', req(c.post(c.out)[0], d)

    def gen(self, r):
        n = r.int(0, 3)
        m = gen_model(r, n)
        x = r.reals(n + r.pick([0, 0, 0, 1]))
        if len(x) == n and r.int(0, 2) == 0:
            d = sum((sum((m['precision'][j * n + i] * (x[j] - m['means'][j]) for j in range(n)), Fraction(0)) * (x[i] - m['means'][i]) for i in range(n)), Fraction(0))
            if abs(d) < 1000: m['decision_boundary'] = f32(-d)
        return dict(s=[m], x=x, n=len(x), out=r.pick([None, r.reals(1)]))


CONTRACTS = [Maha(), Predict()]
