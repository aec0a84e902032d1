"""C18: fixed-point naive Bayes."""
from vc.contract import *

LO, HI = -2**31, 2**31 - 1
A, C = -47274, -86884          # the quadratic's coefficients -0.7213475204444817, -1.3257480647361592 in Q16 (the linear one is 0)
MAXC = 10


def fits(v): return And(ge(v, LO), le(v, HI))


def near(q, t, b):
    """q is t/b rounded to the nearest integer, halves away from zero."""
    d = sub(mul(q, b), t)
    ad = If(ge(d, 0), d, T.neg(d))
    ab = If(ge(b, 0), b, T.neg(b))
    return le(mul(2, ad), ab)


def qdiv_py(a, b):
    q, r = divmod(abs(a) * 65536, abs(b))
    if 2 * r > abs(b) or (2 * r == abs(b)): q += 1
    return q if (a >= 0) == (b >= 0) else -q


def qdiv_facts(app, a, b):
    t = mul(a, 65536)
    n, d = If(ge(t, 0), t, T.neg(t)), If(ge(b, 0), b, T.neg(b))
    m = If(T._cmp('==', toi(ge(t, 0)), toi(ge(b, 0))), app, T.neg(app))
    # |a| * 65536 = m*|b| + r with -|b| < 2r' ..: m = floor((n + d div 2) / d)
    return [Implies(ne(b, 0), And(le(mul(m, d), add(n, T.zi(d) / 2)), lt(add(n, T.zi(d) / 2), mul(add(m, 1), d))))]


def toi(b): return T.toint(b)


QDIV = spec.Fun('q16div', qdiv_facts, qdiv_py, real=False)


def sh8(x): return T.zi(x) / 256 if T.isz(x) else x >> 8


def qmul(x, y): return mul(sh8(x), sh8(y))


def std(x): return add(qmul(A, qmul(x, x)), C)


def xabs(q): return If(gt(q, 0), q, T.neg(q))


def lp(x, m, s, l): return sub(std(xabs(QDIV(sub(x, m), s))), l)


def okstd(x): return And(fits(x), le(mul(sh8(x), sh8(x)), HI), fits(qmul(A, qmul(x, x))), fits(std(x)))


def oklp(x, m, s, l):
    q = QDIV(sub(x, m), s)
    return And(ne(s, 0), fits(sub(x, m)), fits(q), gt(q, LO), okstd(xabs(q)), fits(lp(x, m, s, l)))


class Div(Contract):
    fn = 'eml_q16_div'
    args = ['a', 'b']
    props = ('C18',)
    ms = 8000
    def requires(self, c): return [('divisor', ne(c.b, 0)), ('quotient fits', fits(QDIV(c.a, c.b)))]
    def ensures(self, c):
        return [('rounded to the nearest representable value', near(c.ret, mul(c.a, 65536), c.b)), ('the quotient', eq(c.ret, QDIV(c.a, c.b)))]
    def gen(self, r):
        b = r.pick([1, -1, 2, -2, 3, 65536, r.int(-100, 100), r.int(LO, HI), r.int(-2**20, 2**20)]) or 1
        return dict(a=r.pick([0, 1, -1, b, r.int(-2**15, 2**15), r.int(-2**29, 2**29), b * r.int(-30, 30) if abs(b) < 2**20 else 7]), b=b)


class Std(Contract):
    fn = 'eml_bayes_logpdf_std'
    args = ['x']
    props = ('C18',)
    def requires(self, c): return [('intermediate values fit', okstd(c.x))]
    def ensures(self, c): return [('the quadratic', eq(c.ret, std(c.x)))]
    def gen(self, r): return dict(x=r.pick([0, 1, 65536, r.int(0, 2**18), r.int(-2**20, 2**23), r.int(0, 46340 * 256)]))


class Logpdf(Contract):
    fn = 'eml_bayes_logpdf'
    args = ['x', 'm', 's', 'l']
    props = ('C18',)
    def requires(self, c): return [('intermediate values fit', oklp(c.x, c.m, c.s, c.l))]
    def ensures(self, c): return [('log-density', eq(c.ret, lp(c.x, c.m, c.s, c.l)))]
    def gen(self, r):
        return dict(x=r.int(-2**20, 2**20), m=r.int(-2**20, 2**20), s=r.pick([65536, 30000, r.int(1, 2**18), r.int(5000, 2**22), -65536]), l=r.int(-2**18, 2**18))


def fx(v):
    return T.trunc(mul(v, 65536))


TERM = lambda vals, mean, sd, sl, nf, c, f: lp(fx(vals[f]), mean[add(mul(c, nf), f)], sd[add(mul(c, nf), f)], sl[add(mul(c, nf), f)])
SCORE = spec.Fold('nbscore', TERM, real=False)


class Predict(Contract):
    fn = 'eml_bayes_predict'
    args = ['m', 'v', 'n']
    shape = dict(m=P(1, null=True, summaries=P(lambda c, o: mul(o.n_classes, o.n_features))), v=P(lambda c, o: c.n, const=True, null=True))
    props = ('C18',)
    opaque = ('q16div',)

    def usable(self, c):
        m = c.m
        return And(Not(m.isnull), Not(c.v.isnull), ge(m.n_classes, 2), le(m.n_classes, MAXC), eq(c.n, m.n_features))

    def score(self, c, k, f): 
        s = c.m.summaries
        return SCORE(0, f, c.v.ref(), s.ref('mean'), s.ref('std'), s.ref('stdlog2'), c.m.n_features, k)

    def fit(self, c, k, f):
        s, i = c.m.summaries, add(mul(k, c.m.n_features), f)
        x = mul(c.v[f], 65536)
        sc = add(self.score(c, k, f), TERM(c.v, fields(s, 'mean'), fields(s, 'std'), fields(s, 'stdlog2'), c.m.n_features, k, f))
        return And(gt(x, LO - 1), lt(x, HI + 1), oklp(fx(c.v[f]), s[i].mean, s[i].std, s[i].stdlog2), fits(sc))

    def requires(self, c):
        if not c.symbolic and (c.m.isnull or c.v.isnull): return
        yield 'lengths', Implies(And(Not(c.m.isnull), Not(c.v.isnull)), And(ge(c.n, 0), ge(c.m.n_features, 0), ge(c.m.n_classes, 0), le(mul(c.m.n_classes, c.m.n_features), HI)))
        if not c.symbolic and not self.usable(c): return
        yield 'intermediate values fit 32 bits', Implies(self.usable(c), forall(0, c.m.n_classes, lambda k: forall(0, c.n, lambda f: self.fit(c, k, f))))

    def ensures(self, c):
        if c.symbolic or c.m.isnull or c.v.isnull:
            yield 'missing model or values', Implies(Or(c.m.isnull, c.v.isnull), eq(c.ret, T.neg(c.E('EmlUninitialized'))))
        if not c.symbolic and (c.m.isnull or c.v.isnull): return
        ok = self.usable(c)
        yield 'unsupported number of classes or features refused', Implies(Not(ok), lt(c.ret, 0))
        if not c.symbolic and not ok: return
        best = self.score(c, c.ret, c.n) if c.symbolic or 0 <= c.ret < c.m.n_classes else 0
        yield 'a class', Implies(ok, And(ge(c.ret, 0), lt(c.ret, c.m.n_classes)))
        yield 'largest score', Implies(ok, forall(0, c.m.n_classes, lambda k: le(self.score(c, k, c.n), best)))
        yield 'first of the largest', Implies(ok, forall(0, c.ret, lambda k: lt(self.score(c, k, c.n), best)))

    def invs(self, c, L):
        for i in L.ints:
            for o in L.outer:
                for s in L.ints:
                    if s is not i: yield 'sum', eq(s, self.score(c, o, i))
            for k, a in L.locals(): yield 'scores', forall(0, i, lambda j: eq(a[j], self.score(c, j, c.n)))
            for b in L.ints:
                if b is i: continue
                yield 'best in range', And(ge(b, 0), lt(b, i))
                yield 'best so far', forall(0, i, lambda j: le(self.score(c, j, c.n), self.score(c, b, c.n)))
                yield 'first', forall(0, b, lambda j: lt(self.score(c, j, c.n), self.score(c, b, c.n)))
                for h in L.ints:
                    if h is not i and h is not b: yield 'value', eq(h, self.score(c, b, c.n))

    def gen(self, r):
        k, n = r.pick([2, 2, 3, 4, 10, 1, 0, 11, 12]), r.int(0, 3)
        s = [dict(mean=r.int(-2**18, 2**18), std=r.pick([65536, r.int(3000, 2**18)]), stdlog2=r.int(-2**17, 2**17)) for _ in range(k * n)]
        if r.int(0, 2) == 0 and n and k > 2:
            a, b = r.int(0, k - 1), r.int(0, k - 1)
            s[a * n:a * n + n] = s[b * n:b * n + n]
        ln = n + r.pick([0] * 6 + [1, -1])
        ln = max(0, ln)
        return dict(m=r.pick([None] + 9 * [[dict(n_classes=k, n_features=n, summaries=s)]]), v=r.pick([None] + 9 * [r.reals(ln)]), n=ln)


class fields:
    def __init__(self, v, f): self.v, self.f = v, f
    def __getitem__(self, k): return getattr(self.v[k], self.f)


CONTRACTS = [Div(), Std(), Logpdf(), Predict()]
