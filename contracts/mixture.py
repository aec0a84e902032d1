"""C16: Gaussian mixture scores."""
from vc.contract import *

SE = spec.Fold('mix_sumexp', lambda v, i: spec.EXP(T.zr(v[i])) if T.isz(v[i]) else Fraction(math.exp(v[i])), ext='mix_sumexp')
PDOT = spec.Fold('mix_pdot', lambda a, b, i: mul(a[i], b[i]))
# dot products with column f of the precision factor of a component (p: its first element)
Y = spec.Fold('mix_y', lambda x, m, p, n, f, k: mul(sub(x[k], m[k]), p[add(mul(k, n), f)]), ext='mixy')
SQ = spec.Fold('mix_sq', lambda x, m, p, n, f: mul(Y(0, n, x, m, p, n, f), Y(0, n, x, m, p, n, f)), ext='mixsq')
LOG2PI = Fraction(1.8378770664093453)
MAX = 2**31 - 1


def div(a, b): return T.div_real(a, b)


class Dot(Contract):
    fn = 'eml_dot_product'
    args = ['a', 'b', 'n']
    shape = dict(a=P(lambda c, o: c.n, const=True), b=P(lambda c, o: c.n, const=True))
    props = ('C16',)
    alias_ok = True
    def requires(self, c): return [('length', ge(c.n, 0))]
    def ensures(self, c): return [('sum of products', req(c.ret, PDOT(0, c.n, c.a.ref(), c.b.ref())))]
    def invs(self, c, L):
        for i in L.ints:
            for s in L.reals: yield 'sum', eq(s, PDOT(0, i, c.a.ref(), c.b.ref()))
    def gen(self, r):
        n = r.int(0, 5)
        return dict(a=r.reals(n), b=r.reals(n), n=n)


class MinMax(Contract):
    fn = 'eml_minmax'
    args = ['v', 'n', 'mn', 'mx']
    shape = dict(v=P(lambda c, o: c.n, const=True), mn=P(1, null=True), mx=P(1, null=True))
    props = ('C16',)
    def requires(self, c): return [('length', ge(c.n, 1))]
    def assigns(self, c): return [(c.mn, 0, If(c.mn.isnull, 0, 1)), (c.mx, 0, If(c.mx.isnull, 0, 1))]

    def ensures(self, c):
        yield 'success', eq(c.ret, c.E('EmlOk'))
        for nm, w, op in (('smallest', c.mn, ge), ('largest', c.mx, le)):
            if w.isnull is True: continue
            r = c.post(w)[0]
            nn = Not(w.isnull)
            yield nm + ' bounds every value', Implies(nn, forall(0, c.n, lambda k: op(c.v[k], r)))
            yield nm + ' is one of the values (of finite values)', Implies(nn, Or(eq(r, T.INF if op is ge else T.neg(T.INF)), exists(0, c.n, lambda k: eq(c.v[k], r))))

    def invs(self, c, L):
        for i in L.ints:
            for r in L.reals:
                yield 'upper', forall(0, i, lambda k: le(c.v[k], r))
                yield 'lower', forall(0, i, lambda k: ge(c.v[k], r))
                for e in (T.INF, T.neg(T.INF)): yield 'one', Or(eq(r, e), exists(0, i, lambda k: eq(c.v[k], r)))

    def gen(self, r):
        n = r.int(1, 6)
        return dict(v=r.reals(n), n=n, mn=r.pick([None, r.reals(1), r.reals(1)]), mx=r.pick([None, r.reals(1), r.reals(1)]))


class LogSumExp(Contract):
    fn = 'eml_logsumexp'
    args = ['v', 'n', 'out']
    shape = dict(v=P(lambda c, o: c.n, const=True), out=P(1))
    props = ('C16',)
    def requires(self, c): return [('length', ge(c.n, 1))]
    def assigns(self, c): return [(c.out, 0, 1)]

    def on_exp(self, e, st, x):
        e.check(st, 'range', 'exponent is not positive, so exp cannot overflow', Or(le(x, 0), le(T.zr(spec.EXP(T.zr(x))), 1)))

    def ensures(self, c):
        yield 'success', eq(c.ret, c.E('EmlOk'))
        o = c.post(c.out)[0]
        if c.symbolic: yield 'logarithm of the sum of exponentials', eq(spec.EXP(z3.simplify(T.zr(o), blast_select_store=True)), SE(0, c.n, c.v.ref()))
        else:
            v = [float(c.v[k]) for k in range(c.n)]
            yield 'logarithm of the sum of exponentials', abs(float(o) - (max(v) + math.log(sum(math.exp(x - max(v)) for x in v)))) < 1e-3 * max(1, abs(max(v)))

    def invs(self, c, L):
        E_ = lambda t: spec.EXP(T.zr(t))
        for i in L.ints:
            for m in L.scope_reals + [z3.Select(a, 0) if z3.is_array(a) else a for k, a in L.h.mem.items() if k[0].startswith('local ')]:
                if m.sort() != T.R: continue
                for s in L.reals:
                    yield 'sum', eq(mul(s, E_(m)), SE(0, i, c.v.ref()))
                    yield 'positive', Or(lt(0, s), eq(i, 0))

    def gen(self, r):
        n = r.int(1, 6)
        k = r.pick([1, 1, 30, 200])
        return dict(v=[x * k for x in r.reals(n)], n=n, out=r.reals(1))


class PrecLen(Contract):
    fn = 'eml_mixture_precisions_length'
    args = ['m']
    shape = dict(m=P(1, const=True, means=P(0, opaque=True), precisions=P(0, opaque=True), log_dets=P(0, opaque=True), log_weights=P(0, opaque=True)))
    props = ('C16',)

    def requires(self, c):
        m = c.m
        return [('model', And(ge(m.n_components, 0), ge(m.n_features, 0), le(mul(mul(m.n_components, m.n_features), m.n_features), MAX), le(mul(m.n_components, m.n_features), MAX), le(mul(m.n_features, m.n_features), MAX),
                              ge(m.covariance_type, 0), le(m.covariance_type, 3)))]

    def ensures(self, c):
        m = c.m
        for nm, e in (('Full', mul(mul(m.n_components, m.n_features), m.n_features)), ('Tied', mul(m.n_features, m.n_features)), ('Diagonal', mul(m.n_components, m.n_features)), ('Spherical', m.n_components)):
            yield 'length for ' + nm, Implies(eq(m.covariance_type, c.E('EmlCovariance' + nm)), eq(c.ret, e))

    def gen(self, r):
        return dict(m=[dict(n_components=r.int(0, 9), n_features=r.int(0, 9), covariance_type=r.int(0, 3), means=[], precisions=[], log_dets=[], log_weights=[])])


MODEL = P(1, null=True, const=True, means=P(lambda c, o: mul(o.n_components, o.n_features), const=True), precisions=P(lambda c, o: mul(o.n_components, mul(o.n_features, o.n_features)), const=True),
          log_dets=P(lambda c, o: o.n_components, const=True), log_weights=P(lambda c, o: o.n_components, const=True))


class Base(Contract):
    shape = dict(m=MODEL, x=P(lambda c, o: c.n, null=True, const=True), p=P(lambda c, o: If(c.m.isnull, 0, c.m.n_components)))
    props = ('C16',)

    def size(self, c):
        m = c.m
        if not c.symbolic and m.isnull: return [('length', c.n >= 0)]
        return [('model', Implies(Not(m.isnull), And(ge(m.n_features, 0), le(m.n_features, 46340), le(mul(m.n_components, mul(m.n_features, m.n_features)), MAX), le(mul(m.n_components, m.n_features), MAX),
                ge(m.covariance_type, 0), le(m.covariance_type, 3)))), ('length', ge(c.n, 0))]

    def requires(self, c): return self.size(c)

    def miss(self, c):
        if not c.symbolic and c.m.isnull: return True
        return Or(c.m.isnull, c.x.isnull, le(c.m.n_components, 0))

    def good(self, c):
        if not c.symbolic and self.miss(c): return False
        return And(Not(self.miss(c)), eq(c.n, c.m.n_features), eq(c.m.covariance_type, c.E('EmlCovarianceFull')))

    def score(self, c, k):
        """log-density of component k."""
        m = c.m
        n = m.n_features
        sq = SQ(0, n, c.x.ref(), m.means.ref(off=mul(k, n)), m.precisions.ref(off=mul(k, mul(n, n))), n)
        return add(add(mul(Fraction(-1, 2), add(mul(LOG2PI, T.zr(n) if T.isz(n) else n), sq)), m.log_dets[k]), m.log_weights[k])

    def err_ensures(self, c):
        yield 'missing model, values or components give EmlUninitialized', Implies(self.miss(c), eq(c.ret, T.neg(c.E('EmlUninitialized'))))
        if not c.symbolic and self.miss(c): return
        yield 'wrong length or covariance type is an error', Implies(Not(self.good(c)), ne(c.ret, c.E('EmlOk')))
        yield 'success otherwise', Implies(self.good(c), eq(c.ret, c.E('EmlOk')))

    def gen_model(self, r):
        k, n = r.pick([1, 2, 3, 0]), r.int(0, 3)
        cov = r.pick([0] * 8 + [1, 2, 3])
        m = dict(n_components=k, n_features=n, covariance_type=cov, means=r.reals(k * n), precisions=r.reals(k * n * n), log_dets=r.reals(k), log_weights=r.reals(k))
        ln = max(0, n + r.pick([0] * 8 + [1, -1]))
        return dict(m=r.pick([[m]] * 9 + [None]), x=r.pick([r.reals(ln)] * 9 + [None]), n=ln, p=r.reals(k))


class LogProba(Base):
    fn = 'eml_mixture_predict_log_proba'
    args = ['m', 'x', 'n', 'p']
    def assigns(self, c): return [(c.p, 0, If(self.good(c), c.m.n_components, 0))]

    def ensures(self, c):
        yield from self.err_ensures(c)
        if not c.symbolic and not self.good(c): return
        p = c.post(c.p)
        yield 'every component score is its log-density', Implies(self.good(c), forall(0, c.m.n_components, lambda k: req(p[k], self.score(c, k))))

    def invs(self, c, L):
        p, m = L.cur(c.p), c.m
        n, x = m.n_features, c.x.ref()
        for i in L.ints:
            if L.changed(c.p):
                yield 'only full covariance', Or(eq(m.covariance_type, c.E('EmlCovarianceFull')), eq(i, 0))
                yield 'rest', forall(i, m.n_components, lambda k: eq(p[k], c.p[k]))
                yield 'scores', forall(0, i, lambda k: eq(p[k], self.score(c, k)))
            for k in L.outer:
                me, pr = m.means.ref(off=mul(k, n)), m.precisions.ref(off=mul(k, mul(n, n)))
                for s in L.reals: yield 'sum of squares', eq(s, SQ(0, i, x, me, pr, n))
                for f in L.outer:
                    if f is k: continue
                    for s in L.reals:
                        yield 'y', eq(s, Y(0, i, x, me, pr, n, f))
                        for t in L.reals:
                            if t is not s: yield 'difference', eq(s, add(t, Y(0, i, x, me, pr, n, f)))

    def gen(self, r): return self.gen_model(r)


class Score(Base):
    fn = 'eml_mixture_score'
    args = ['m', 'x', 'n', 'p', 'out']
    shape = dict(Base.shape, out=P(1))
    def assigns(self, c): return [(c.p, 0, If(self.good(c), c.m.n_components, 0)), (c.out, 0, If(self.good(c), 1, 0))]

    def score_ensures(self, c):
        yield from self.err_ensures(c)
        if not c.symbolic and not self.good(c): return
        p, o = c.post(c.p), c.post(c.out)[0]
        g = self.good(c)
        yield 'every component score is its log-density', Implies(g, forall(0, c.m.n_components, lambda k: req(p[k], self.score(c, k))))
        if c.symbolic: yield 'the score is the logarithm of the sum of exponentials of the component scores', Implies(g, eq(spec.EXP(T.zr(o)), SE(0, c.m.n_components, p.ref())))
        else:
            v = [float(self.score(c, k)) for k in range(c.m.n_components)]
            yield 'the score is the logarithm of the sum of exponentials of the component scores', abs(float(o) - (max(v) + math.log(sum(math.exp(x - max(v)) for x in v)))) < 1e-3 * max(1, abs(max(v)))

    def ensures(self, c): return self.score_ensures(c)

    def gen(self, r): return dict(self.gen_model(r), out=r.reals(1))


class Proba(Score):
    fn = 'eml_mixture_predict_proba'
    args = ['m', 'x', 'n', 'p', 'out', 'resp']
    shape = dict(Score.shape, resp=P(lambda c, o: If(c.m.isnull, 0, c.m.n_components)))
    def assigns(self, c): return Score.assigns(self, c) + [(c.resp, 0, If(self.good(c), c.m.n_components, 0))]

    def ensures(self, c):
        yield from self.score_ensures(c)
        if not c.symbolic and not self.good(c): return
        p, o, q = c.post(c.p), c.post(c.out)[0], c.post(c.resp)
        if c.symbolic: yield 'component probability is exp(component score - score)', Implies(self.good(c), forall(0, c.m.n_components, lambda k: eq(q[k], spec.EXPU(T.zr(sub(p[k], o))))))
        else: yield 'component probability is exp(component score - score)', all(abs(float(q[k]) - math.exp(float(p[k] - o))) < 1e-4 * max(1, float(q[k])) for k in range(c.m.n_components))

    def invs(self, c, L):
        p, o, q = L.cur(c.p), L.cur(c.out)[0], L.cur(c.resp)
        for i in L.ints:
            yield 'differences', forall(0, i, lambda k: eq(q[k], sub(p[k], o)))
            yield 'all differences', forall(i, c.m.n_components, lambda k: eq(q[k], sub(p[k], o)))
            yield 'done', forall(0, i, lambda k: eq(q[k], spec.EXPU(T.zr(sub(p[k], o)))))

    def gen(self, r):
        d = self.gen_model(r)
        return dict(d, out=r.reals(1), resp=r.reals(len(d['p'])))


CONTRACTS = [Dot(), MinMax(), LogSumExp(), PrecLen(), LogProba(), Score(), Proba()]
