"""C07, C08: dense layers and networks."""
import math
from vc.contract import *
from vc import libc

DOT = spec.Fold('dot', lambda w, x, m, o, i: mul(w[add(o, mul(i, m))], x[i]), ext='dot')
# value before the activation
Z = spec.Rec('preact', lambda w, b, x, n, m, o: add(DOT(0, n, w, x, m, o), b[o]), real=True)


def E_(x): return spec.EXP(T.zr(x)) if T.isz(x) else _pyexp(x)


def _pyexp(x):
    try: return math.exp(x)
    except OverflowError: return float('inf')


SE = spec.Fold('expsum', lambda x, i: E_(x[i]), ext='expsum', nonneg='x')
SEZ = spec.Fold('expsumz', lambda w, b, x, n, m, i: E_(Z(w, b, x, n, m, i)), ext='expsum')
SUM = spec.Fold('sumx', lambda x, i: x[i], ext='sumx')

ID, RELU, LOGI, SOFT, TANH = 'Identity', 'Relu', 'Logistic', 'Softmax', 'Tanh'
ACT = {}


def code(c, n): return c.E('EmlNetActivation' + n)


def div(a, b): return T.div_real(a, b) if T.isz(a) or T.isz(b) else a / b


def relu(z): return If(le(z, 0), 0, z) if T.isz(z) else max(z, 0)
def logistic(z): return div(T.zr(1) if T.isz(z) else 1, add(1, E_(T.neg(z))))
def tanh(z): return libc.tanh_(T.zr(z)) if T.isz(z) else math.tanh(z)


CODES = dict(Identity=0, Relu=1, Logistic=2, Softmax=3, Tanh=4)      # checked against the enum by the contracts


def _fwd(w, b, a, x, n, m, o):
    z = Z(w, b, x, n, m, o)
    if not T.isz(a) and not T.isz(z):
        if a == 3:
            zs = [float(Z(w, b, x, n, m, k)) for k in range(m)]
            mx = max(zs)
            return math.exp(zs[o] - mx) / sum(math.exp(v - mx) for v in zs)
        return {0: lambda: z, 1: lambda: relu(z), 2: lambda: logistic(z), 4: lambda: tanh(z)}.get(a, lambda: z)()
    return If(eq(a, 1), T.zr(relu(z)), If(eq(a, 2), T.zr(logistic(z)), If(eq(a, 3), div(E_(z), SEZ(0, m, w, b, x, n, m)), If(eq(a, 4), tanh(z), z))))


# output o of a layer with weights w, biases b, activation a, inputs x
FWD = spec.Rec('layer', _fwd, real=True, differ=lambda p, q, k: Or(*[ne(p[i], q[i]) for i in (2, 4, 5, 6)], Not(eqarr(p[0], q[0])), Not(eqarr(p[1], q[1])), And(le(0, k), lt(k, p[4]), ne(sel(p[3], k), sel(q[3], k)))))


def sel(x, k):
    """x[k], through the definition of HA."""
    if z3.is_app(x.arr) and x.arr.decl().name().startswith('outputs.'):
        return HAV(*spec.unflat(x.arr.children(), spec.FN[x.arr.decl().name()][1]), add(x.off, k))
    return x[k]


def eqarr(a, b): return And(eq(a.off, b.off), a.arr == b.arr)


def _ext_lemma():
    """The value of a layer depends on its first n inputs only."""
    w, b = ArrRef(T.fresh('w', T.AR), 0), ArrRef(T.fresh('b', T.AR), 0)
    x, y = ArrRef(T.fresh('x', T.AR), 0), ArrRef(T.fresh('y', T.AR), 0)
    a, n, m, o = [T.fresh(k, T.I) for k in 'anmo']
    hyp = [forall(0, n, lambda k: eq(x[k], y[k]))]
    return ('a layer reads only its first n inputs (pre-activations)', hyp, forall(0, m, lambda o: eq(Z(w, b, x, n, m, o), Z(w, b, y, n, m, o)))), \
           ('a layer reads only its first n inputs (softmax sum)', hyp + [forall(0, m, lambda o: eq(Z(w, b, x, n, m, o), Z(w, b, y, n, m, o)))], eq(SEZ(0, m, w, b, x, n, m), SEZ(0, m, w, b, y, n, m)))


def LEMMAS(): return list(_ext_lemma())


# ---- value of output o after layer l (l < 0: the features)
def _ha_facts(app, nin, nout, act, ws, bs, x, l):
    k = T.fresh('k', T.I)
    return [z3.ForAll([k], z3.Select(app, k) == HAV(nin, nout, act, ws, bs, x, l, k), patterns=[z3.Select(app, k)])]


def _ha_py(nin, nout, act, ws, bs, x, l):
    if l < 0: return [x[k] for k in range(nin[0])]
    return [HAV(nin, nout, act, ws, bs, x, l, o) for o in range(nout[l])]


HA = spec.Rec('outputs', None, sort=T.AR, facts=_ha_facts, pybody=_ha_py)


def _hav(nin, nout, act, ws, bs, x, l, o):
    return If(lt(l, 0), x[o], lambda: FWD(ws[l], bs[l], act[l], ArrRef(HA(nin, nout, act, ws, bs, x, sub(l, 1)), 0), nin[l], nout[l], o))


def _hav_py(nin, nout, act, ws, bs, x, l, o):
    v = [x[k] for k in range(nin[0])]
    for j in range(l + 1):
        v = [FWD(ws[j], bs[j], act[j], ArrRef(v, 0), nin[j], nout[j], k) for k in range(nout[j])]
    return v[o]


HAV = spec.Rec('output', _hav, real=True, pybody=_hav_py)

MAX = 2**31 - 1


class Softmax(Contract):
    fn = 'eml_net_softmax'
    args = ['x', 'n']
    shape = dict(x=P(lambda c, o: c.n, null=True))
    props = ('C07',)
    def requires(self, c): return [('length', And(ge(c.n, 1), le(c.n, MAX)))]
    def assigns(self, c): return [(c.x, 0, If(c.x.isnull, 0, c.n))]
    def S(self, c): return SE(0, c.n, c.x.ref())

    def ensures(self, c):
        nn = Not(c.x.isnull)
        yield 'a missing buffer gives EmlUninitialized', Implies(c.x.isnull, eq(c.ret, c.E('EmlUninitialized')))
        yield 'success otherwise', Implies(nn, eq(c.ret, c.E('EmlOk')))
        if not c.symbolic and not nn: return
        out = c.post(c.x)
        if not c.symbolic:
            v = [float(c.x[k]) for k in range(c.n)]
            e = [math.exp(x - max(v)) for x in v]
            yield 'exp(x_i) divided by the sum of exp(x_j)', all(abs(out[k] - e[k] / sum(e)) < 1e-4 for k in range(c.n))
        else: yield 'exp(x_i) divided by the sum of exp(x_j)', Implies(nn, forall(0, c.n, lambda k: req(out[k], div(E_(c.x[k]), self.S(c)))))
        yield 'sums to one', Implies(nn, req(SUM(0, c.n, out.ref()), 1))

    def on_exp(self, e, st, x):
        e.check(st, 'range', 'exponent is not positive, so exp cannot overflow', Or(le(x, 0), le(T.zr(spec.EXP(T.zr(x))), 1)))

    def invs(self, c, L):
        x0, xc = c.x, L.cur(c.x)
        vals = L.reals + L.scope_reals
        for i in L.ints:
            for v in L.reals:
                yield 'largest so far', forall(0, i, lambda k: le(x0[k], v))
            for m in L.scope_reals:
                for s in L.reals:
                    yield 'sum', eq(mul(s, E_(m)), SE(0, i, x0.ref()))
                    yield 'sum2', eq(s, div(SE(0, i, x0.ref()), E_(m)))
                    yield 'terms', forall(0, i, lambda k: le(div(E_(x0[k]), E_(m)), s))
            for s in L.reals:
                yield 'positive', Or(lt(0, s), eq(i, 0))
            if L.changed(c.x):
                yield 'done', forall(0, i, lambda k: eq(xc[k], div(E_(x0[k]), self.S(c))))
                yield 'rest', forall(i, c.n, lambda k: eq(xc[k], x0[k]))
                yield 'total', eq(mul(SUM(0, i, xc.ref()), self.S(c)), SE(0, i, x0.ref()))

    def gen(self, r):
        n = r.int(1, 6)
        return dict(x=r.pick([[v * r.pick([1, 1, 8, 64]) for v in r.reals(n)]] * 6 + [None]), n=n)


class Forward(Contract):
    fn = 'eml_net_forward'
    args = ['x', 'n', 'w', 'b', 'a', 'out', 'm']
    shape = dict(x=P(lambda c, o: c.n, const=True), w=P(lambda c, o: mul(c.n, c.m), const=True), b=P(lambda c, o: c.m, const=True), out=P(lambda c, o: c.m))
    props = ('C07', 'C08')
    ms = 4000
    def requires(self, c): return [('sizes', And(ge(c.n, 0), ge(c.m, 1), le(mul(c.n, c.m), MAX)))]
    def assigns(self, c): return [(c.out, 0, c.m)]
    def known(self, c): return And(ge(c.a, 0), le(c.a, 4))
    def z(self, c, o): return Z(c.w.ref(), c.b.ref(), c.x.ref(), c.n, c.m, o)
    def f(self, c, o): return FWD(c.w.ref(), c.b.ref(), c.a, c.x.ref(), c.n, c.m, o)

    def ensures(self, c):
        k = self.known(c)
        yield 'activation codes', And(*[eq(code(c, n), v) for n, v in CODES.items()])
        yield 'unsupported activation gives EmlUnsupported', Implies(Not(k), eq(c.ret, c.E('EmlUnsupported')))
        yield 'success otherwise', Implies(k, eq(c.ret, c.E('EmlOk')))
        if not c.symbolic and not k: return
        out = c.post(c.out)
        yield 'every output is the activation of the weighted sum plus bias', Implies(k, forall(0, c.m, lambda o: req(out[o], self.f(c, o))))

    def invs(self, c, L):
        out = L.cur(c.out)
        zz = lambda o: self.z(c, o)
        for i in L.ints:
            for o in L.outer:
                for s in L.reals: yield 'dot', eq(s, DOT(0, i, c.w.ref(), c.x.ref(), c.m, o))
            if not L.changed(c.out): continue
            yield 'sums', forall(0, i, lambda k: eq(out[k], zz(k)))
            yield 'rest', forall(i, c.m, lambda k: eq(out[k], zz(k)))
            yield 'relu', forall(0, i, lambda k: eq(out[k], relu(zz(k))))
            yield 'logistic', forall(0, i, lambda k: eq(out[k], logistic(zz(k))))
            yield 'tanh', forall(0, i, lambda k: eq(out[k], tanh(zz(k))))

    def gen(self, r):
        n, m = r.int(0, 5), r.int(1, 5)
        return dict(x=r.reals(n), n=n, w=r.reals(n * m), b=r.reals(m), a=r.int(0, 5), out=r.reals(m), m=m)


LAYER = dict(weights=P(lambda c, o: mul(o.n_inputs, o.n_outputs), null=True, const=True), biases=P(lambda c, o: o.n_outputs, null=True, const=True))


def layerok(l): return And(ge(l.n_inputs, 0), ge(l.n_outputs, 1), le(mul(l.n_inputs, l.n_outputs), MAX))


def gen_layer(r, n, m, null=True):
    return dict(n_inputs=n, n_outputs=m, weights=r.pick([r.reals(n * m)] * 9 + [None if null else r.reals(n * m)]), biases=r.pick([r.reals(m)] * 9 + [None if null else r.reals(m)]), activation=r.pick([0, 1, 2, 3, 4, 0, 1, 2, 3, 4, 5, 7]))


class LayerForward(Contract):
    fn = 'eml_net_layer_forward'
    args = ['l', 'x', 'n', 'out', 'm']
    shape = dict(l=P(1, const=True, **LAYER), x=P(lambda c, o: c.n, const=True), out=P(lambda c, o: c.m))
    props = ('C07', 'C08')
    opaque = ('layer',)
    def requires(self, c): return [('layer sizes', layerok(c.l)), ('lengths', And(ge(c.n, 0), ge(c.m, 0)))]
    def small(self, c): return Or(lt(c.n, c.l.n_inputs), lt(c.m, c.l.n_outputs))
    def null(self, c): return Or(c.l.weights.isnull, c.l.biases.isnull)
    def known(self, c): return And(ge(c.l.activation, 0), le(c.l.activation, 4))
    def good(self, c): return And(Not(self.small(c)), Not(self.null(c)))
    def assigns(self, c): return [(c.out, 0, If(self.good(c), c.l.n_outputs, 0))]

    def ensures(self, c):
        s, nl, g = self.small(c), self.null(c), self.good(c)
        yield 'too small buffers give EmlSizeMismatch', Implies(s, eq(c.ret, c.E('EmlSizeMismatch')))
        yield 'missing parameters give EmlUninitialized', Implies(And(Not(s), nl), eq(c.ret, c.E('EmlUninitialized')))
        yield 'unsupported activation gives EmlUnsupported', Implies(And(g, Not(self.known(c))), eq(c.ret, c.E('EmlUnsupported')))
        g = And(g, self.known(c))
        yield 'success otherwise', Implies(g, eq(c.ret, c.E('EmlOk')))
        if not c.symbolic and not g: return
        out, l = c.post(c.out), c.l
        yield 'every output is the activation of the weighted sum plus bias', Implies(g, forall(0, l.n_outputs, lambda o: req(out[o], FWD(l.weights.ref(), l.biases.ref(), l.activation, c.x.ref(), l.n_inputs, l.n_outputs, o))))

    def gen(self, r):
        n, m = r.int(0, 4), r.int(1, 4)
        N, M = n + r.pick([0, 0, 1, -1]), m + r.pick([0, 0, 2, -1])
        return dict(l=[gen_layer(r, n, m)], x=r.reals(max(N, 0)), n=max(N, 0), out=r.reals(M), m=M)


class Argmax(Contract):
    fn = 'eml_net_argmax'
    args = ['v', 'n']
    shape = dict(v=P(lambda c, o: c.n, const=True))
    props = ('C08',)
    def requires(self, c): return [('length', ge(c.n, 0)), ('finite', forall(0, c.n, lambda k: gt(c.v[k], T.neg(T.INF) if c.symbolic else float('-inf'))))]

    def ensures(self, c):
        yield 'no value gives -1', Implies(eq(c.n, 0), eq(c.ret, -1))
        g = gt(c.n, 0)
        if not c.symbolic and not g: return
        yield 'an index', Implies(g, And(ge(c.ret, 0), lt(c.ret, c.n)))
        yield 'no value is larger', Implies(g, forall(0, c.n, lambda k: le(c.v[k], c.v[c.ret])))
        yield 'earlier values are smaller', Implies(g, forall(0, c.ret, lambda k: lt(c.v[k], c.v[c.ret])))

    def invs(self, c, L):
        v = c.v
        for i in L.ints:
            for b in L.ints:
                if b is i: continue
                for m in L.reals:
                    yield 'max so far', forall(0, i, lambda k: le(v[k], m))
                    yield 'attained', Or(And(eq(b, -1), eq(i, 0)), And(le(0, b), lt(b, i), eq(v[b], m)))
                    yield 'first', forall(0, b, lambda k: lt(v[k], m))
                    yield 'start', Implies(eq(i, 0), eq(m, T.neg(T.INF)))

    def gen(self, r):
        n = r.int(0, 6)
        return dict(v=[r.pick([0, -1, 1, 2, r.real()]) for _ in range(n)], n=n)


NET = P(1, layers=P(lambda c, o: o.n_layers, null=True, const=True, weights=P(lambda c, o: mul(o.n_inputs, o.n_outputs), const=True), biases=P(lambda c, o: o.n_outputs, const=True)),
        activations1=P(lambda c, o: o.activations_length, null=True), activations2=P(lambda c, o: o.activations_length, null=True))


def net_requires(m):
    n = m.n_layers
    L = m.layers
    if isinstance(n, int) and L.isnull: return []
    return [('sizes', And(ge(n, 0), ge(m.activations_length, 0))),
            ('layer sizes', Implies(Not(L.isnull), forall(0, n, lambda k: layerok(L[k])))),
            ('layers fit together', Implies(Not(L.isnull), forall(1, n, lambda k: eq(L[k].n_inputs, L[sub(k, 1)].n_outputs))))]


def params(c):
    L = c.model.layers
    return [L.ref('n_inputs'), L.ref('n_outputs'), L.ref('activation'), L[0].weights.famref(), L[0].biases.famref(), c.x.ref()]


class NetFn(Contract):
    opaque = ('layer',)
    ms = 4000
    def null(self, c):
        m = c.model
        return Or(m.layers.isnull, m.activations1.isnull, m.activations2.isnull)

    def requires(self, c): return net_requires(c.model) + [('feature length', ge(c.n, 0))]

    def status(self, c):
        """[(condition, code)] in order of priority"""
        m = c.model
        L, n = m.layers, m.n_layers
        lay = lambda f: False if (not c.symbolic and (self.null(c) or n < 2)) else f()
        return [(self.null(c), 'EmlUninitialized'), (lt(n, 2), 'EmlUnsupported'),
                (lay(lambda: ne(c.n, L[0].n_inputs)), 'EmlSizeMismatch'),
                (lay(lambda: Not(forall(0, n, lambda k: And(le(L[k].n_inputs, m.activations_length), le(L[k].n_outputs, m.activations_length))))), 'EmlSizeMismatch'),
                (lay(lambda: Not(forall(0, n, lambda k: And(ge(L[k].activation, 0), le(L[k].activation, 4))))), 'EmlUnsupported')]

    def ready(self, c): return And(*[Not(x) for x, _ in self.status(c)[:4]])
    def good(self, c): return And(*[Not(x) for x, _ in self.status(c)])
    def last(self, c, o): return HAV(*params(c), sub(c.model.n_layers, 1), o)
    def nout(self, c): return c.model.layers[sub(c.model.n_layers, 1)].n_outputs

    def wr(self, c):
        m = c.model
        n = If(self.ready(c), m.activations_length, 0)
        return [(m.activations1, 0, n), (m.activations2, 0, n)]

    def invs(self, c, L):
        m = c.model
        A, n = m.activations_length, m.n_layers
        Ls = m.layers
        b1, b2 = L.cur(m.activations1), L.cur(m.activations2)
        ha = lambda l, j: HAV(*params(c), l, j)
        for i in L.ints:
            yield 'supported', forall(0, i, lambda k: And(ge(Ls[k].activation, 0), le(Ls[k].activation, 4)))
            yield 'layer input', forall(0, Ls[sub(i, 1)].n_outputs, lambda j: eq(b1[j], ha(sub(i, 1), j)))
            yield 'copied', forall(0, i, lambda j: eq(b1[j], b2[j]))
            for g in L.ints:
                if g is not i:
                    yield 'largest', forall(0, i, lambda k: And(le(Ls[k].n_inputs, g), le(Ls[k].n_outputs, g)))
                    yield 'largest attained', Or(eq(g, -1), exists(0, i, lambda k: Or(eq(Ls[k].n_inputs, g), eq(Ls[k].n_outputs, g))))
            for l in L.outer:
                yield 'output of the layer', forall(0, Ls[l].n_outputs, lambda j: eq(b2[j], ha(l, j)))

    def gen_model(self, r, positive=False):
        n = r.pick([2, 2, 3, 3, 4, 2, 1, 0])
        sizes = [r.int(1, 4) for _ in range(n + 1)]
        if r.int(0, 2) == 0: sizes[-1] = r.int(1, 2)
        layers = [gen_layer(r, sizes[k], sizes[k + 1], null=False) for k in range(n)]
        if r.int(0, 3):
            for l in layers: l['activation'] = r.int(0, 4)
        for l in layers:
            l['weights'] = [w / 16 for w in l['weights']]
        A = max(sizes) + r.pick([0, 0, 0, 0, 1, -1])
        m = dict(n_layers=n, layers=r.pick([layers] * 15 + [None]), activations1=r.pick([r.reals(A)] * 15 + [None]), activations2=r.pick([r.reals(A)] * 15 + [None]), activations_length=A)
        nx = sizes[0] + r.pick([0] * 12 + [1, -1])
        return m, sizes, nx


class Infer(NetFn):
    fn = 'eml_net_infer'
    args = ['model', 'x', 'n']
    shape = dict(model=NET, x=P(lambda c, o: c.n, const=True))
    props = ('C08',)
    cost = 5
    def assigns(self, c): return self.wr(c)

    def ensures(self, c):
        before = False
        for cond, e in self.status(c):
            yield '%s when due' % e, Implies(And(Not(before), cond), eq(c.ret, c.E(e)))
            before = Or(before, cond)
        yield 'success otherwise', Implies(Not(before), eq(c.ret, c.E('EmlOk')))
        if not c.symbolic and before: return
        out = c.post(c.model.activations2)
        yield 'outputs of all layers in order', Implies(Not(before), forall(0, self.nout(c), lambda o: req(out[o], self.last(c, o))))

    def gen(self, r):
        m, s, nx = self.gen_model(r)
        return dict(model=[m], x=r.reals(nx), n=nx)


class NetPredict(NetFn):
    fn = 'eml_net_predict'
    args = ['model', 'x', 'n']
    shape = dict(model=NET, x=P(lambda c, o: c.n, const=True))
    props = ('C08',)
    def assigns(self, c): return self.wr(c)

    def requires(self, c):
        out = NetFn.requires(self, c)
        if c.symbolic: out.append(('finite outputs', Implies(self.good(c), forall(0, self.nout(c), lambda o: gt(self.last(c, o), T.neg(T.INF))))))
        elif self.good(c):
            # clear winners only: rounding decides ties of equal values
            v = sorted(float(self.last(c, o)) for o in range(self.nout(c)))
            out.append(('no near ties', (len(v) == 1 and (abs(v[0] - 0.5) > 1e-4 or v[0] == 0.5)) or all(b - a > 1e-4 or b == a for a, b in zip(v, v[1:]))))
        return out

    def ensures(self, c):
        before = False
        for cond, e in self.status(c):
            yield '-%s when due' % e, Implies(And(Not(before), cond), eq(c.ret, T.neg(c.E(e))))
            before = Or(before, cond)
        if not c.symbolic and before: return
        g, n = Not(before), self.nout(c)
        ha = lambda o: self.last(c, o)
        yield 'single output: whether it exceeds one half', Implies(And(g, eq(n, 1)), eq(c.ret, If(gt(ha(0), Fraction(1, 2)), 1, 0)))
        if not c.symbolic and n == 1: return
        g = And(g, gt(n, 1))
        yield 'a class', Implies(g, And(ge(c.ret, 0), lt(c.ret, n)))
        if not c.symbolic and not (0 <= c.ret < n): return
        tol = 0 if c.symbolic else 1e-6
        yield 'no output is larger', Implies(g, forall(0, n, lambda k: le(ha(k), add(ha(c.ret), tol))))
        if c.symbolic or all(0 == self.model_act(c) for _ in (0,)):
            yield 'earlier outputs are smaller', Implies(g, forall(0, c.ret, lambda k: lt(ha(k), ha(c.ret))))

    def model_act(self, c): return c.model.layers[c.model.n_layers - 1].activation

    def gen(self, r):
        m, s, nx = self.gen_model(r)
        return dict(model=[m], x=r.reals(nx), n=nx)


class OutFn(NetFn):
    args = ['model', 'x', 'n', 'out', 'm']
    shape = dict(model=NET, x=P(lambda c, o: c.n, const=True, null=True), out=P(lambda c, o: c.m, null=True))

    def requires(self, c):
        return NetFn.requires(self, c) + [('features given when needed', Or(Not(c.x.isnull), self.xcheck)), ('output length', ge(c.m, 0))]


class NetRegress(OutFn):
    fn = 'eml_net_regress'
    props = ('C08',)
    xcheck = False

    def all_status(self, c):
        s = self.status(c)
        lay = lambda f: False if (not c.symbolic and (self.null(c) or c.model.n_layers < 2)) else f()
        return s[:2] + [(c.out.isnull, 'EmlUninitialized'), (lay(lambda: ne(c.m, self.nout(c))), 'EmlSizeMismatch')] + s[2:]

    def writes(self, c): return And(*[Not(x) for x, _ in self.all_status(c)])

    def assigns(self, c):
        m = c.model
        r = And(*[Not(x) for x, _ in self.all_status(c)[:6]])
        n = If(r, m.activations_length, 0)
        return [(m.activations1, 0, n), (m.activations2, 0, n), (c.out, 0, If(self.writes(c), c.m, 0))]

    def ensures(self, c):
        before = False
        for cond, e in self.all_status(c):
            yield '%s when due' % e, Implies(And(Not(before), cond), eq(c.ret, c.E(e)))
            before = Or(before, cond)
        yield 'success otherwise', Implies(Not(before), eq(c.ret, c.E('EmlOk')))
        if not c.symbolic and before: return
        out = c.post(c.out)
        yield 'the outputs of the last layer', Implies(Not(before), forall(0, self.nout(c), lambda o: req(out[o], self.last(c, o))))

    def invs(self, c, L):
        out = L.cur(c.out)
        for i in L.ints: yield 'copied', forall(0, i, lambda k: eq(out[k], self.last(c, k)))

    def gen(self, r):
        m, s, nx = self.gen_model(r)
        k = s[-1] + r.pick([0] * 9 + [1, -1])
        return dict(model=[m], x=r.reals(nx), n=nx, out=r.pick([r.reals(k)] * 12 + [None]), m=k)


PSUM = spec.Fold('outsum', lambda nin, nout, act, ws, bs, x, l, o: HAV(nin, nout, act, ws, bs, x, l, o), ext='outsum')


class NetProba(OutFn):
    fn = 'eml_net_predict_proba'
    props = ('C08',)
    xcheck = True

    def np(self, c): return If(eq(self.nout(c), 1), 2, self.nout(c))

    def all_status(self, c):
        s = self.status(c)
        lay = lambda f: False if (not c.symbolic and (self.null(c) or c.model.n_layers < 2)) else f()
        return s[:2] + [(c.x.isnull, 'EmlUninitialized'), (c.out.isnull, 'EmlUninitialized'), (lay(lambda: ne(c.m, self.np(c))), 'EmlSizeMismatch')] + s[2:]

    def assigns(self, c):
        m = c.model
        r = And(*[Not(x) for x, _ in self.all_status(c)[:7]])
        n = If(r, m.activations_length, 0)
        w = And(*[Not(x) for x, _ in self.all_status(c)])
        return [(m.activations1, 0, n), (m.activations2, 0, n), (c.out, 0, If(w, c.m, 0))]

    def total(self, c, n): return PSUM(0, n, *params(c), sub(c.model.n_layers, 1))

    def ensures(self, c):
        before = False
        for cond, e in self.all_status(c):
            yield '%s when due' % e, Implies(And(Not(before), cond), eq(c.ret, c.E(e)))
            before = Or(before, cond)
        if not c.symbolic and before: return
        g, n, out = Not(before), self.nout(c), c.post(c.out)
        one = eq(n, 1)
        yield 'single output p: the pair 1-p, p', Implies(And(g, one), And(eq(c.ret, c.E('EmlOk')), req(out[1], self.last(c, 0)), req(out[0], sub(1, self.last(c, 0))))) if c.symbolic or one else True
        if not c.symbolic and one: return
        g = And(g, Not(one))
        yield 'probabilities are the outputs of the last layer', Implies(g, forall(0, n, lambda o: req(out[o], self.last(c, o))))
        d = sub(self.total(c, n), 1)
        near = And(lt(d, f32(0.001)), lt(T.neg(d), f32(0.001))) if c.symbolic else abs(float(d)) < 0.001
        if not c.symbolic and abs(abs(float(d)) - 0.001) < 1e-5: return
        yield 'outputs that do not sum to one give EmlPostconditionFailed', Implies(And(g, Not(near)), eq(c.ret, c.E('EmlPostconditionFailed')))
        yield 'success otherwise', Implies(And(g, near), eq(c.ret, c.E('EmlOk')))

    def invs(self, c, L):
        out = L.cur(c.out)
        for i in L.ints:
            yield 'copied', forall(0, i, lambda k: eq(out[k], self.last(c, k)))
            for s in L.reals: yield 'sum', eq(s, self.total(c, i))

    def gen(self, r):
        m, s, nx = self.gen_model(r)
        if m['layers'] and r.int(0, 2): m['layers'][-1]['activation'] = 3 if s[-1] > 1 else 2
        k = (s[-1] if s[-1] > 1 else 2) + r.pick([0] * 9 + [1, -1])
        return dict(model=[m], x=r.pick([r.reals(nx)] * 12 + [None]), n=nx, out=r.pick([r.reals(k)] * 12 + [None]), m=k)


class NetRegress1(NetFn):
    fn = 'eml_net_regress1'
    args = ['model', 'x', 'n']
    shape = dict(model=NET, x=P(lambda c, o: c.n, const=True))
    props = ('C08',)

    def all_status(self, c):
        lay = lambda f: False if (not c.symbolic and (self.null(c) or c.model.n_layers < 2)) else f()
        s = self.status(c)
        return s[:2] + [(lay(lambda: ne(self.nout(c), 1)), '')] + s[2:]

    def assigns(self, c):
        m = c.model
        n = If(And(*[Not(x) for x, _ in self.all_status(c)[:5]]), m.activations_length, 0)
        return [(m.activations1, 0, n), (m.activations2, 0, n)]

    def ensures(self, c):
        g = And(*[Not(x) for x, _ in self.all_status(c)])
        yield 'NaN on error', Implies(Not(g), isnan(c.ret))
        if not c.symbolic and not g: return
        yield 'the single output of the last layer', Implies(g, req(c.ret, self.last(c, 0)))

    def gen(self, r):
        m, s, nx = self.gen_model(r)
        if m['layers'] and r.int(0, 4):
            l = m['layers'][-1]
            k = l['n_inputs']
            l.update(n_outputs=1, weights=l['weights'][:k], biases=l['biases'][:1])
        return dict(model=[m], x=r.reals(nx), n=nx)


CONTRACTS = [Softmax(), Forward(), LayerForward(), Argmax(), Infer(), NetPredict(), NetRegress(), NetProba(), NetRegress1()]
