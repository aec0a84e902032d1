"""C09, C10, C11: nearest neighbours."""
import math
from vc.contract import *

DSQ = spec.Fold('dsq', lambda a, b, i: mul(sub(a[i], b[i]), sub(a[i], b[i])), real=False, nonneg='aa')
VOTES = spec.Fold('knnvotes', lambda labels, index, c, i: If(eq(labels[index[i]], c), 1, 0), real=False, ext='knnvotes', nonneg='aas')
MAXC = 10


def isq(r, x): return And(le(0, r), le(mul(r, r), x), lt(x, mul(add(r, 1), add(r, 1))))


class Isqrt(Contract):
    fn = 'eml_isqrt'
    args = ['x']
    props = ('C09',)
    ms = 8000
    def requires(self, c): return [('argument', And(ge(c.x, 0), lt(c.x, 2**62)))]
    def ensures(self, c): return [('r*r <= x < (r+1)*(r+1)', isq(c.ret, c.x))]

    def invs(self, c, L):
        X = c.x
        for q in L.ints:
            yield 'power of 4', Or(*[eq(q, 4**k) for k in range(32)])
            yield 'multiple of 4', Or(eq(q, 1), And(ge(q, 4), eq(T.zi(q) % 4, 0)))
            for r in L.ints:
                if r is q: continue
                yield 'root digits', And(*[Implies(eq(q, 4**k), eq(T.zi(r) % 2**k, 0)) for k in range(32)])
                yield 'even', Or(eq(q, 1), eq(T.zi(r) % 2, 0))
                yield 'small', And(ge(r, 0), le(r, 2**62))
                for x in L.ints + [X]:
                    if x is q or x is r: continue
                    yield 'square', eq(mul(r, r), mul(sub(X, x), q))
                    yield 'rest', And(ge(x, 0), lt(x, add(mul(2, r), q)))
                    yield 'rest not above', le(x, X)

    def gen(self, r):
        return dict(x=r.pick([r.int(0, 40), r.int(0, 2**31 - 1), r.int(0, 2**48), 2**r.int(0, 61), 4**r.int(0, 30) - 1, r.int(0, 3 * 10**4)**2 - r.int(0, 1) if r.int(0, 1) else 2**30]) if True else 0)


def clampx(v): return max(0, v)


class Dist(Contract):
    fn = 'eml_distance_euclidean_int16'
    args = ['a', 'b', 'n']
    shape = dict(a=P(lambda c, o: c.n, const=True), b=P(lambda c, o: c.n, const=True))
    props = ('C09', 'C10')
    alias_ok = True
    def requires(self, c): return [('length', And(ge(c.n, 0), le(c.n, 65535)))]
    def D(self, c, i): return DSQ(0, i, c.a.ref(), c.b.ref())
    def ensures(self, c): return [('square root of the sum of squared differences', isq(c.ret, self.D(c, c.n)))]

    def invs(self, c, L):
        for i in L.ints:
            for s in L.ints:
                if s is i: continue
                yield 'sum', eq(s, self.D(c, i))
                yield 'bounded', And(le(0, s), le(s, mul(i, 65535 * 65535)))

    def gen(self, r):
        n = r.pick([0, 1, 2, 3, 8, 60])
        v = lambda: [r.pick([-32768, 32767, 0, r.int(-5, 5), r.int(-32768, 32767)]) for _ in range(n)]
        return dict(a=v(), b=v(), n=n)


ITEM = P(lambda c, o: c.n)
MODEL = P(1, data=P(lambda c, o: mul(o.n_features, o.max_items), const=False), labels=P(lambda c, o: o.max_items))
CMODEL = P(1, const=True, data=P(lambda c, o: mul(o.n_features, o.max_items), const=True), labels=P(lambda c, o: o.max_items, const=True))


def valid(m): return And(ge(m.n_items, 0), le(m.n_items, m.max_items), le(m.max_items, 32767))


def gen_model(r, n=None, full=None):
    n = r.pick([0, 1, 2, 3, 5, 8, 15]) if n is None else n
    nf = r.int(0, 3)
    mx = n + r.pick([0, 1, 3])
    lim = r.pick([9, 9, 9, 2, 11])
    return dict(n_features=nf, n_items=n, max_items=mx, data=[r.int(-3, 3) * r.pick([1, 1, 10000]) for _ in range(nf * mx)],
                labels=[r.pick([r.int(0, lim), r.int(0, 2), r.int(0, 2)]) for _ in range(mx)], k_neighbors=r.pick([1, 2, 3, n, n + 1, 0, max(0, n - 1)]))


class Check(Contract):
    fn = 'eml_neighbors_check'
    args = ['m', 'dl', 'll', 'nl']
    shape = dict(m=CMODEL)
    props = ('C11',)
    def requires(self, c): return [('model', And(ge(c.m.max_items, 0), valid(c.m)))]
    def ok(self, c): return And(ge(c.dl, mul(c.m.max_items, c.m.n_features)), ge(c.ll, c.m.max_items), ge(c.nl, c.m.max_items))

    def ensures(self, c):
        return [('buffers for max_items accepted', Implies(self.ok(c), eq(c.ret, c.E('EmlOk')))),
                ('smaller buffers refused with EmlSizeMismatch', Implies(Not(self.ok(c)), eq(c.ret, c.E('EmlSizeMismatch'))))]

    def gen(self, r):
        m = gen_model(r)
        need = m['max_items'] * m['n_features']
        return dict(m=[m], dl=need + r.pick([0, 0, -1, 1]), ll=m['max_items'] + r.pick([0, 0, -1, 1]), nl=m['max_items'] + r.pick([0, 0, -1, 1]))


class AddItem(Contract):
    fn = 'eml_neighbors_add_item'
    args = ['m', 'v', 'n', 'label']
    shape = dict(m=MODEL, v=P(lambda c, o: c.n, const=True))
    props = ('C11',)
    def requires(self, c): return [('model', valid(c.m)), ('length', ge(c.n, 0))]
    def good(self, c): return And(eq(c.n, c.m.n_features), lt(c.m.n_items, c.m.max_items))

    def assigns(self, c):
        m, g = c.m, self.good(c)
        o = mul(m.n_features, m.n_items)
        return [(m, 0, If(g, 1, 0), ['n_items']), (m.data, o, If(g, add(o, m.n_features), o)), (m.labels, m.n_items, If(g, add(m.n_items, 1), m.n_items))]

    def ensures(self, c):
        m, g = c.m, self.good(c)
        p = c.post(m)
        yield 'full model or wrong feature count gives EmlSizeMismatch', Implies(Not(g), eq(c.ret, c.E('EmlSizeMismatch')))
        yield 'success otherwise', Implies(g, eq(c.ret, c.E('EmlOk')))
        yield 'nothing added on error', Implies(Not(g), eq(p.n_items, m.n_items))
        if not c.symbolic and not g: return
        yield 'one more item', Implies(g, eq(p.n_items, add(m.n_items, 1)))
        yield 'label stored', Implies(g, eq(c.post(m.labels)[m.n_items], c.label))
        o = mul(m.n_features, m.n_items)
        yield 'features stored', Implies(g, forall(0, m.n_features, lambda j: eq(c.post(m.data)[add(o, j)], c.v[j])))

    def gen(self, r):
        m = gen_model(r)
        n = m['n_features'] + r.pick([0, 0, 0, 0, 1])
        return dict(m=[m], v=r.ints(n), n=n, label=r.int(-5, 20))


class Infer(Contract):
    fn = 'eml_neighbors_infer'
    args = ['m', 'x', 'n', 'd', 'nd']
    shape = dict(m=CMODEL, x=P(lambda c, o: c.n, const=True), d=P(lambda c, o: c.nd))
    props = ('C10',)
    def requires(self, c): return [('model', valid(c.m)), ('lengths', And(ge(c.n, 0), ge(c.nd, 0)))]
    def good(self, c): return And(ge(c.nd, c.m.n_items), eq(c.n, c.m.n_features))
    def assigns(self, c): return [(c.d, 0, If(self.good(c), c.m.n_items, 0))]

    def item(self, c, d, i):
        return isq(d, DSQ(0, c.m.n_features, c.x.ref(), c.m.data.ref('', mul(c.m.n_features, i))))

    def ensures(self, c):
        g = self.good(c)
        yield 'wrong lengths give EmlSizeMismatch', Implies(Not(g), eq(c.ret, c.E('EmlSizeMismatch')))
        yield 'success otherwise', Implies(g, eq(c.ret, c.E('EmlOk')))
        if not c.symbolic and not g: return
        d = c.post(c.d)
        yield 'items in order', Implies(g, forall(0, c.m.n_items, lambda i: eq(d[i].index, i)))
        yield 'distance of every item', Implies(g, forall(0, c.m.n_items, lambda i: self.item(c, d[i].distance, i)))

    def invs(self, c, L):
        d = L.cur(c.d)
        for i in L.ints:
            yield 'indices', forall(0, i, lambda k: eq(d[k].index, k))
            yield 'distances', forall(0, i, lambda k: self.item(c, d[k].distance, k))

    def gen(self, r):
        m = gen_model(r)
        n = m['n_features'] + r.pick([0] * 6 + [1])
        nd = max(0, m['n_items'] + r.pick([0, 0, 0, 1, -1]))
        return dict(m=[m], x=[r.int(-3, 3) for _ in range(n)], n=n, d=[dict(index=-7, distance=5) for _ in range(nd)], nd=nd)


def arranged(n, d, idx0, dist0):
    """d holds every index below n once, each with its own distance."""
    return [('indices in range', forall(0, n, lambda i: And(ge(d[i].index, 0), lt(d[i].index, n)))),
            ('indices are distinct', forall(0, n, lambda i: forall(0, n, lambda j: Implies(ne(i, j), ne(d[i].index, d[j].index))))),
            ('distances stay with their items', forall(0, n, lambda i: eq(d[i].distance, dist0[d[i].index])))]


class Sort(Contract):
    fn = 'eml_neighbors_sort_distances'
    args = ['d', 'n']
    shape = dict(d=P(lambda c, o: c.n))
    props = ('C10',)
    split_n = 15
    qms = 4000
    partial = 'proved for lengths up to 15 (insertion sort); the quicksort path for 16 items and more is tested up to length 300'
    cost = 9
    inline = ()
    def requires(self, c): return [('length', And(ge(c.n, 0), le(c.n, 32767))), ('items in order', forall(0, c.n, lambda i: eq(c.d[i].index, i)))]
    def assigns(self, c): return [(c.d, 0, c.n)]

    def setup(self, eng, st, c):
        st.assume(le(c.n, self.split_n))

    def ensures(self, c):
        d = c.post(c.d)
        yield 'success', eq(c.ret, c.E('EmlOk'))
        yield from arranged(c.n, d, None, c.d.ref('distance'))
        yield 'sorted', forall(0, c.n, lambda i: forall(0, i, lambda j: le(d[j].distance, d[i].distance)))

    def invs(self, c, L):
        d, d0 = L.cur(c.d), c.d.ref('distance')
        yield from arranged(c.n, d, None, d0)
        for i in L.ints + L.outer:
            yield 'sorted up to', forall(0, i, lambda a: forall(0, a, lambda b: le(d[b].distance, d[a].distance)))
            for j in L.ints:
                if j is i: continue
                yield 'sorted except', forall(0, add(i, 1), lambda a: forall(0, a, lambda b: Implies(ne(a, j), le(d[b].distance, d[a].distance))))

    def gen(self, r):
        n = r.pick([0, 1, 2, 3, 5, 8, 15, 16, 17, 20, 33, 64, 100, 300])
        k = r.pick([1, 2, 5, 1000, 2**32 - 1])
        ds = [r.int(0, k) for _ in range(n)]
        mode = r.int(0, 4)
        if mode == 0: ds.sort()
        if mode == 1: ds.sort(reverse=True)
        if mode == 2: ds = [i if i % 2 else n - i for i in range(n)]
        return dict(d=[dict(index=i, distance=v) for i, v in enumerate(ds)], n=n)


class Nearest(Contract):
    fn = 'eml_neighbors_find_nearest'
    args = ['m', 'd', 'nd', 'k', 'out']
    shape = dict(m=CMODEL, d=P(lambda c, o: c.nd), out=P(1))
    props = ('C10',)
    def requires(self, c): return [('model', valid(c.m)), ('one distance per item', eq(c.nd, c.m.n_items)), ('items in order', forall(0, c.nd, lambda i: eq(c.d[i].index, i)))]
    def kok(self, c): return le(c.k, c.nd)
    def lok(self, c, d): return forall(0, c.k, lambda i: And(ge(c.m.labels[d[i].index], 0), lt(c.m.labels[d[i].index], MAXC)))
    def assigns(self, c): return [(c.d, 0, If(self.kok(c), c.nd, 0)), (c.out, 0, If(self.kok(c), 1, 0))]

    def ensures(self, c):
        d = c.post(c.d)
        g = self.kok(c)
        yield 'k larger than the number of items gives EmlSizeMismatch', Implies(Not(g), eq(c.ret, c.E('EmlSizeMismatch')))
        if not c.symbolic and not g: return
        for l, f in arranged(c.nd, d, None, c.d.ref('distance')): yield l, Implies(g, f)
        yield 'sorted', Implies(g, forall(0, c.nd, lambda i: forall(0, i, lambda j: le(d[j].distance, d[i].distance))))
        lk = self.lok(c, d)
        yield 'label outside the supported range gives EmlUnknownError', Implies(And(g, Not(lk)), eq(c.ret, c.E('EmlUnknownError')))
        yield 'success otherwise', Implies(And(g, lk), eq(c.ret, c.E('EmlOk')))
        yield 'no result on error', Implies(And(g, Not(lk)), eq(c.post(c.out)[0], c.out[0]))
        if not c.symbolic and not lk: return
        yield from self.vote_ensures(c, And(g, lk), c.k, d, c.post(c.out)[0])

    def vote_ensures(self, c, g, k, d, r):
        v = lambda l: VOTES(0, k, c.m.labels.ref(), d.ref('index'), l)
        pos = gt(k, 0)
        yield 'a class', Implies(And(g, pos), And(ge(r, 0), lt(r, MAXC)))
        if not c.symbolic and not (pos and 0 <= r < MAXC): return
        yield 'no class has more votes', Implies(And(g, pos), forall(0, MAXC, lambda l: le(v(l), v(r))))
        yield 'smaller classes have fewer votes', Implies(And(g, pos), forall(0, r, lambda l: lt(v(l), v(r))))

    def invs(self, c, L):
        d = L.cur(c.d)
        lab, idx = c.m.labels.ref(), d.ref('index')
        V = lambda k, l: VOTES(0, k, lab, idx, l)
        vs = [(k, a) for k, a in L.h.mem.items() if 'votes' in k[0] and a.sort() == T.AI]
        for i in L.ints:
            yield 'labels fine', forall(0, i, lambda j: And(ge(c.m.labels[d[j].index], 0), lt(c.m.labels[d[j].index], MAXC)))
            for k, a in vs:
                yield 'votes', forall(0, MAXC, lambda l: eq(a[l], V(i, l)))
                yield 'votes bounded', forall(0, MAXC, lambda l: And(ge(a[l], 0), le(a[l], i)))
                yield 'some vote', Or(le(i, 0), ge(a[c.m.labels[d[sub(i, 1)].index]], 1))
                yield 'some vote 2', Or(le(i, 0), Or(*[ge(a[l], 1) for l in range(MAXC)]))
                for m in L.ints:
                    if m is i: continue
                    for w in L.ints:
                        if w is i or w is m: continue
                        yield 'max so far', forall(0, i, lambda l: le(a[l], w))
                        yield 'attained', Or(And(eq(m, -1), eq(w, 0)), And(le(0, m), lt(m, i), eq(a[m], w), gt(w, 0)))
                        yield 'first', forall(0, m, lambda l: lt(a[l], w))

    def gen(self, r):
        m = gen_model(r)
        n = m['n_items']
        k = r.pick([1, 2, 3])
        return dict(m=[m], d=[dict(index=i, distance=r.int(0, k)) for i in range(n)], nd=n, k=m['k_neighbors'], out=[77])


class Predict(Nearest):
    fn = 'eml_neighbors_predict'
    cost = 8
    opaque = ('dsq', 'knnvotes')
    args = ['m', 'x', 'n', 'd', 'nd', 'out']
    shape = dict(m=CMODEL, x=P(lambda c, o: c.n, const=True), d=P(lambda c, o: c.nd), out=P(1))
    def requires(self, c): return [('model', valid(c.m)), ('lengths', And(ge(c.n, 0), ge(c.nd, 0)))]
    good = Infer.good
    item = Infer.item
    def kok(self, c): return le(c.m.k_neighbors, c.m.n_items)
    def lok(self, c, d): return forall(0, c.m.k_neighbors, lambda i: And(ge(c.m.labels[d[i].index], 0), lt(c.m.labels[d[i].index], MAXC)))
    def assigns(self, c): return [(c.d, 0, If(self.good(c), c.m.n_items, 0)), (c.out, 0, If(And(self.good(c), self.kok(c)), 1, 0))]

    def ensures(self, c):
        d, m = c.post(c.d), c.m
        g = And(self.good(c), self.kok(c))
        yield 'wrong lengths and too large k give EmlSizeMismatch', Implies(Not(g), eq(c.ret, c.E('EmlSizeMismatch')))
        if not c.symbolic and not g: return
        n = m.n_items
        yield 'indices in range', Implies(g, forall(0, n, lambda i: And(ge(d[i].index, 0), lt(d[i].index, n))))
        yield 'every stored item once', Implies(g, forall(0, n, lambda i: forall(0, n, lambda j: Implies(ne(i, j), ne(d[i].index, d[j].index)))))
        yield 'with its distance to the query', Implies(g, forall(0, n, lambda i: self.item(c, d[i].distance, d[i].index)))
        yield 'nearest first', Implies(g, forall(0, n, lambda i: forall(0, i, lambda j: le(d[j].distance, d[i].distance))))
        lk = self.lok(c, d)
        yield 'label outside the supported range gives EmlUnknownError', Implies(And(g, Not(lk)), eq(c.ret, c.E('EmlUnknownError')))
        yield 'success otherwise', Implies(And(g, lk), eq(c.ret, c.E('EmlOk')))
        yield 'no result on error', Implies(And(g, Not(lk)), eq(c.post(c.out)[0], c.out[0]))
        if not c.symbolic and not lk: return
        yield from self.vote_ensures(c, And(g, lk), m.k_neighbors, d, c.post(c.out)[0])

    invs = Contract.invs

    def gen(self, r):
        m = gen_model(r, n=r.pick([0, 1, 2, 3, 5, 8, 15, 20, 40]))
        n = m['n_features'] + r.pick([0] * 8 + [1])
        nd = max(0, m['n_items'] + r.pick([0, 0, 0, 0, 2, -1]))
        return dict(m=[m], x=[r.int(-3, 3) for _ in range(n)], n=n, d=[dict(index=-7, distance=5) for _ in range(nd)], nd=nd, out=[77])


CONTRACTS = [Isqrt(), Dist(), Check(), AddItem(), Infer(), Sort(), Nearest(), Predict()]
