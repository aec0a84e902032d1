"""C01, C02: tree evaluation and forest aggregation."""
from vc.contract import *

# leaf reached from node index idx (feature, value, left, right tables; feature vector x)
def _next(fe, va, le_, ri, x, i):
    return If(lt(x[fe[i]], va[i]), le_[i], ri[i])


def _wbody(fe, va, le_, ri, x, i):
    ch = _next(fe, va, le_, ri, x, i)
    return If(lt(i, 0), sub(-1, i), W(fe, va, le_, ri, x, If(ge(ch, 0), add(i, ch), ch)))


def _wpy(fe, va, le_, ri, x, i):
    while i >= 0:
        ch = _next(fe, va, le_, ri, x, i)
        i = i + ch if ch >= 0 else ch
    return -1 - i


W = spec.Rec('leaf', _wbody, pybody=_wpy)


def _pos(v): return If(lt(v, 0), 0, v)


VOTE = spec.Fold('votes', lambda fe, va, l, r, x, roots, leaves, c, t: T.zr_(If(eq(leaves[W(fe, va, l, r, x, roots[t])], c), 1, 0)), nonneg='aaaaaaas')
PROP = spec.Fold('proportions', lambda fe, va, l, r, x, roots, leaves, n, c, t: T.div_real(T.zr_(_pos(leaves[add(mul(W(fe, va, l, r, x, roots[t]), n), c)])), 255), nonneg='aaaaaaass')


def f32le(leaves, o):
    if isinstance(leaves.arr, list):
        import struct
        return Fraction(struct.unpack('<f', bytes(leaves[o + k] for k in range(4)))[0])
    return E.F32AT(leaves.arr, T.zi(add(leaves.off, o)))


LEAFSUM = spec.Fold('leafsum', lambda fe, va, l, r, x, roots, leaves, t: f32le(leaves, mul(4, W(fe, va, l, r, x, roots[t]))))


def tabs(f): return [f.nodes.ref(k) for k in ('feature', 'value', 'left', 'right')]


FOREST = P(1, const=True, nodes=P(lambda c, o: o.n_nodes, const=True), tree_roots=P(lambda c, o: o.n_trees, const=True), leaves=P(lambda c, o: o.n_leaves, const=True))


def unit(f): return If(eq(f.leaf_bits, 0), 1, If(eq(f.leaf_bits, 8), f.n_classes, 4))


def wf(f):
    """A well-formed loadable model."""
    N = f.n_nodes
    known = Or(eq(f.leaf_bits, 0), eq(f.leaf_bits, 8), eq(f.leaf_bits, 32))
    u = unit(f)

    def leafok(l): return Implies(known, And(ge(l, 0), le(add(mul(l, u), u), f.n_leaves)))

    def childok(k, ch):
        return And(ge(ch, -32768), le(ch, 32767), Implies(ge(ch, 0), And(gt(ch, 0), lt(add(k, ch), N))), Implies(lt(ch, 0), leafok(sub(-1, ch))))
    nd = f.nodes
    out = [('sizes', And(ge(N, 0), le(N, 2**30), ge(f.n_trees, 1), ge(f.n_leaves, 0), ge(f.n_features, 0), ge(f.n_classes, 0))),
           ('node features in range', forall(0, N, lambda k: And(ge(nd[k].feature, 0), lt(nd[k].feature, f.n_features)))),
           ('left children strictly forward or leaves', forall(0, N, lambda k: childok(k, nd[k].left))),
           ('right children strictly forward or leaves', forall(0, N, lambda k: childok(k, nd[k].right))),
           ('roots valid', forall(0, f.n_trees, lambda t: rootok(f, f.tree_roots[t]))),
           ('leaf bytes', forall(0, f.n_leaves, lambda k: And(ge(f.leaves[k], 0), le(f.leaves[k], 255)))),
           ('leaf classes', Implies(eq(f.leaf_bits, 0), forall(0, f.n_leaves, lambda k: lt(f.leaves[k], f.n_classes))))]
    return out


def rootok(f, r):
    known = Or(eq(f.leaf_bits, 0), eq(f.leaf_bits, 8), eq(f.leaf_bits, 32))
    return And(lt(r, f.n_nodes), ge(r, -32768), Implies(And(known, lt(r, 0)), And(ge(sub(-1, r), 0), le(add(mul(sub(-1, r), unit(f)), unit(f)), f.n_leaves))))


def gen_forest(r, bits=None, nc=None):
    """A random well-formed forest (dict of concrete values)."""
    bits = r.pick([0, 8, 32]) if bits is None else bits
    nf = r.int(1, 4)
    nc = r.int(1, 5) if nc is None else nc
    nt = r.int(1, 4)
    nl = r.int(1, 6)
    N = r.int(0, 8)
    nodes = []
    for k in range(N):
        def child():
            if k + 1 < N and r.int(0, 2): return r.int(1, N - 1 - k)
            return -r.int(1, nl)
        nodes.append(dict(feature=r.int(0, nf - 1), value=r.pick([0, 1, -1, 32767, -32768, r.int(-4, 4), r.int(-4, 4)]), left=child(), right=child()))
    roots = [r.int(0, N - 1) if N and r.int(0, 5) else -r.int(1, nl) for _ in range(nt)]
    if bits == 0: leaves = [r.int(0, nc - 1) for _ in range(nl)]
    elif bits == 32:
        import struct
        leaves = [b for _ in range(nl) for b in struct.pack('<f', float(r.real()))]
    else: leaves = [r.pick([0, 255, r.int(0, 255)]) for _ in range(nl * max(nc, 4))]
    return dict(n_nodes=N, nodes=nodes, n_trees=nt, tree_roots=roots, n_leaves=len(leaves), leaves=leaves, leaf_bits=bits, n_features=nf, n_classes=nc)


def gen_x(r, f):
    th = [n['value'] for n in f['nodes']] or [0]
    return [max(-32768, min(32767, r.pick(th) + r.int(-1, 1))) for _ in range(f['n_features'])]


class Tree(Contract):
    fn = 'eml_trees_predict_tree'
    args = ['f', 'root', 'x', 'n']
    shape = dict(f=FOREST, x=P(lambda c, o: c.n, const=True))
    props = ('C01', 'C02')

    def requires(self, c): return wf(c.f) + [('feature vector long enough', ge(c.n, c.f.n_features)), ('root valid', rootok(c.f, c.root))]
    def w(self, c, i): return W(*tabs(c.f), c.x.ref(), i)

    def ensures(self, c):
        yield 'the leaf reached by the comparisons', eq(c.ret, self.w(c, c.root))
        yield 'a leaf index', And(ge(c.ret, 0), le(c.ret, 32767))
        known = Or(eq(c.f.leaf_bits, 0), eq(c.f.leaf_bits, 8), eq(c.f.leaf_bits, 32))
        yield 'a leaf of the model', Implies(known, le(add(mul(c.ret, unit(c.f)), unit(c.f)), c.f.n_leaves))

    def invs(self, c, L):
        for i in L.ints:
            yield 'walk', eq(self.w(c, i), self.w(c, c.root))
            yield 'valid position', rootok(c.f, i)

    def variants(self, eng, h, syms):
        c = eng.tctx[0][1]
        for k, x in syms.items():
            if x[0] == 'val' and x[1].sort() == T.I: yield If(lt(x[1], 0), 0, sub(c.f.n_nodes, x[1]))

    def gen(self, r):
        f = gen_forest(r)
        return dict(f=[f], root=r.pick(f['tree_roots']), x=gen_x(r, f), n=f['n_features'])


def errcond(c):
    """(condition, code) in order."""
    return [(Or(c.x.isnull, c.out.isnull), 'EmlUninitialized')]


class Proba(Contract):
    fn = 'eml_trees_predict_proba'
    args = ['f', 'x', 'n', 'out', 'm']
    shape = dict(f=FOREST, x=P(lambda c, o: c.n, null=True, const=True), out=P(lambda c, o: c.m, null=True))
    props = ('C02',)

    def requires(self, c): return wf(c.f) + [('feature vector long enough', ge(c.n, c.f.n_features))]
    def vote(self, c, t, k): return VOTE(0, t, *tabs(c.f), c.x.ref(), c.f.tree_roots.ref(), c.f.leaves.ref(), k)
    def prop(self, c, t, k): return PROP(0, t, *tabs(c.f), c.x.ref(), c.f.tree_roots.ref(), c.f.leaves.ref(), c.f.n_classes, k)
    def good(self, c): return And(Not(c.x.isnull), Not(c.out.isnull), eq(c.m, c.f.n_classes))
    def assigns(self, c): return [(c.out, 0, If(self.good(c), c.m, 0))]

    def mean(self, c, k):
        n = c.f.n_trees
        return If(eq(c.f.leaf_bits, 0), T.div_real(self.vote(c, n, k), n), T.div_real(self.prop(c, n, k), n))

    def ensures(self, c):
        f = c.f
        nul, g = Or(c.x.isnull, c.out.isnull), self.good(c)
        sup = Or(eq(f.leaf_bits, 0), eq(f.leaf_bits, 8))
        yield 'missing pointers give EmlUninitialized', Implies(nul, eq(c.ret, c.E('EmlUninitialized')))
        yield 'wrong output length gives EmlSizeMismatch', Implies(And(Not(nul), ne(c.m, f.n_classes)), eq(c.ret, c.E('EmlSizeMismatch')))
        yield 'unsupported leaf format gives EmlUnsupported', Implies(And(g, Not(sup)), eq(c.ret, c.E('EmlUnsupported')))
        yield 'success otherwise', Implies(And(g, sup), eq(c.ret, c.E('EmlOk')))
        if not c.symbolic and not (g and sup): return
        out = c.post(c.out)
        yield 'hard voting: mean of the class votes', Implies(And(g, eq(f.leaf_bits, 0)), forall(0, c.m, lambda k: req(out[k], T.div_real(self.vote(c, f.n_trees, k), f.n_trees))))
        yield 'means are not negative', Implies(And(g, sup), forall(0, c.m, lambda k: ge(out[k], 0)))
        yield 'soft voting: mean of the class proportions', Implies(And(g, eq(f.leaf_bits, 8)), forall(0, c.m, lambda k: req(out[k], T.div_real(self.prop(c, f.n_trees, k), f.n_trees))))

    def invs(self, c, L):
        out = L.cur(c.out)
        f = c.f
        for i in L.ints:
            yield 'zeroed', forall(0, i, lambda k: req(out[k], 0))
            yield 'votes', forall(0, c.m, lambda k: req(out[k], self.vote(c, i, k)))
            yield 'props', forall(0, c.m, lambda k: req(out[k], self.prop(c, i, k)))
            yield 'mean votes', Implies(eq(f.leaf_bits, 0), forall(0, i, lambda k: req(out[k], T.div_real(self.vote(c, f.n_trees, k), f.n_trees))))
            yield 'mean props', Implies(eq(f.leaf_bits, 8), forall(0, i, lambda k: req(out[k], T.div_real(self.prop(c, f.n_trees, k), f.n_trees))))
            for t in L.outer:
                yield 'row', forall(0, i, lambda k: req(out[k], self.prop(c, add(t, 1), k)))
                yield 'row rest', forall(i, c.m, lambda k: req(out[k], self.prop(c, t, k)))

    def gen(self, r):
        f = gen_forest(r, bits=r.pick([0, 8, 0, 8, 32, 4]))
        m = r.pick([f['n_classes']] * 5 + [f['n_classes'] + 1, 0])
        return dict(f=[f], x=r.pick([gen_x(r, f)] * 8 + [None]), n=f['n_features'], out=r.pick([r.reals(m)] * 8 + [None]), m=m)


class Predict(Contract):
    fn = 'eml_trees_predict'
    args = ['f', 'x', 'n']
    shape = dict(f=FOREST, x=P(lambda c, o: c.n, const=True))
    props = ('C02',)
    vote, prop, mean = Proba.vote, Proba.prop, Proba.mean
    def requires(self, c): return wf(c.f) + [('classifier', ge(c.f.n_classes, 1)), ('length', ge(c.n, 0))]

    def ensures(self, c):
        f = c.f
        bad = Or(ne(c.n, f.n_features), gt(f.n_classes, 30))
        sup = Or(eq(f.leaf_bits, 0), eq(f.leaf_bits, 8))
        yield 'wrong lengths give -EmlTreesErrorLength', Implies(bad, eq(c.ret, T.neg(c.E('EmlTreesErrorLength'))))
        yield 'unsupported leaf format gives -EmlTreesUnknownError', Implies(And(Not(bad), Not(sup)), eq(c.ret, T.neg(c.E('EmlTreesUnknownError'))))
        g = And(Not(bad), sup)
        if not c.symbolic and not g: return
        yield 'a class', Implies(g, And(ge(c.ret, 0), lt(c.ret, f.n_classes)))
        yield 'no class has a larger mean', Implies(g, forall(0, f.n_classes, lambda k: le(self.mean(c, k), self.mean(c, c.ret))))
        yield 'lower-numbered classes have smaller means', Implies(g, forall(0, c.ret, lambda k: lt(self.mean(c, k), self.mean(c, c.ret))))

    def invs(self, c, L):
        for key, a in [(k, a) for k, a in L.h.mem.items() if k[0].startswith('local ') and a.sort() == T.AR]:
            for i in L.ints:
                for b in L.ints:
                    if b is i: continue
                    for v in L.reals:
                        yield 'max so far', forall(0, i, lambda k: le(a[k], v))
                        yield 'attained', Or(And(eq(b, -1), eq(i, 0)), And(le(0, b), lt(b, i), eq(a[b], v)))
                        yield 'attained2', Or(eq(b, -1), And(le(0, b), lt(b, i), eq(a[b], v)))
                        yield 'first', forall(0, b, lambda k: lt(a[k], v))
                        yield 'none yet', Implies(eq(b, -1), And(eq(i, 0), lt(v, 0)))

    def gen(self, r):
        f = gen_forest(r, bits=r.pick([0, 8, 0, 8, 32, 4]), nc=r.pick([None, None, None, 31, 30]))
        n = r.pick([f['n_features']] * 8 + [f['n_features'] + 1])
        return dict(f=[f], x=(gen_x(r, f) + [0] * 5)[:n], n=n)


class Regress(Contract):
    fn = 'eml_trees_regress'
    args = ['f', 'x', 'n', 'out', 'm']
    shape = dict(f=FOREST, x=P(lambda c, o: c.n, const=True), out=P(lambda c, o: c.m))
    props = ('C02',)
    def requires(self, c): return wf(c.f) + [('feature vector long enough', ge(c.n, c.f.n_features))]
    def sum(self, c, t): return LEAFSUM(0, t, *tabs(c.f), c.x.ref(), c.f.tree_roots.ref(), c.f.leaves.ref())
    def good(self, c): return And(ge(c.m, 1), eq(c.f.leaf_bits, 32))
    def assigns(self, c): return [(c.out, 0, If(self.good(c), 1, 0))]

    def ensures(self, c):
        g = self.good(c)
        yield 'too short output gives EmlSizeMismatch', Implies(lt(c.m, 1), eq(c.ret, c.E('EmlSizeMismatch')))
        yield 'unsupported leaf format gives EmlUnsupported', Implies(And(ge(c.m, 1), ne(c.f.leaf_bits, 32)), eq(c.ret, c.E('EmlUnsupported')))
        yield 'success otherwise', Implies(g, eq(c.ret, c.E('EmlOk')))
        if not c.symbolic and not g: return
        yield 'mean of the leaf values', Implies(g, req(c.post(c.out)[0], T.div_real(self.sum(c, c.f.n_trees), c.f.n_trees)))

    def invs(self, c, L):
        for i in L.ints:
            for s in L.reals: yield 'sum', req(s, self.sum(c, i))

    def gen(self, r):
        f = gen_forest(r, bits=r.pick([32, 32, 32, 8]))
        m = r.pick([1, 1, 2, 0])
        return dict(f=[f], x=gen_x(r, f), n=f['n_features'], out=r.reals(m), m=m)


class Regress1(Contract):
    fn = 'eml_trees_regress1'
    args = ['f', 'x', 'n']
    shape = dict(f=FOREST, x=P(lambda c, o: c.n, const=True))
    props = ('C02',)
    sum = Regress.sum
    def requires(self, c): return wf(c.f) + [('feature vector long enough', ge(c.n, c.f.n_features))]

    def ensures(self, c):
        ok = eq(c.f.leaf_bits, 32)
        yield 'NaN on error', Implies(Not(ok), isnan(c.ret))
        if not c.symbolic and not ok: return
        yield 'mean of the leaf values', Implies(ok, req(c.ret, T.div_real(self.sum(c, c.f.n_trees), c.f.n_trees)))

    def gen(self, r):
        f = gen_forest(r, bits=r.pick([32, 32, 32, 8]))
        return dict(f=[f], x=gen_x(r, f), n=f['n_features'])


class OutputsProba(Contract):
    fn = 'eml_trees_outputs_proba'
    args = ['f']
    shape = dict(f=FOREST)
    props = ('C02',)
    def ensures(self, c): return [('one output per class', eq(c.ret, c.f.n_classes))]
    def gen(self, r): return dict(f=[gen_forest(r)])


CONTRACTS = [Tree(), Proba(), Predict(), Regress(), Regress1(), OutputsProba()]
