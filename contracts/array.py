"""C12: the array container."""
from vc.contract import *

MAX = 2**31 - 1


def prefix(d, k):
    """Product of the first k dimensions."""
    return If(le(k, 0), 1, If(eq(k, 1), d[0], If(eq(k, 2), mul(d[0], d[1]), mul(mul(d[0], d[1]), d[2]))))


def word(d, k):
    """int16 value number k of a byte buffer (little endian)."""
    v = add(d[mul(2, k)], mul(256, d[add(mul(2, k), 1)]))
    return If(ge(v, 32768), sub(v, 65536), v)


def w16(d, k):
    v = d[k] + 256 * d[k + 1] if not T.isz(k) and not T.isz(d[k]) else add(d[k], mul(256, d[add(k, 1)]))
    return If(ge(v, 32768), sub(v, 65536), v)


def nbytes(o): return If(eq(o.n_dims, 2), mul(o.value_size, mul(o.dims[0], o.dims[1])), 0)


def arr(const=False): return P(1, const=const, data=P(lambda c, o: nbytes(o), const=const))


def wf(a):
    """What eml_array_init_full establishes, for two dimensions."""
    return Implies(eq(a.n_dims, 2), And(ge(a.dims[0], 1), ge(a.dims[1], 0), ge(a.value_size, 1), le(mul(mul(a.value_size, a.dims[0]), a.dims[1]), MAX), le(mul(a.dims[0], a.dims[1]), MAX), le(mul(a.value_size, a.dims[0]), MAX)))


def genarr(r, vs=None, dims=None):
    n = r.pick([2] * 12 + [1, 3])
    vs = vs or r.pick([1, 2, 2, 4])
    d = dims or [r.int(1, 4), r.int(0, 5), 0]
    if n != 2: d = [r.int(1, 3), r.int(0, 3), r.int(0, 3)]
    m = vs * d[0] * d[1] if n == 2 else 0
    return dict(dims=d, n_dims=n, value_size=vs, data=[r.int(0, 255) for _ in range(m)])


class Storage(Contract):
    fn = 'eml_storage_size_array'
    args = ['n', 'dims', 'vs']
    shape = dict(dims=P(3, const=True))
    props = ('C12',)
    def requires(self, c):
        d = c.dims
        return [('dimensions', And(ge(c.n, 0), le(c.n, 3), ge(c.vs, 0), *[Implies(gt(c.n, k), And(ge(d[k], 0), le(prefix(d, k + 1), MAX))) for k in range(3)]))]
    def ensures(self, c): return [('product of the dimensions and the value size', eq(c.ret, mul(prefix(c.dims, c.n), c.vs)))]
    def invs(self, c, L):
        for i in L.ints:
            for p in L.ints:
                if p is not i: yield 'product', eq(p, prefix(c.dims, i))
    def gen(self, r):
        n = r.int(0, 3)
        return dict(n=n, dims=[r.pick([0, 1, 2, 7, 1000, r.int(0, 60)]) for _ in range(3)], vs=r.int(0, 8))


class InitFull(Contract):
    fn = 'eml_array_init_full'
    args = ['a', 'n', 'dims', 'vs', 'buf', 'len']
    shape = dict(a=P(1, data=P(0, opaque=True)), dims=P(3, const=True), buf=P(lambda c, o: c.len))
    props = ('C12',)

    def good(self, c):
        d, n = c.dims, c.n
        return And(ge(n, 1), le(n, 3), ge(d[0], 1), ge(c.vs, 1), *[Implies(gt(n, k), And(ge(d[k], 0), le(mul(c.vs, prefix(d, k + 1)), MAX))) for k in range(3)], le(mul(c.vs, prefix(d, n)), c.len))

    def assigns(self, c):
        g = self.good(c)
        return [(c.a, 0, If(g, 1, 0), ('n_dims', 'value_size', 'data')), (c.a.dims, 0, If(g, 3, 0))]

    def ensures(self, c):
        g = self.good(c)
        yield 'accepted exactly when the dimensions are valid and the buffer is large enough', iff(eq(c.ret, c.E('EmlOk')), g)
        yield 'refused with EmlSizeMismatch', Or(g, eq(c.ret, c.E('EmlSizeMismatch')))
        if not c.symbolic and not g: return
        a = c.post(c.a)
        yield 'dimensions stored', Implies(g, And(eq(a.n_dims, c.n), eq(a.value_size, c.vs), *[eq(a.dims[k], If(gt(c.n, k), c.dims[k], 0)) for k in range(3)]))
        if c.symbolic:
            p, q = a.data._p, c.buf._p
            r = [x for x in p.alts if x[1] is q.alts[0][1]]
            yield 'the array refers to the buffer', Implies(g, And(Or(*[x[0] for x in r]), *[Implies(x[0], eq(x[3], q.alts[0][3])) for x in r])) if r else Not(g)

    def invs(self, c, L):
        d = L.cur(c.a.dims)
        for i in L.ints:
            for k in range(3):
                yield 'cleared', Or(le(i, k), eq(d[k], 0))
                yield 'set', Or(le(i, k), eq(d[k], c.dims[k]))
                yield 'non-negative', Or(le(i, k), ge(c.dims[k], 0))
                yield 'bounded', Or(le(i, k), le(mul(c.vs, prefix(c.dims, k + 1)), MAX))
                yield 'rest', Or(gt(i, k), eq(d[k], 0))
            for p in L.ints:
                if p is not i:
                    yield 'size', eq(p, mul(c.vs, prefix(c.dims, i)))

    def gen(self, r):
        n = r.pick([2, 2, 2, 1, 3, 3, 0, 4, -1])
        big = r.int(0, 9) == 0
        dims = [r.pick([1, 2, 3, 0, r.int(0, 6), -1 if r.int(0, 4) == 0 else 1] + ([2**31 - 1, 2**30, 65536, -2**31, -3] if big else [])) for _ in range(3)]
        vs = r.pick([1, 2, 4, 2, 0 if r.int(0, 5) == 0 else 1, -1 if r.int(0, 5) == 0 else 2])
        need = vs
        for d in dims[:max(0, min(3, n))]: need *= d
        ln = max(0, min(2000, need + r.pick([0, 0, 1, -1, 5])))
        return dict(a=[dict(dims=[7, 8, 9], n_dims=5, value_size=5, data=[])], n=n, dims=dims, vs=vs, buf=[0] * ln, len=ln)


class Size(Contract):
    fn = 'eml_array_storage_size'
    args = ['a']
    shape = dict(a=P(1, data=P(0, opaque=True)))
    props = ('C12',)
    def requires(self, c):
        d = c.a.dims
        return [('dimensions', And(ge(c.a.n_dims, 0), le(c.a.n_dims, 3), ge(c.a.value_size, 0), *[Implies(gt(c.a.n_dims, k), And(ge(d[k], 0), le(prefix(d, k + 1), MAX))) for k in range(3)]))]
    def ensures(self, c): return [('bytes of all values', eq(c.ret, mul(prefix(c.a.dims, c.a.n_dims), c.a.value_size)))]
    def gen(self, r): return dict(a=[dict(dims=[r.int(0, 9) for _ in range(3)], n_dims=r.int(0, 3), value_size=r.int(0, 4), data=[])])


class Data2d(Contract):
    fn = 'eml_array_data_2d'
    args = ['a', 'col', 'row']
    shape = dict(a=arr())
    props = ('C12',)
    def requires(self, c): return [('array', wf(c.a))]
    def inside(self, c): return And(eq(c.a.n_dims, 2), ge(c.col, 0), lt(c.col, c.a.dims[0]), ge(c.row, 0), lt(c.row, c.a.dims[1]))

    def ensures(self, c):
        g = self.inside(c)
        yield 'no element outside the array', iff(c.ret.isnull if c.symbolic or isinstance(c.ret, View) else True, Not(g))
        if not c.symbolic and not g: return
        want = mul(c.a.value_size, add(mul(c.row, c.a.dims[0]), c.col))
        q = c.a.data._p.alts
        alts = [x for x in c.ret._p.alts if x[1] is not None]
        off = [x[3] for x in alts if any(x[1] is y[1] for y in q)]
        yield 'the element of the column and row', Implies(g, eq(off[0], want)) if len(off) == 1 and len(alts) == 1 else (Not(g) if not alts else False)
        yield 'inside the buffer', Implies(g, And(ge(want, 0), le(add(want, c.a.value_size), nbytes(c.a))))
        if c.symbolic:
            # distinct coordinates have distinct elements
            x, y = T.fresh('col2', T.I), T.fresh('row2', T.I)
            other = add(mul(y, c.a.dims[0]), x)
            same = eq(other, add(mul(c.row, c.a.dims[0]), c.col))
            rng = And(g, ge(x, 0), lt(x, c.a.dims[0]), ge(y, 0), lt(y, c.a.dims[1]))
            yield 'distinct rows have distinct elements', Implies(And(rng, lt(y, c.row)), lt(other, add(mul(c.row, c.a.dims[0]), c.col)))
            yield 'distinct columns have distinct elements', Implies(And(rng, eq(y, c.row), ne(x, c.col)), Not(same))

    def gen(self, r):
        a = genarr(r)
        return dict(a=[a], col=r.int(-1, a['dims'][0]), row=r.int(-1, a['dims'][1]))


class Fill(Contract):
    fn = 'eml_array_fill'
    args = ['a', 'v']
    shape = dict(a=arr())
    props = ('C12',)
    inline = ('eml_array_data_2d',)
    qms = 4000
    def requires(self, c): return [('array', wf(c.a)), ('value fits', And(gt(c.v, -32769), lt(c.v, 32768)))]
    def good(self, c): return And(eq(c.a.n_dims, 2), eq(c.a.value_size, 2))
    def assigns(self, c): return [(c.a.data, 0, If(self.good(c), nbytes(c.a), 0))]

    def ensures(self, c):
        g = self.good(c)
        yield 'unsupported arrays refused', eq(c.ret, If(g, c.E('EmlOk'), c.E('EmlUnsupported')))
        if not c.symbolic and not g: return
        d = c.post(c.a.data)
        cols, rows, v = c.a.dims[0], c.a.dims[1], T.trunc(c.v)
        yield 'every element set', Implies(g, forall(0, cols, lambda i: forall(0, rows, lambda j: eq(word(d, add(mul(j, cols), i)), v))))

    def invs(self, c, L):
        d, cols, rows, v = L.cur(c.a.data), c.a.dims[0], c.a.dims[1], T.zi(T.trunc(c.v))
        def is_v(k): return And(eq(d[mul(2, k)], v % 256), eq(d[add(mul(2, k), 1)], (v / 256) % 256))
        for i in L.ints:
            yield 'columns done', forall(0, i, lambda x: forall(0, rows, lambda y: is_v(add(mul(y, cols), x))))
            yield 'rows done', forall(0, i, lambda y: forall(0, cols, lambda x: is_v(add(mul(y, cols), x))))
            for o in L.outer:
                if o is i: continue
                yield 'columns before', forall(0, o, lambda x: forall(0, rows, lambda y: is_v(add(mul(y, cols), x))))
                yield 'this column', forall(0, i, lambda y: is_v(add(mul(y, cols), o)))
                yield 'rows before', forall(0, o, lambda y: forall(0, cols, lambda x: is_v(add(mul(y, cols), x))))
                yield 'this row', forall(0, i, lambda x: is_v(add(mul(o, cols), x)))

    def gen(self, r): return dict(a=[genarr(r, r.pick([2, 2, 2, 1, 4]))], v=r.pick([Fraction(r.int(-32768, 32767)), r.real(), Fraction(-32768), Fraction(32767)]))


COL = spec.Fold('colsum', lambda d, cols, i, j: w16(d, mul(2, add(mul(j, cols), i))), real=False)
TOTAL = spec.Fold('arrsum', lambda d, cols, rows, i: COL(0, rows, d, cols, i), real=False)


class Sum(Contract):
    fn = 'eml_array_sum'
    args = ['a', 'out']
    shape = dict(a=arr(True), out=P(1))
    props = ('C12',)
    inline = ('eml_array_data_2d',)
    def requires(self, c): return [('array', wf(c.a))]
    def good(self, c): return And(eq(c.a.n_dims, 2), eq(c.a.value_size, 2))
    def assigns(self, c): return [(c.out, 0, If(self.good(c), 1, 0))]

    def ensures(self, c):
        g = self.good(c)
        yield 'unsupported arrays refused', eq(c.ret, If(g, c.E('EmlOk'), c.E('EmlUnsupported')))
        if not c.symbolic and not g: return
        t = TOTAL(0, c.a.dims[0], c.a.data.ref(), c.a.dims[0], c.a.dims[1])
        yield 'sum of all elements', Implies(g, eq(c.post(c.out)[0], T.zr(t) if T.isz(t) else t))

    def invs(self, c, L):
        d, cols, rows = c.a.data.ref(), c.a.dims[0], c.a.dims[1]
        for i in L.ints:
            for s in L.reals:
                yield 'sum of columns', eq(s, T.zr(TOTAL(0, i, d, cols, rows)))
                for o in L.outer:
                    if o is not i: yield 'sum', eq(s, T.zr(add(TOTAL(0, o, d, cols, rows), COL(0, i, d, cols, o))))

    def gen(self, r): return dict(a=[genarr(r, r.pick([2, 2, 2, 1]))], out=[Fraction(5)])


class Shift(Contract):
    fn = 'eml_array_shift_rows'
    args = ['a', 's']
    shape = dict(a=arr())
    props = ('C12',)
    inline = ('eml_array_data_2d',)
    def requires(self, c): return [('array', wf(c.a)), ('rows', Or(eq(c.a.n_dims, 2), gt(c.a.dims[1], -MAX)))]
    def rs(self, c): return mul(c.a.value_size, c.a.dims[0])
    def good(self, c): return And(eq(c.a.n_dims, 2), le(c.s, 0), le(T.neg(c.s), c.a.dims[1]))
    def assigns(self, c): return [(c.a.data, 0, If(self.good(c), mul(self.rs(c), add(c.a.dims[1], c.s)), 0))]

    def ensures(self, c):
        g, e = self.good(c), c.E
        rows = c.a.dims[1]
        yield 'only two dimensions', Implies(ne(c.a.n_dims, 2), eq(c.ret, e('EmlUnsupported')))
        two = eq(c.a.n_dims, 2)
        far = Or(gt(c.s, rows), gt(T.neg(c.s), rows))
        yield 'shifting by more rows than there are is refused', Implies(And(two, far), eq(c.ret, e('EmlSizeMismatch')))
        yield 'forward shifts are refused', Implies(And(two, Not(far), gt(c.s, 0)), eq(c.ret, e('EmlUnsupported')))
        yield 'success otherwise', Implies(g, eq(c.ret, e('EmlOk')))
        if not c.symbolic and not g: return
        d, o, rs = c.post(c.a.data), c.a.data, self.rs(c)
        yield 'rows moved down', Implies(g, forall(0, add(rows, c.s), lambda i: forall(0, rs, lambda b: eq(d[add(mul(i, rs), b)], o[add(mul(sub(i, c.s), rs), b)]))))

    def invs(self, c, L):
        d, o, rs, rows = L.cur(c.a.data), c.a.data, self.rs(c), c.a.dims[1]
        for i in L.ints:
            yield 'moved', forall(0, i, lambda k: forall(0, rs, lambda b: eq(d[add(mul(k, rs), b)], o[add(mul(sub(k, c.s), rs), b)])))
            yield 'rest', forall(mul(i, rs), mul(rs, rows), lambda k: eq(d[k], o[k]))

    def gen(self, r):
        a = genarr(r)
        return dict(a=[a], s=r.pick([0, -1, -2, r.int(-6, 3), -a['dims'][1], -a['dims'][1] - 1, 1, -2**31 if r.int(0, 9) == 0 else -1]))


class Copy(Contract):
    fn = 'eml_array_copy_rows'
    args = ['a', 'start', 'o']
    shape = dict(a=arr(), o=arr(True))
    props = ('C12',)
    inline = ('eml_array_data_2d',)
    def requires(self, c): return [('array', wf(c.a)), ('other array', wf(c.o))]
    def good(self, c): return And(eq(c.a.n_dims, 2), eq(c.o.n_dims, 2), ge(c.start, 0), eq(c.a.dims[0], c.o.dims[0]), eq(c.a.value_size, c.o.value_size), le(add(c.start, c.o.dims[1]), c.a.dims[1]))
    def rs(self, c): return mul(c.a.value_size, c.a.dims[0])
    def assigns(self, c): return [(c.a.data, If(self.good(c), mul(c.start, self.rs(c)), 0), If(self.good(c), mul(add(c.start, c.o.dims[1]), self.rs(c)), 0))]

    def ensures(self, c):
        g, e = self.good(c), c.E
        sup = And(eq(c.a.n_dims, 2), eq(c.o.n_dims, 2), ge(c.start, 0))
        yield 'unsupported shapes and places', Implies(Not(sup), eq(c.ret, e('EmlUnsupported')))
        yield 'rows that do not fit', Implies(And(sup, Not(g)), eq(c.ret, e('EmlSizeMismatch')))
        yield 'success otherwise', Implies(g, eq(c.ret, e('EmlOk')))
        if not c.symbolic and not g: return
        d, o, rs = c.post(c.a.data), c.o.data, self.rs(c)
        yield 'rows copied', Implies(g, forall(0, c.o.dims[1], lambda i: forall(0, rs, lambda b: eq(d[add(mul(add(i, c.start), rs), b)], o[add(mul(i, rs), b)]))))

    def invs(self, c, L):
        d, o, rs = L.cur(c.a.data), c.o.data, self.rs(c)
        for i in L.ints:
            yield 'copied', forall(0, i, lambda k: forall(0, rs, lambda b: eq(d[add(mul(add(k, c.start), rs), b)], o[add(mul(k, rs), b)])))
            yield 'before', forall(0, mul(c.start, rs), lambda k: eq(d[k], c.a.data[k]))
            yield 'after', forall(mul(add(i, c.start), rs), nbytes(c.a), lambda k: eq(d[k], c.a.data[k]))

    def gen(self, r):
        a = genarr(r)
        o = genarr(r, r.pick([a['value_size']] * 6 + [1, 4]), [a['dims'][0] if r.int(0, 8) else r.int(1, 4), r.int(0, 4), 0])
        return dict(a=[a], start=r.pick([0, 1, a['dims'][1] - o['dims'][1], a['dims'][1] - o['dims'][1] + 1, -1, r.int(0, 3), 2**31 - 1 if r.int(0, 9) == 0 else 0]), o=[o])


CONTRACTS = [Storage(), InitFull(), Size(), Data2d(), Fill(), Sum(), Shift(), Copy()]
