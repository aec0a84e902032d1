"""C05: child references of node tables fit the C fields and decode to what was encoded, or are refused."""
import re, z3
from vc import py, cfront
from vc.py import P, Str, Sym, Seq, Tok, zb, num
from pyprops.c23 import placeholders, is_decimal

_ranges = {}
def ranges():
    """Range of each field of EmlTreesNode, from the clang AST of the current headers."""
    if not _ranges:
        for name, bits, signed in node_fields(): _ranges[name] = (-2 ** (bits - 1), 2 ** (bits - 1) - 1) if signed else (0, 2 ** bits - 1)
        _ranges['order'] = [n for n, b, s in node_fields()]
    return _ranges


def node_fields():
    f = cfront.load()
    return cfront.int_fields(f, 'EmlTreesNode')


def decode(index, e): return z3.If(e < 0, e, index + e)


def fits(e): return z3.And(*[z3.And(e >= ranges()[k][0], e <= ranges()[k][1]) for k in ('left', 'right')])


def representable(index, child): return z3.If(child < 0, fits(child), z3.And(child > index, fits(child - index)))


def contracts():
    load = lambda: py.Loader().load('emlearn.trees')

    def assert_valid():
        v = z3.Int('value')
        o = py.call(load().assert_valid_child, Sym(v))
        if o.exc is None: P().oblige('an accepted value fits the table fields', fits(v))
        else: P().oblige('a refused value does not fit the table fields', z3.Not(fits(v)))

    def encode():
        i, c = z3.Int('index'), z3.Int('child')
        P().assume(i >= 0)
        o = py.call(load().encode_child, Sym(i), Sym(c))
        if o.exc is not None:
            P().oblige('a refused reference is not representable', z3.Not(representable(i, c)))
            return
        e = num(o.value)
        P().oblige('the encoded reference fits the table fields', fits(e))
        P().oblige('decoding gives back the reference', decode(i, e) == c)
        P().oblige('references to decision nodes are strictly forward', z3.Implies(c >= 0, z3.And(e > 0, c > i)))

    def nodes():
        m = load()
        n, k = z3.Int('n'), z3.Int('k')
        P().assume(z3.And(n >= 0, k >= 0, k < n))
        I = z3.IntSort()
        F, L, Rr = (z3.Function(x, I, I) for x in ('feature', 'left', 'right'))
        V = z3.Function('value', I, z3.RealSort())
        flat = Seq(Sym(n), lambda i: [Sym(F(num(i))), Sym(V(num(i))), Sym(L(num(i))), Sym(Rr(num(i)))])
        o = py.call(m.generate_c_nodes, flat, Str([z3.String('name')]), dtype='int16_t', modifiers='static const')
        P().oblige('no exception', o.exc is None)
        if o.exc is not None: return
        text, ps = placeholders(o.value)
        ok = re.fullmatch(r'\s*static const\s+EmlTreesNode\s+@0@\s*\[\s*@1@\s*\]\s*=\s*\{\s*@2@\s*,?\s*\}\s*;\s*', text)
        P().oblige('declaration form', ok is not None)
        if not ok: return
        P().oblige('declared length', is_decimal(ps[1], n))
        j = ps[2]
        P().oblige('one entry per node', j.a[1].n.e == n if isinstance(j, Tok) and j.kind == 'join' else False)
        P().oblige('the order of the fields is that of the C struct', ranges()['order'] == ['feature', 'value', 'left', 'right'])
        el = py.call(j.a[1].f, Sym(k))
        rep = z3.And(representable(k, L(k)), representable(k, Rr(k)))
        if el.exc is not None:
            P().oblige('a refused node is not representable', z3.Not(rep))
            return
        et, eps = placeholders(el.value)
        ok = re.fullmatch(r'\s*\{\s*@0@\s*,\s*@1@\s*,\s*@2@\s*,\s*@3@\s*\}\s*', et)
        P().oblige('entry form', ok is not None)
        if not ok: return
        P().oblige('an emitted node is representable', rep)
        P().oblige('feature written', is_decimal(eps[0], F(k)))
        l, r = eps[2], eps[3]
        dec = lambda t: isinstance(t, Tok) and t.kind == 'fmt' and t.a[1] in ('', 'd') and t.a[0].isint
        P().oblige('references written as decimals', dec(l) and dec(r))
        if dec(l) and dec(r):
            P().oblige('left reference decodes to the left child', z3.And(fits(l.a[0].e), decode(k, l.a[0].e) == L(k)))
            P().oblige('right reference decodes to the right child', z3.And(fits(r.a[0].e), decode(k, r.a[0].e) == Rr(k)))
    return [('trees.assert_valid_child', assert_valid), ('trees.encode_child', encode), ('trees.generate_c_nodes', nodes)]


def run(tier, seed, secs):
    res = [py.verify(n, f) for n, f in contracts()]
    dyn = py.rundyn('C05', tier, seed, 60 if tier == 'quick' else 300)
    out = py.collect(res, dyn, ['str.join lists the elements in order', 'format() of integers'])
    out['bounded'].append(dict(fn='trees.Wrapper.save (csv)', why='the CSV form of the table is executed for bounded tables'))
    return out


def replay(x): return py.rundyn('C05', 'quick', 1, 60, replay=x)['replay']
