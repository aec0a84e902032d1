"""C23: literals and declarations written by cgen."""
import re, z3
from vc import py
from vc.py import P, Str, Sym, Seq, Tok, zb, strlift

CFLOAT = r'-?([0-9]+\.[0-9]*(e[+-]?[0-9]+)?|[0-9]+e[+-]?[0-9]+)f?'
SUFFIXES = ['f', '.0f', '', '.0', '.f']
INTTYPES = ['int', 'int8_t', 'int16_t', 'int32_t', 'uint8_t', 'uint16_t', 'int64_t', 'unsigned int']


def float_text(s, v):
    """Obligations: the text s is a C floating constant whose value is v to within single-precision rounding."""
    s = strlift(s)
    e = s.e
    toks = [t for t in P().__dict__.get('toks', []) if t.kind == 'fmt']
    P().oblige('the text is a C floating constant', z3.InRe(e, py.rx(CFLOAT)))
    alts = []
    for t in toks:
        err = py.format_error(t.a[0], t.a[1])
        if err is None: continue
        w = t.a[0].e if t.a[0].real else z3.ToReal(t.a[0].e)
        d = z3.If(w - v >= 0, w - v, v - w)
        a = z3.If(v >= 0, v, -v)
        for x in SUFFIXES: alts.append(z3.And(e == z3.Concat(t.term(), z3.StringVal(x)) if x else e == t.term(), (d + err) * 2 ** 24 <= a))
    P().oblige('the constant reads back as the value to within single precision', z3.Or(*alts) if alts else z3.BoolVal(False))


def int_text(s, v):
    s = strlift(s)
    P().oblige('the text is the decimal form of the value', s.e == Tok('fmt', Sym(z3.simplify(v)), 'd').term() if True else None)


def placeholders(s):
    """Text with its symbolic pieces replaced by @0@, @1@, ..; the pieces."""
    s = strlift(s)
    out, ps = '', []
    for p in s.p:
        if isinstance(p, str): out += p
        else:
            out += '@%d@' % len(ps)
            ps.append(p)
    return out, ps


def is_decimal(p, v):
    return isinstance(p, Tok) and p.kind == 'fmt' and p.a[1] in ('', 'd') and p.a[0].isint and zb(Sym(p.a[0].e == v))


def contracts():
    load = lambda: py.Loader().load('emlearn.cgen')
    out = []

    def const_float(kind):
        def f():
            v = z3.Real('v') if kind == 'float' else z3.Int('v')
            o = py.call(load().constant, Sym(v), 'float')
            P().oblige('no exception', o.exc is None)
            if o.exc is None: float_text(o.value, v if kind == 'float' else z3.ToReal(v))
        return f
    out.append(('cgen.constant (float)', const_float('float')))
    def const_int(dt, kind):
        def f():
            v = z3.Int('v') if kind == 'int' else z3.Real('v')
            o = py.call(load().constant, Sym(v), dt)
            P().oblige('no exception', o.exc is None)
            if o.exc is None: int_text(o.value, v if kind == 'int' else py.trunc(v))
        return f
    for dt in INTTYPES:
        out.append(('cgen.constant (%s)' % dt, const_int(dt, 'int')))
        out.append(('cgen.constant (%s from float)' % dt, const_int(dt, 'float')))

    def declare(dt):
        def f():
            g, name = load(), z3.String('name')
            v = z3.Real('v') if dt == 'float' else z3.Int('v')
            want = py.call(g.constant, Sym(v), dt)
            o = py.call(g.constant_declare, Str([name]), Sym(v), dtype=dt)
            P().oblige('no exception', o.exc is None)
            if o.exc is not None or want.exc is not None: return
            text, ps = placeholders(o.value)
            w = strlift(want.value)
            lead, rest = text.split('=', 1) if '=' in text else ('', '')
            P().oblige('the declaration names the type and the constant', re.fullmatch(r'\s*static\s+const\s+%s\s+@0@\s*' % re.escape(dt), lead) is not None and ps[0].eq(name) if not isinstance(ps[0], Tok) else False)
            val = Str(strlift(o.value).p[strlift(o.value).p.index(ps[0]) + 1:]) if ps else None
            cands = [z3.Concat(z3.StringVal(a), w.e, z3.StringVal(b)) for a in (' = ', '=', ' =', '= ') for b in ('; ', ';', ';\n')]
            P().oblige('the initializer is the constant', z3.Or(*[val.e == c for c in cands]))
        return f
    for dt in ('float', 'int', 'int16_t'): out.append(('cgen.constant_declare (%s)' % dt, declare(dt)))

    def array(dt, mode):
        def f():
            g, name, mods = load(), z3.String('name'), z3.String('modifiers')
            n, k, size = z3.Int('n'), z3.Int('k'), z3.Int('size')
            P().assume(z3.And(n >= 0, k >= 0, k < n))
            sort = z3.RealSort() if dt == 'float' else z3.IntSort()
            at = z3.Function('values', z3.IntSort(), sort)
            vals = Seq(Sym(n), lambda i: Sym(at(py.num(i))))
            kw = dict(dtype=dt, modifiers=Str([mods]))
            if mode != 'declare': kw['values'] = vals
            if mode != 'auto': kw['size'] = Sym(size)
            o = py.call(g.array_declare, Str([name]), **kw)
            if mode == 'sized' and o.exc is not None:
                P().oblige('only a size that does not match is refused', size != n)
                return
            P().oblige('no exception', o.exc is None)
            if o.exc is not None: return
            if mode == 'sized': P().oblige('a size that does not match is refused', size == n)
            text, ps = placeholders(o.value)
            if mode == 'declare':
                ok = re.fullmatch(r'\s*@0@\s+%s\s+@1@\s*\[\s*@2@\s*\]\s*;\s*' % re.escape(dt), text)
                P().oblige('declaration form', ok is not None)
                if ok: P().oblige('declared size', is_decimal(ps[2], size))
                return
            ok = re.fullmatch(r'\s*@0@\s+%s\s+@1@\s*\[\s*@2@\s*\]\s*=\s*\{\s*@3@\s*,?\s*\}\s*;\s*' % re.escape(dt), text)
            P().oblige('declaration form', ok is not None)
            if not ok: return
            P().oblige('modifiers and name', not isinstance(ps[0], Tok) and ps[0].eq(mods) and not isinstance(ps[1], Tok) and ps[1].eq(name))
            P().oblige('declared size is the number of values', is_decimal(ps[2], n))
            j = ps[3]
            P().oblige('the initializer lists a sequence', isinstance(j, Tok) and j.kind == 'join' and isinstance(j.a[0], str) and j.a[0].strip() == ',')
            if not (isinstance(j, Tok) and j.kind == 'join'): return
            P().oblige('one initializer per value', py.num(j.a[1].n) == n)
            got = j.a[1].f(Sym(k))
            want = g.constant(Sym(at(k)), dt)
            P().oblige('initializer k is the constant for value k', strlift(got).e == strlift(want).e)
        return f
    for dt in ('float', 'int', 'uint8_t', 'int16_t'):
        for mode in ('auto', 'sized', 'declare'): out.append(('cgen.array_declare (%s, %s)' % (dt, mode), array(dt, mode)))
    return out


def run(tier, seed, secs):
    res = [py.verify(n, f) for n, f in contracts()]
    dyn = py.rundyn('C23', tier, seed, 60 if tier == 'quick' else 300)
    return py.collect(res, dyn, ['format(): the texts it gives for a finite number and how far they are from it (vc/py.py:format_language, format_error)', 'str.join lists the elements in order'])


def replay(x): return py.rundyn('C23', 'quick', 1, 60, replay=x)['replay']
