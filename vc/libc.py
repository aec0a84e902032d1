"""Contracts assumed for external (C library) functions. These are the trusted ones."""
from fractions import Fraction
import z3
from . import terms as T, spec
from .terms import And, Or, Not, Implies, If, lt, le, gt, ge, eq, ne, add, sub, mul
from . import engine as E

TRUSTED = {
    'expf': 'the real exponential: exp(x) > 0, exp(a+b)=exp(a)exp(b)',
    'logf': 'the real logarithm, inverse of exp on positive reals',
    'tanhf': 'an uninterpreted real function', 'powf': 'the square for exponent 2, else an uninterpreted real function',
    'cos': 'an uninterpreted real function', 'cosf': 'an uninterpreted real function', 'sinf': 'an uninterpreted real function',
    'log10': 'an uninterpreted real function', 'floor': 'largest integer not above', 'fabs': 'absolute value', 'fabsf': 'absolute value',
    'abs': 'absolute value (argument not INT_MIN)', 'memcpy': 'copies n bytes between disjoint (or identical) ranges', 'memset': 'fills with zero bytes',
    '__builtin_inff': 'a real larger than every finite float', '__builtin_nanf': 'the value NAN',
}

tanh_ = spec.Fun('tanh', lambda app, x: [], lambda x: Fraction(__import__('math').tanh(x)))
cos_ = spec.Fun('cos', lambda app, x: [], lambda x: Fraction(__import__('math').cos(x)))
sin_ = spec.Fun('sin', lambda app, x: [], lambda x: Fraction(__import__('math').sin(x)))
log10_ = spec.Fun('log10', lambda app, x: [], lambda x: Fraction(__import__('math').log10(x)))
pow_ = spec.Fun('pow', lambda app, x, y: [], lambda x, y: Fraction(float(x) ** float(y)))


def _exp(e, st, a, cts, rt):
    h = getattr(e.top, 'on_exp', None)
    if h: h(e, st, a[0])
    return spec.EXP(T.zr(a[0]))


def _log(e, st, a, cts, rt):
    e.check(st, 'log', 'logarithm of a positive value', gt(a[0], 0))
    return spec.LOGF(T.zr(a[0]))


def _fabs(e, st, a, cts, rt): return If(ge(a[0], 0), a[0], T.neg(a[0]))


def _abs(e, st, a, cts, rt):
    e.check(st, 'overflow', 'abs of a value above INT_MIN', gt(a[0], -2**31))
    return If(ge(a[0], 0), a[0], T.neg(a[0]))


def _pow(e, st, a, cts, rt):
    if T.num(a[1]) and a[1] == 2: return mul(a[0], a[0])
    return pow_(T.zr(a[0]), T.zr(a[1]))


def _floor(e, st, a, cts, rt):
    if T.num(a[0]): return Fraction(a[0].numerator // a[0].denominator)
    return z3.ToReal(z3.ToInt(T.zr(a[0])))


def _sqrt(e, st, a, cts, rt):
    r = T.fresh('sqrt', T.R)
    e.check(st, 'sqrt', 'square root of a non-negative value', ge(a[0], 0))
    st.assume(And(r >= 0, r * r == T.zr(a[0])))
    return r


def region_of(p, what):
    alts = [x for x in p.alts if x[1] is not None]
    if len(alts) != 1: raise E.Unsupported(what + ' through several regions')
    return alts[0]


def _memcpy(e, st, a, cts, rt):
    dst, src, n = a
    for p, w in ((dst, 'write'), (src, 'read')):
        e.check(st, 'null', 'memcpy argument not null', Not(e.isnull(p)))
    _, r, i, o = region_of(dst, 'memcpy')
    _, q, k, s = region_of(src, 'memcpy')
    es = e.esize(r)
    if es != e.esize(q): raise E.Unsupported('memcpy between element sizes')
    if T.num(n): 
        if n % es: raise E.Unsupported('memcpy of partial elements')
        m = n // es
    elif es == 1: m = n
    else:
        m = T.fresh('count', T.I)
        m0 = z3.simplify(T.zi(n))
        q_ = exact_div(m0, es)
        if q_ is None:
            e.check(st, 'memcpy', 'whole number of elements copied', eq(T.zi(n) % es, 0))
            m = z3.simplify(T.zi(n) / es)
        else: m = q_
    e.check(st, 'bounds', 'memcpy source within %s' % q.name, And(ge(s, 0), ge(m, 0), le(add(s, m), q.len_at(k))))
    e.check(st, 'bounds', 'memcpy destination within %s' % r.name, And(ge(o, 0), le(add(o, m), r.len_at(i))))
    if r is q: e.check(st, 'memcpy', 'memcpy ranges do not overlap', Or(eq(s, o), le(add(s, m), o), le(add(o, m), s), eq(m, 0)))
    if r.const: raise E.Unsupported('memcpy to constant')
    for path, ct in e.leaves(r.elem):
        if ct.k not in ('int', 'bool', 'float'): raise E.Unsupported('memcpy of pointers')
        if r.fam or q.fam: raise E.Unsupported('memcpy of families')
        old, frm = st.mem[(r.name, path)], st.mem[(q.name, path)]
        if old.sort() != frm.sort(): raise E.Unsupported('memcpy between types')
        if T.num(m) and m <= 8:
            new = old
            for j in range(m): new = z3.Store(new, T.zi(add(o, j)), z3.Select(frm, T.zi(add(s, j))))
            st.mem[(r.name, path)] = new
            continue
        new = T.fresh(r.name + path, old.sort())
        st.mem[(r.name, path)] = new
        if e.dry: continue
        j = T.fresh('j', T.I)
        body = z3.If(T.zb(And(le(o, j), lt(j, add(o, m)))), z3.Select(new, j) == z3.Select(frm, T.zi(add(sub(j, o), s))),
                     z3.Select(new, j) == z3.Select(old, j))
        st.assume(z3.ForAll([j], body, patterns=[z3.Select(new, j)]))
    return dst


def exact_div(t, es):
    """t/es for a linear term whose coefficients are all divisible."""
    if z3.is_int_value(t): return z3.IntVal(t.as_long() // es) if t.as_long() % es == 0 else None
    if z3.is_add(t):
        ch = [exact_div(c, es) for c in t.children()]
        if any(c is None for c in ch): return None
        return z3.Sum(*ch)
    if z3.is_mul(t):
        ch = list(t.children())
        for i, c in enumerate(ch):
            if z3.is_int_value(c) and c.as_long() % es == 0:
                q = c.as_long() // es
                rest = ch[:i] + ch[i + 1:]
                r = rest[0]
                for x in rest[1:]: r = r * x
                return r if q == 1 else z3.IntVal(q) * r
    return None


def _memset(e, st, a, cts, rt):
    dst, v, n = a
    if not (T.num(v) and v == 0): raise E.Unsupported('memset of non-zero')
    _, r, i, o = region_of(dst, 'memset')
    es = e.esize(r)
    if not T.num(n) or n % es: raise E.Unsupported('memset of symbolic length')
    m = n // es
    e.check(st, 'bounds', 'memset within %s' % r.name, And(ge(o, 0), le(add(o, m), r.len_at(i))))
    for path, ct in e.leaves(r.elem):
        old = st.mem[(r.name, path)]
        if T.num(o) and o == 0 and m == r.length: st.mem[(r.name, path)] = z3.K(T.I, z3.RealVal(0) if ct.isfloat else z3.IntVal(0)); continue
        new = old
        if m > 64: raise E.Unsupported('large memset')
        for j in range(m): new = z3.Store(new, T.zi(add(o, j)), z3.RealVal(0) if ct.isfloat else z3.IntVal(0))
        st.mem[(r.name, path)] = new
    return dst


def _un(fn): return lambda e, st, a, cts, rt: fn(T.zr(a[0]))


MODELS = {
    'expf': _exp, 'exp': _exp, 'logf': _log, 'log': _log, 'fabsf': _fabs, 'fabs': _fabs, 'abs': _abs, 'labs': _abs,
    'tanhf': _un(tanh_), 'tanh': _un(tanh_), 'cosf': _un(cos_), 'cos': _un(cos_), 'sinf': _un(sin_), 'sin': _un(sin_),
    'log10': _un(log10_), 'log10f': _un(log10_), 'powf': _pow, 'pow': _pow, 'floor': _floor, 'floorf': _floor,
    'sqrt': _sqrt, 'sqrtf': _sqrt, 'memcpy': _memcpy, 'memset': _memset,
    '__builtin_inff': lambda e, st, a, cts, rt: T.INF, '__builtin_nanf': lambda e, st, a, cts, rt: T.NAN,
    'printf': lambda e, st, a, cts, rt: T.fresh('printf', T.I),
    'fmaxf': lambda e, st, a, cts, rt: If(ge(a[0], a[1]), a[0], a[1]), 'fminf': lambda e, st, a, cts, rt: If(le(a[0], a[1]), a[0], a[1]),
}
