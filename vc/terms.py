"""Terms: python numbers are kept concrete, everything else is z3."""
from fractions import Fraction
import z3

I = z3.IntSort()
R = z3.RealSort()
AI = z3.ArraySort(I, I)
AR = z3.ArraySort(I, R)
INF = z3.Real('INF')
NAN = z3.Real('NAN')

_n = [0]


def fresh(name, sort):
    _n[0] += 1
    return z3.Const('%s!%d' % (name, _n[0]), sort)


def num(x):
    return isinstance(x, (int, Fraction, float)) and not isinstance(x, bool)


def isz(x):
    return isinstance(x, z3.ExprRef)


def zi(x):
    if isinstance(x, bool): return z3.IntVal(int(x))
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, z3.BoolRef): return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


def zr(x):
    if isinstance(x, bool): x = int(x)
    if isinstance(x, int): return z3.RealVal(x)
    if isinstance(x, Fraction): return z3.RealVal(str(x))
    if isinstance(x, float): return z3.RealVal(str(Fraction(x)))
    if isz(x) and x.sort() == I: return z3.ToReal(x)
    if isinstance(x, z3.BoolRef): return z3.If(x, z3.RealVal(1), z3.RealVal(0))
    return x


def zb(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    return x


def z(x):
    """Any scalar to z3."""
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, Fraction): return z3.RealVal(str(x))
    return x


def unz(x):
    """z3 numeral -> python number."""
    if isz(x):
        if z3.is_int_value(x): return x.as_long()
        if z3.is_rational_value(x): return Fraction(x.numerator_as_long(), x.denominator_as_long())
        if z3.is_true(x): return True
        if z3.is_false(x): return False
    return x


def isreal(x):
    return isinstance(x, (Fraction, float)) or (isz(x) and x.sort() == R)


def pair(a, b):
    if isinstance(a, bool) or isinstance(a, z3.BoolRef): a = toint(a)
    if isinstance(b, bool) or isinstance(b, z3.BoolRef): b = toint(b)
    if isreal(a) or isreal(b): return zr(a), zr(b)
    return zi(a), zi(b)


def toint(v):
    if isinstance(v, bool): return int(v)
    if isinstance(v, z3.BoolRef): return unz(z3.If(v, z3.IntVal(1), z3.IntVal(0)))
    return v


MULS = {}      # products of two symbolic integers seen so far: for monotonicity hints


def add(a, b):
    a, b = toint(a), toint(b)
    if num(a) and num(b): return a + b
    if num(a) and a == 0 and not (isreal(a) and not isreal(b)): return b
    if num(b) and b == 0 and not (isreal(b) and not isreal(a)): return a
    x, y = pair(a, b)
    return x + y


def sub(a, b):
    a, b = toint(a), toint(b)
    if num(a) and num(b): return a - b
    if num(b) and b == 0 and not (isreal(b) and not isreal(a)): return a
    x, y = pair(a, b)
    return x - y


def neg(a):
    a = toint(a)
    return -a


def mul(a, b):
    a, b = toint(a), toint(b)
    if num(a) and num(b): return a * b
    r = isreal(a) or isreal(b)
    for u, v in ((a, b), (b, a)):
        if num(u) and u == 1: return zr(v) if r else v
        if num(u) and u == 0: return Fraction(0) if r else 0
    x, y = pair(a, b)
    return x * y


def div_real(a, b):
    if num(a) and num(b) and b != 0: return Fraction(a) / Fraction(b)
    if num(b) and b != 0: return zr(a) * zr(Fraction(1) / Fraction(b))
    return zr(a) / zr(b)


def cdiv(a, b):
    """C integer division (truncation)."""
    if num(a) and num(b) and b != 0:
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b >= 0) else -q
    a, b = zi(a), zi(b)
    bv = unz(b)
    if num(bv) and bv > 0:
        return z3.If(a >= 0, a / b, -((-a) / b))
    if num(bv) and bv < 0:
        return z3.If(a >= 0, -(a / (-b)), (-a) / (-b))
    return z3.If(a >= 0, z3.If(b > 0, a / b, -(a / (-b))), z3.If(b > 0, -((-a) / b), (-a) / (-b)))


def cmod(a, b):
    if num(a) and num(b) and b != 0:
        return a - cdiv(a, b) * b
    bv = unz(b)
    if num(bv) and bv > 0:
        a = zi(a)
        return z3.If(a >= 0, a % zi(b), -((-a) % zi(b)))
    return sub(a, mul(cdiv(a, b), b))


def trunc(x):
    """Real to int, towards zero."""
    if num(x):
        x = Fraction(x)
        return x.numerator // x.denominator if x >= 0 else -((-x.numerator) // x.denominator)
    x = zr(x)
    return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))


def _cmp(op, a, b):
    a, b = toint(a), toint(b)
    if num(a) and num(b):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
    x, y = pair(a, b)
    if x.eq(y): return op in ('<=', '>=', '==')
    return {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y,
            '==': lambda: x == y, '!=': lambda: x != y}[op]()


def lt(a, b): return _cmp('<', a, b)
def le(a, b): return _cmp('<=', a, b)
def gt(a, b): return _cmp('>', a, b)
def ge(a, b): return _cmp('>=', a, b)
def eq(a, b): return _cmp('==', a, b)
def ne(a, b): return _cmp('!=', a, b)


def And(*xs):
    xs = [x for y in xs for x in (y if isinstance(y, (list, tuple)) else [y])]
    out = []
    for x in xs:
        if x is True: continue
        if x is False: return False
        if isz(x) and z3.is_true(x): continue
        out.append(x)
    if not out: return True
    if len(out) == 1: return out[0]
    return z3.And(*out)


def Or(*xs):
    xs = [x for y in xs for x in (y if isinstance(y, (list, tuple)) else [y])]
    out = []
    for x in xs:
        if x is False: continue
        if x is True: return True
        out.append(x)
    if not out: return False
    if len(out) == 1: return out[0]
    return z3.Or(*out)


def Not(x):
    if isinstance(x, bool): return not x
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    if a is True: return b
    if a is False or b is True: return True
    if b is False: return Not(a)
    return z3.Implies(a, b)


def If(c, a, b):
    if c is True: return a() if callable(a) else a
    if c is False: return b() if callable(b) else b
    if callable(a): a = a()
    if callable(b): b = b()
    if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
        if a is b: return a
        return z3.If(c, zb(a), zb(b))
    if num(a) and num(b) and a == b and type(a) == type(b): return a
    if isz(a) and isz(b) and a.eq(b): return a
    if isz(a) and z3.is_array(a): return z3.If(c, a, b)
    x, y = pair(a, b)
    if x.eq(y): return unz(x)
    return z3.If(c, x, y)


def wrap(t, bits, signed):
    """Modular reduction of an integer term."""
    m = 1 << bits
    if num(t):
        t %= m
        return t - m if signed and t >= m // 2 else t
    if signed:
        u = (t + (m // 2)) % m
        return u - (m // 2)
    return t % m


def conjuncts(f):
    if isz(f) and z3.is_and(f):
        for c in f.children(): yield from conjuncts(c)
    else:
        yield f


def zr_(x):
    """To real, keeping concrete numbers concrete."""
    x = toint(x)
    if isinstance(x, int): return Fraction(x)
    if isinstance(x, (Fraction, float)): return x
    return zr(x)
