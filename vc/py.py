"""Deductive verification of Python functions.

The module's source in /repo is read on every run, transformed mechanically (Tx below: string formatting, comprehensions and
loops become calls of the helpers of this file; nothing is dropped) and executed by CPython on symbolic values (Sym, Str, Vec,
Seq) whose truth value splits the execution into paths. A contract gives the symbolic arguments, the precondition and an
obligation for each path's result or exception; loops over symbolic sequences are cut by invariants. Imported packages are
replaced by the models of this file (numpy, re, ...): these are the assumed contracts on dependencies."""
import ast, os, sys, time, string as pystring, builtins, types, itertools, math as pymath
import z3
from . import terms as T, solve

REPO = os.environ.get('VERIF_REPO', '/repo')
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Unsupported(Exception): pass
class PathEnd(BaseException): pass      # this path needs no further execution


# ---------------------------------------------------------------- path state
class Path:
    cur = None

    def __init__(self, prefix):
        self.prefix, self.dec, self.pc, self.obs, self.todo = prefix, [], [], [], []
        self.solver = z3.SolverFor('ALL') if False else z3.Solver()
        self.solver.set('timeout', 2000)
        self.seen = {}

    def assume(self, f):
        if f is True: return
        f = zb(f)
        self.pc.append(f)
        self.solver.add(f)

    def feasible(self, f):
        self.solver.push()
        self.solver.add(f)
        r = self.solver.check()
        self.solver.pop()
        return r != z3.unsat

    def decide(self, f):
        f = z3.simplify(zb(f))
        if z3.is_true(f): return True
        if z3.is_false(f): return False
        k = f.sexpr()
        if k in self.seen: return self.seen[k]
        i = len(self.dec)
        if i < len(self.prefix): v = self.prefix[i]
        else:
            t, n = self.feasible(f), self.feasible(z3.Not(f))
            if not t and not n: raise PathEnd
            v = t
            if t and n: self.todo.append(self.dec + [False])
        self.dec.append(v)
        self.seen[k] = v
        self.assume(f if v else z3.Not(f))
        return v

    def oblige(self, label, goal, kind='post', hyps=()):
        self.obs.append((kind, label, list(self.pc) + [zb(h) for h in hyps], zb(goal)))


def P():
    if Path.cur is None: raise Unsupported('symbolic value outside a path')
    return Path.cur


def zb(x):
    if isinstance(x, Sym): x = x.e
    if isinstance(x, bool): return z3.BoolVal(x)
    return x


def explore(body, limit=400):
    """Runs body() on every path; gives the list of (Path, outcome)."""
    stack, out = [[]], []
    while stack:
        if len(out) > limit: raise Unsupported('more than %d paths' % limit)
        p = Path(stack.pop())
        Path.cur = p
        try:
            r = None
            try: r = body()
            except PathEnd: pass
            out.append(p)
        finally: Path.cur = None
        stack += p.todo
    return out


class Outcome:
    def __init__(self, value=None, exc=None): self.value, self.exc = value, exc


def call(f, *a, **k):
    """The result or the exception of the real function on symbolic arguments."""
    try: return Outcome(f(*a, **k))
    except (Unsupported, PathEnd): raise
    except RecursionError: raise Unsupported('recursion')
    except Exception as e:
        if isinstance(e, (NameError, AttributeError)) or type(e) is TypeError: raise Unsupported('%s: %s' % (type(e).__name__, e))
        return Outcome(exc=e)


# ---------------------------------------------------------------- values
_n = itertools.count()
def fresh(name, sort): return z3.Const('%s!%d' % (name, next(_n)), sort)


def lift(x):
    if isinstance(x, (Sym, Str, Vec, Seq)): return x
    if isinstance(x, bool): return Sym(z3.BoolVal(x))
    if isinstance(x, z3.ExprRef): return Sym(x)
    if isinstance(x, int): return Sym(z3.IntVal(x))
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')): raise Unsupported('infinite constant')
        n, d = x.as_integer_ratio()
        return Sym(z3.RealVal('%d/%d' % (n, d)))
    return None


def trunc(e): return z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))


def round_even(e):
    k = z3.ToInt(e)
    f = e - z3.ToReal(k)
    return z3.If(f < z3.RealVal('1/2'), k, z3.If(f > z3.RealVal('1/2'), k + 1, z3.If(k % 2 == 0, k, k + 1)))


class Sym:
    """A symbolic int, real (for float) or bool."""
    def __init__(self, e, fmt=None): self.e = e
    @property
    def real(self): return self.e.sort() == R
    @property
    def isint(self): return self.e.sort() == I
    def __hash__(self): return self.e.hash()
    def __repr__(self): return 'Sym(%s)' % self.e
    def __bool__(self):
        e = self.e
        if e.sort() != B: e = e != 0
        return P().decide(e)
    def __index__(self):
        v = z3.simplify(self.e)
        if z3.is_int_value(v): return v.as_long()
        raise Unsupported('symbolic value used as a concrete index')
    def __int__(self): return self.__index__()
    def __float__(self): raise Unsupported('symbolic value used as a concrete float')
    def __format__(self, spec): raise Unsupported('formatting outside the modelled places')
    def __str__(self): raise Unsupported('str() outside the modelled places')
    # numpy scalar-like methods
    def astype(self, t): return cast(self, t)
    def round(self, n=0):
        if n == 0: return Sym(z3.ToReal(round_even(self.e))) if self.real else self
        p = 10 ** n
        return Sym(z3.ToReal(round_even(self.e * p)) / p) if self.real else self
    def __round__(self, n=None):
        if n is None: return Sym(round_even(self.e)) if self.real else self
        return self.round(n)
    def __trunc__(self): return cast(self, int)
    def __floor__(self): return Sym(z3.ToInt(self.e)) if self.real else self
    def __ceil__(self): return Sym(-z3.ToInt(-self.e)) if self.real else self
    def is_integer(self): return Sym(z3.IsInt(self.e)) if self.real else True
    def item(self): return self
    def tolist(self): return self


def num(x):
    x = lift(x)
    if not isinstance(x, Sym): raise TypeError('not a number')
    e = x.e
    if e.sort() == B: e = z3.If(e, z3.IntVal(1), z3.IntVal(0))
    return e


def both(a, b):
    a, b = num(a), num(b)
    if a.sort() != b.sort():
        if a.sort() == I: a = z3.ToReal(a)
        if b.sort() == I: b = z3.ToReal(b)
    return a, b


def pydiv(a, b):
    a, b = both(a, b)
    if a.sort() == I: a, b = z3.ToReal(a), z3.ToReal(b)
    P().oblige('divisor is not zero', b != 0, 'safety')
    P().assume(b != 0)
    return a / b


def intdiv(a, b):
    """floor(a/b), for ints"""
    P().oblige('divisor is not zero', b != 0, 'safety')
    P().assume(b != 0)
    q, r = fresh('q', I), fresh('r', I)
    P().assume(z3.And(a == q * b + r, z3.If(b > 0, z3.And(r >= 0, r < b), z3.And(r <= 0, r > b))))
    return q, r


def binop(op, a, b):
    if isinstance(a, Vec) or isinstance(b, Vec): return vecop(op, a, b)
    la, lb = lift(a), lift(b)
    if not isinstance(la, Sym) or not isinstance(lb, Sym): return NotImplemented
    if op == '/': return Sym(pydiv(la, lb))
    x, y = both(la, lb)
    if op == '+': return Sym(x + y)
    if op == '-': return Sym(x - y)
    if op == '*': return Sym(x * y)
    if op in ('//', '%'):
        if x.sort() != I: raise Unsupported('float ' + op)
        q, r = intdiv(x, y)
        return Sym(q if op == '//' else r)
    if op == '**':
        if z3.is_int_value(y) and 0 <= y.as_long() <= 4:
            r = z3.IntVal(1) if x.sort() == I else z3.RealVal(1)
            for _ in range(y.as_long()): r = r * x
            return Sym(r)
        if lb.isint and la.isint and z3.is_int_value(x) and x.as_long() == 2: return pow2(y)
        if lb.isint and la.real and str(z3.simplify(la.e)) == '2': return Sym(z3.ToReal(pow2(num(lb)).e))
        raise Unsupported('power')
    if op == '<<':
        return Sym(x * pow2(y).e)
    if op == '>>':
        p = pow2(y).e
        return Sym(x / p)
    if op in ('<', '<=', '>', '>=', '==', '!='):
        e = {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y, '!=': x != y}[op]
        return Sym(z3.simplify(e))
    raise Unsupported('operator ' + op)


POW2 = z3.Function('pow2', I, I)
def pow2(y):
    if z3.is_int_value(y): return Sym(z3.IntVal(2 ** y.as_long()))
    P().assume(z3.Implies(y >= 0, POW2(y) >= 1))
    return Sym(POW2(y))


for _name, _op in dict(add='+', sub='-', mul='*', truediv='/', floordiv='//', mod='%', pow='**', lshift='<<', rshift='>>').items():
    def _mk(op):
        return (lambda s, o: binop(op, s, o)), (lambda s, o: binop(op, o, s))
    _f, _r = _mk(_op)
    setattr(Sym, '__%s__' % _name, _f)
    setattr(Sym, '__r%s__' % _name, _r)
for _name, _op in dict(lt='<', le='<=', gt='>', ge='>=', eq='==', ne='!=').items():
    def _mk(op):
        def f(s, o):
            if lift(o) is None or isinstance(lift(o), Str): return NotImplemented if op not in ('==', '!=') else op == '!='
            return binop(op, s, o)
        return f
    setattr(Sym, '__%s__' % _name, _mk(_op))
Sym.__neg__ = lambda s: Sym(-num(s))
Sym.__pos__ = lambda s: s
Sym.__abs__ = lambda s: Sym(z3.If(num(s) >= 0, num(s), -num(s)))


# integer types of numpy: (bits, signed)
INTS = {'int8': (8, 1), 'int16': (16, 1), 'int32': (32, 1), 'int64': (64, 1), 'uint8': (8, 0), 'uint16': (16, 0), 'uint32': (32, 0), 'uint64': (64, 0), 'int': (64, 1)}
class DType:
    def __init__(self, name):
        self.name = name
        self.kind = 'i' if name in INTS and INTS[name][1] else 'u' if name in INTS else 'f'
    def __eq__(self, o): return isinstance(dtype_of(o), DType) and dtype_of(o).name == self.name
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(self.name)
    def __call__(self, x): return cast(x, self)
    def __repr__(self): return self.name


ALIAS = {'i1': 'int8', 'i2': 'int16', 'i4': 'int32', 'i8': 'int64', 'u1': 'uint8', 'f4': 'float32', 'f8': 'float64', 'float': 'float64', 'double': 'float64', 'float16': 'float16', 'half': 'float16', 'int': 'int64', 'intp': 'int64', 'single': 'float32'}
def dtype_of(t):
    if isinstance(t, DType): return t
    if t is int or t is sym_int: return DType('int64')
    if t is float or t is sym_float: return DType('float64')
    if isinstance(t, str):
        t = ALIAS.get(t, t)
        if t in INTS or t.startswith('float'): return DType(t)
    return None


def cast(x, t):
    """Conversion of a number to a numpy or Python number type; the value must fit (else an obligation fails)."""
    d = dtype_of(t)
    if d is None: raise Unsupported('conversion to %r' % (t,))
    if isinstance(x, Vec): return x.map(lambda v: cast(v, d), dtype=d)
    e = num(x)
    if d.kind == 'f': return Sym(e if e.sort() == R else z3.ToReal(e))
    if e.sort() == R: e = trunc(e)
    bits, sg = INTS[d.name]
    lo, hi = (-2 ** (bits - 1), 2 ** (bits - 1) - 1) if sg else (0, 2 ** bits - 1)
    P().oblige('value fits %s' % d.name, z3.And(e >= lo, e <= hi), 'safety')
    return Sym(e)


# ---------------------------------------------------------------- strings
class Str:
    """A string made of literal pieces and z3 string terms."""
    def __init__(self, pieces):
        self.p = []
        for x in pieces:
            if isinstance(x, str):
                if not x: continue
                if self.p and isinstance(self.p[-1], str): self.p[-1] += x
                else: self.p.append(x)
            else: self.p.append(x)
    @property
    def e(self):
        t = [z3.StringVal(x) if isinstance(x, str) else (x.term() if isinstance(x, Tok) else x) for x in self.p] or [z3.StringVal('')]
        return t[0] if len(t) == 1 else z3.Concat(*t)
    def __add__(self, o):
        o = strlift(o)
        return NotImplemented if o is None else Str(self.p + o.p)
    def __radd__(self, o):
        o = strlift(o)
        return NotImplemented if o is None else Str(o.p + self.p)
    def __eq__(self, o):
        o = strlift(o)
        return False if o is None else Sym(z3.simplify(self.e == o.e))
    def __ne__(self, o):
        o = strlift(o)
        return True if o is None else Sym(z3.simplify(self.e != o.e))
    def __hash__(self): return hash(tuple(map(str, self.p)))
    def __bool__(self): return P().decide(self.e != z3.StringVal(''))
    def __contains__(self, o):
        o = strlift(o)
        if o is None: raise Unsupported('in')
        return P().decide(z3.Contains(self.e, o.e))
    def startswith(self, o): return Sym(z3.PrefixOf(strlift(o).e, self.e))
    def endswith(self, o): return Sym(z3.SuffixOf(strlift(o).e, self.e))
    def __format__(self, spec): raise Unsupported('formatting outside the modelled places')
    def __str__(self): raise Unsupported('str() outside the modelled places')
    def __repr__(self): return 'Str(%r)' % (self.p,)
    def __mul__(self, k): return Str(self.p * int(k))
    def __iter__(self): raise Unsupported('iteration over a symbolic string')
    def __len__(self): raise Unsupported('len of a symbolic string')
    def __getattr__(self, n): raise Unsupported('string method ' + n)


class Tok:
    """A piece of text standing for a formatted value: kind 'fmt' (value, spec) or 'join' (separator, sequence)."""
    def __init__(self, kind, *a):
        self.kind, self.a = kind, a
        self._t = None
    def term(self):
        if self._t is None:
            key = self.key()
            for t in P().__dict__.setdefault('toks', []):
                if t.key() == key: self._t = t._t; return self._t
            self._t = fresh('tok', z3.StringSort())
            P().toks.append(self)
            lang = self.lang()
            if lang is not None: P().assume(z3.InRe(self._t, lang))
        return self._t
    def key(self):
        if self.kind == 'fmt': return ('fmt', self.a[0].e.sexpr(), self.a[1])
        return (self.kind, id(self.a[1]))
    def lang(self):
        if self.kind != 'fmt': return None
        return format_language(self.a[0], self.a[1])
    def __repr__(self): return '<%s %s>' % (self.kind, self.a)


def rx(s): return regex(s)


def format_language(v, spec):
    """The texts Python's format() gives for a finite number under a format specification (assumed contract of CPython)."""
    if v.isint:
        if spec in ('', 'd', 's', 'r'): return rx(r'-?[0-9]+')
        return None
    if not v.real: return None
    if spec.endswith('f') and spec[:-1].lstrip('.').isdigit():
        n = int(spec[1:-1])
        return rx(r'-?[0-9]+\.[0-9]{%d}' % n) if n else rx('-?[0-9]+')
    if spec.endswith('e') and spec[:-1].lstrip('.').isdigit():
        n = int(spec[1:-1])
        return rx(r'-?[0-9]\.[0-9]{%d}e[+-][0-9][0-9][0-9]?' % n) if n else rx(r'-?[0-9]e[+-][0-9][0-9][0-9]?')
    if spec.endswith('g') and spec[:-1].lstrip('.').isdigit(): return rx(r'-?[0-9]+(\.[0-9]+)?(e[+-][0-9][0-9][0-9]?)?')
    if spec in ('', 'r', 's'): return rx(r'-?[0-9]+(\.[0-9]+)?(e[+-][0-9][0-9][0-9]?)?')
    return None


def format_error(v, spec):
    """An expression bounding |number read from the text - v| (assumed contract of CPython's format())."""
    a = z3.If(v.e >= 0, v.e, -v.e)
    if v.isint: return z3.RealVal(0) if spec in ('', 'd', 's', 'r') else None
    if spec in ('', 'r', 's'): return z3.RealVal(0)
    if spec[-1:] in 'feg' and spec[:-1].lstrip('.').isdigit():
        n = int(spec[1:-1])
        if spec[-1] == 'f': return z3.RealVal(1) / (2 * 10 ** n)
        if spec[-1] == 'e': return a / (2 * 10 ** n)
        if n >= 1: return a / (2 * 10 ** (n - 1))
    return None


def strlift(x):
    if isinstance(x, Str): return x
    if isinstance(x, str): return Str([x])
    return None


def tostr(x, spec='', conv=None):
    if conv in ('r',) and isinstance(x, (Str, str)): raise Unsupported('!r of a string')
    if isinstance(x, Str):
        if spec: raise Unsupported('format specification for a string')
        return x
    if isinstance(x, Sym):
        if x.e.sort() == B: raise Unsupported('text of a bool')
        c = z3.simplify(x.e)
        if z3.is_int_value(c): return Str([format(c.as_long(), spec)])
        return Str([Tok('fmt', Sym(c), spec)])
    if isinstance(x, (Vec, Seq)): raise Unsupported('text of an array')
    if isinstance(x, (list, tuple, dict)) and not concrete(x): raise Unsupported('text of a container')
    if conv == 'r': return Str([repr(x)])
    return Str([format(x, spec)])


def concrete(x):
    if isinstance(x, (Sym, Str, Vec, Seq, Tok)): return False
    if isinstance(x, (list, tuple, set, frozenset)): return all(concrete(v) for v in x)
    if isinstance(x, dict): return all(concrete(k) and concrete(v) for k, v in x.items())
    return True


def unstr(s):
    if len(s.p) == 0: return ''
    if len(s.p) == 1 and isinstance(s.p[0], str): return s.p[0]
    return s


def h_format(obj, /, *args, **kw):
    if not isinstance(obj, str): return obj.format(*args, **kw)
    if all(concrete(a) for a in args) and all(concrete(v) for v in kw.values()): return obj.format(*args, **kw)
    out, auto = Str([]), itertools.count()
    for lit, field, spec, conv in pystring.Formatter().parse(obj):
        out = out + lit
        if field is None: continue
        if '{' in (spec or ''): spec = h_format(spec, *args, **kw)
        if field == '': v = args[next(auto)]
        else:
            first, rest = __import__('_string').formatter_field_name_split(field)
            v = args[first] if isinstance(first, int) else kw[first]
            for isattr, k in rest: v = getattr(v, k) if isattr else v[k]
        out = out + tostr(v, spec or '', conv)
    return unstr(out)


def h_fstr(*parts):
    out = Str([])
    for p in parts:
        if isinstance(p, tuple):
            v, conv, spec = p
            out = out + tostr(v, spec, conv)
        else: out = out + p
    return unstr(out)


def h_mod(a, b):
    if isinstance(a, str) and not concrete(b):
        import re
        args = list(b) if isinstance(b, tuple) else [b]
        out, pos = Str([]), 0
        for m in re.finditer(r'%(?:%|([.0-9]*)([dsfgeir]))', a):
            out = out + a[pos:m.start()]
            pos = m.end()
            if m.group(0) == '%%': out = out + '%'
            else:
                c = m.group(2)
                v = args.pop(0)
                sp = '' if c in 'sr' else m.group(1) + ('d' if c in 'di' else c)
                if c in 'feg' and '.' not in sp: sp = sp[:-1] + '.6' + c
                if c in 'feg' and isinstance(v, Sym) and v.isint: v = Sym(z3.ToReal(v.e))
                out = out + tostr(v, sp)
        return unstr(out + a[pos:])
    return a % b


def h_meth(obj, name, /, *args, **kw):
    if name == 'format' and isinstance(obj, str): return h_format(obj, *args, **kw)
    if name == 'join' and isinstance(obj, (str, Str)):
        it = args[0]
        if isinstance(it, Vec): it = Seq(it.n, it.f)
        if isinstance(it, Seq): return Str([Tok('join', obj, it)])
        out, first = Str([]), True
        for x in it:
            if not isinstance(x, (str, Str)): raise TypeError('sequence item: expected str instance')
            if not first: out = out + obj
            out = out + x
            first = False
        return unstr(out)
    return getattr(obj, name)(*args, **kw)


# ---------------------------------------------------------------- sequences
class Seq:
    """A sequence of symbolic length: element i is f(i)."""
    def __init__(self, n, f): self.n, self.f = n, f
    def sel(self, i): return self.f(i)
    def __len__(self):
        v = z3.simplify(self.n.e)
        if z3.is_int_value(v): return v.as_long()
        raise Unsupported('len of a symbolic sequence outside the modelled places')
    def __iter__(self):
        v = z3.simplify(self.n.e)
        if z3.is_int_value(v): return iter([self.f(Sym(z3.IntVal(k))) for k in range(v.as_long())])
        raise Unsupported('loop over a symbolic sequence')
    def __getitem__(self, i):
        if isinstance(i, slice): raise Unsupported('slice of a symbolic sequence')
        k = num(i)
        n = num(self.n)
        k = z3.simplify(k)
        if z3.is_int_value(k) and k.as_long() < 0: k = n + k
        P().oblige('index in range', z3.And(k >= -n, k < n), 'safety')
        P().assume(z3.And(k >= -n, k < n))
        if not (z3.is_int_value(k) and k.as_long() >= 0) and not P().decide(k >= 0): k = k + n
        return self.f(Sym(k))
    def __bool__(self): return P().decide(num(self.n) != 0)


class Vec(Seq):
    """A numpy array of symbolic size, seen as the flat sequence of its elements."""
    def __init__(self, n, f, dtype=None, shape=None):
        Seq.__init__(self, n, f)
        self.dtype, self.shape = dtype or DType('float64'), shape if shape is not None else (n,)
        self.ndim = len(self.shape)
        self.size = n
    def map(self, g, dtype=None): return Vec(self.n, lambda i: g(self.f(i)), dtype or self.dtype, self.shape)
    def astype(self, t, copy=True): return cast(self, t)
    def flatten(self, order='C'): return Vec(self.n, self.f, self.dtype)
    ravel = flatten
    def tolist(self): return Seq(self.n, self.f)
    def copy(self): return self
    def __bool__(self): raise ValueError('The truth value of an array is ambiguous')
    def clip(self, lo, hi): return np_clip(self, lo, hi)
    def round(self, n=0): return np_round(self, n)
    def max(self, axis=None): return np_extreme(self, True)
    def min(self, axis=None): return np_extreme(self, False)
    def __eq__(self, o): return vecop('==', self, o)
    def __ne__(self, o): return vecop('!=', self, o)
    __hash__ = None


FLOATS = ['float16', 'float32', 'float64']
def vecop(op, a, b):
    va, vb = isinstance(a, Vec), isinstance(b, Vec)
    if va and vb:
        P().oblige('shapes agree', num(a.n) == num(b.n), 'safety')
        r = Vec(a.n, lambda i: binop(op, a.f(i), b.f(i)), a.dtype, a.shape)
    elif va:
        if not isinstance(lift(b), Sym): return NotImplemented
        r = Vec(a.n, lambda i: binop(op, a.f(i), b), a.dtype, a.shape)
    else:
        if not isinstance(lift(a), Sym): return NotImplemented
        r = Vec(b.n, lambda i: binop(op, a, b.f(i)), b.dtype, b.shape)
    if op == '/' and r.dtype.kind != 'f': r.dtype = DType('float64')
    return r


for _name, _op in dict(add='+', sub='-', mul='*', truediv='/', floordiv='//', pow='**').items():
    def _mk(op):
        return (lambda s, o: vecop(op, s, o)), (lambda s, o: vecop(op, o, s))
    _f, _r = _mk(_op)
    setattr(Vec, '__%s__' % _name, _f)
    setattr(Vec, '__r%s__' % _name, _r)
for _name, _op in dict(lt='<', le='<=', gt='>', ge='>=').items():
    setattr(Vec, '__%s__' % _name, (lambda op: lambda s, o: vecop(op, s, o))(_op))
Vec.__neg__ = lambda s: s.map(lambda v: -v)
Vec.__abs__ = lambda s: s.map(abs)


# the indices at which facts about all elements are instantiated
def indices(): return P().__dict__.setdefault('idx', [])


def np_extreme(v, top, **kw):
    if isinstance(v, Vec):
        m = Sym(fresh('max' if top else 'min', num(v.f(Sym(fresh('i', I)))).sort()))
        for k in indices():
            x = v.f(k)
            P().assume(binop('>=' if top else '<=', m, x).e)
        w = Sym(fresh('at', I))
        P().assume(z3.And(w.e >= 0, w.e < num(v.n)))
        for g in P().__dict__.get('generic', []): P().assume(g(w))
        P().assume(binop('==', m, v.f(w)).e)
        return m
    r = v[0]
    for x in v[1:]:
        if (x > r) if top else (x < r): r = x
    return r


def np_clip(v, lo, hi):
    if isinstance(v, Vec): return v.map(lambda x: np_clip(x, lo, hi))
    x, l = both(v, lo)
    x = z3.If(x < l, l, x)
    x, h = both(Sym(x), hi)
    return Sym(z3.If(x > h, h, x))


def np_round(v, n=0):
    if isinstance(v, Vec): return v.map(lambda x: np_round(x, n))
    return lift(v).round(n)


def elementwise(f):
    def g(v, *a, **k):
        if isinstance(v, Vec): return v.map(lambda x: f(x, *a, **k))
        return f(v, *a, **k)
    return g


def np_floor(x): return Sym(z3.ToReal(z3.ToInt(num(x)))) if lift(x).real else lift(x)
def np_ceil(x): return Sym(z3.ToReal(-z3.ToInt(-num(x)))) if lift(x).real else lift(x)
def np_trunc(x): return Sym(z3.ToReal(trunc(num(x)))) if lift(x).real else lift(x)


def np_where(c, a, b):
    def pick(i, v): return v.f(i) if isinstance(v, Vec) else v
    if not any(isinstance(v, Vec) for v in (c, a, b)):
        x, y = both(a, b)
        return Sym(z3.If(zb(c), x, y))
    v = next(v for v in (c, a, b) if isinstance(v, Vec))
    return Vec(v.n, lambda i: np_where(pick(i, c), pick(i, a), pick(i, b)), next((w.dtype for w in (a, b) if isinstance(w, Vec)), None), v.shape)


def np_array(x, dtype=None, **k):
    if isinstance(x, Seq) and not isinstance(x, Vec): x = Vec(x.n, x.f)
    if isinstance(x, Vec): return x if dtype is None else cast(x, dtype)
    raise Unsupported('numpy.array of %s' % type(x).__name__)


class Info:
    def __init__(self, t):
        d = dtype_of(t)
        if d is None or d.kind == 'f': raise ValueError('Invalid integer data type')
        b, s = INTS[d.name]
        self.max, self.min = (2 ** (b - 1) - 1, -2 ** (b - 1)) if s else (2 ** b - 1, 0)


class FInfo:
    def __init__(self, t):
        d = dtype_of(t)
        if d is None or d.kind != 'f': raise ValueError
        self.max = {'float16': 65504.0, 'float32': 3.4028234663852886e+38, 'float64': 1.7976931348623157e+308}[d.name]
        self.min = -self.max


class Module(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported('%s.%s' % (self.__name__, n))


def np_quantile(X, q=None, axis=None, **k):
    """The quantile lies between the extremes (all that is assumed)."""
    m = Sym(fresh('quantile', R))
    lo, hi = np_extreme(X, False), np_extreme(X, True)
    P().assume(z3.And(m.e >= num(lo), m.e <= num(hi)))
    return m


def np_dtype(t):
    d = dtype_of(t)
    if d is None: raise Unsupported('dtype %r' % (t,))
    return d


def np_seterr(**k): return {}


def make_numpy():
    m = Module('numpy')
    m.__dict__.update(max=lambda v, axis=None: np_extreme(v, True), min=lambda v, axis=None: np_extreme(v, False), amax=lambda v, axis=None: np_extreme(v, True), amin=lambda v, axis=None: np_extreme(v, False),
        clip=np_clip, round=np_round, around=np_round, rint=np_round, floor=elementwise(np_floor), ceil=elementwise(np_ceil), trunc=elementwise(np_trunc), fix=elementwise(np_trunc),
        where=np_where, array=np_array, asarray=np_array, abs=elementwise(abs), absolute=elementwise(abs), fabs=elementwise(abs), dtype=np_dtype, iinfo=Info, finfo=FInfo, quantile=np_quantile,
        multiply=lambda a, b: a * b, divide=lambda a, b: a / b, true_divide=lambda a, b: a / b, add=lambda a, b: a + b, subtract=lambda a, b: a - b,
        maximum=lambda a, b: np_where(a > b, a, b), minimum=lambda a, b: np_where(a < b, a, b), seterr=np_seterr, ndarray=Vec, all=np_all, any=np_any, inf=float('inf'), pi=pymath.pi, integer=IntegerKind, floating=FloatKind,
        all_close=None, asanyarray=np_array, ravel=lambda v: v.flatten(), isscalar=lambda v: isinstance(v, (int, float, Sym)), issubdtype=np_issubdtype, clip_=None)
    for t in list(INTS) + FLOATS:
        if t != 'int': setattr(m, t, DType(t))
    return m


class IntegerKind: pass
class FloatKind: pass
def np_issubdtype(t, k):
    d = dtype_of(t)
    return d.kind in 'iu' if k is IntegerKind else d.kind == 'f'


def np_all(v, **k):
    """all(v): true gives the fact at the tracked indices, false at some index."""
    if not isinstance(v, Vec): return all(v)
    c = fresh('all', B)
    for i in indices(): P().assume(z3.Implies(c, zb(v.f(i))))
    w = Sym(fresh('at', I))
    P().assume(z3.Implies(z3.Not(c), z3.And(w.e >= 0, w.e < num(v.n), z3.Not(zb(v.f(w))))))
    for g in P().__dict__.get('generic', []): P().assume(g(w))
    return Sym(c)


def np_any(v, **k):
    return Sym(z3.Not(zb(np_all(v.map(lambda x: Sym(z3.Not(zb(x))))))))


# ---------------------------------------------------------------- re
def regex(pat, flags=0):
    """z3 regular expression of a Python pattern without anchors."""
    import re._parser as sp
    return rx_seq(list(sp.parse(pat)))


def charset(items):
    import re._constants as C
    neg, rs = False, []
    for op, av in items:
        if op is C.NEGATE: neg = True
        elif op is C.LITERAL: rs.append(z3.Re(z3.StringVal(z3str(av))))
        elif op is C.RANGE: rs.append(z3.Range(z3str(av[0]), z3str(av[1])))
        elif op is C.CATEGORY: rs.append(category(av))
        else: raise Unsupported('regex set %s' % op)
    r = rs[0] if len(rs) == 1 else z3.Union(*rs)
    if neg: r = z3.Intersect(z3.AllChar(z3.ReSort(z3.StringSort())), z3.Complement(r))
    return r


_cats = {}
def category(av):
    """The exact set of characters of \\w, \\d, \\s in Python (Unicode), as ranges."""
    import re, re._constants as C
    k = {C.CATEGORY_WORD: r'\w', C.CATEGORY_DIGIT: r'\d', C.CATEGORY_SPACE: r'\s', C.CATEGORY_NOT_WORD: r'\W', C.CATEGORY_NOT_DIGIT: r'\D', C.CATEGORY_NOT_SPACE: r'\S'}.get(av)
    if k is None: raise Unsupported('regex category')
    if k not in _cats:
        p, rs, start = re.compile(k), [], None
        for c in range(0x30000):
            if p.match(chr(c)):
                if start is None: start = c
            elif start is not None:
                rs.append((start, c - 1))
                start = None
        if start is not None: rs.append((start, 0x2ffff))
        _cats[k] = z3.Union(*[z3.Range(z3str(a), z3str(b)) for a, b in rs]) if len(rs) > 1 else z3.Range(z3str(rs[0][0]), z3str(rs[0][1]))
    return _cats[k]


def z3str(c): return chr(c) if 32 < c < 127 and c != 92 else '\\u{%x}' % c


def rx_cat(rs):
    rs = [r for r in rs]
    if not rs: return z3.Re(z3.StringVal(''))
    return rs[0] if len(rs) == 1 else z3.Concat(*rs)


def rx_seq(items):
    import re._constants as C
    out = []
    for op, av in items:
        if op is C.LITERAL: out.append(z3.Re(z3.StringVal(z3str(av))))
        elif op is C.NOT_LITERAL: out.append(z3.Intersect(z3.AllChar(z3.ReSort(z3.StringSort())), z3.Complement(z3.Re(z3.StringVal(z3str(av))))))
        elif op is C.ANY: out.append(z3.Intersect(z3.AllChar(z3.ReSort(z3.StringSort())), z3.Complement(z3.Re(z3.StringVal('\\u{a}')))))
        elif op is C.IN: out.append(charset(av))
        elif op is C.SUBPATTERN: out.append(rx_seq(list(av[-1])))
        elif op is C.BRANCH: out.append(z3.Union(*[rx_seq(list(b)) for b in av[1]]))
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            r = rx_seq(list(sub))
            if hi is C.MAXREPEAT: out.append(z3.Star(r) if lo == 0 else z3.Concat(*([r] * lo + [z3.Star(r)])))
            else: out.append(z3.Option(r) if (lo, hi) == (0, 1) else z3.Loop(r, lo, hi))
        else: raise Unsupported('regex %s' % op)
    return rx_cat(out)


def re_lang(pat, mode, flags=0):
    """The set of strings s for which re.match / fullmatch / search (pattern, s) is not None."""
    import re._parser as sp, re._constants as C, re
    flags = int(flags)
    if flags & ~(int(re.A) | int(re.U) | int(re.M)): raise Unsupported('regex flags')
    items = list(sp.parse(pat, flags & ~int(re.M)))
    S = z3.ReSort(z3.StringSort())
    if any(op is C.BRANCH for op, av in items) and len(items) == 1 and any(x[0] is C.AT for b in items[0][1][1] for x in b): raise Unsupported('anchored alternatives')
    allof = z3.Full(S)
    head, tail = None, None
    while items and items[0][0] is C.AT and items[0][1] in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
        if flags & re.M and items[0][1] is C.AT_BEGINNING: raise Unsupported('multi-line regex')
        head = 'begin'
        items.pop(0)
    while items and items[-1][0] is C.AT and items[-1][1] in (C.AT_END, C.AT_END_STRING):
        k = items.pop()[1]
        if flags & re.M and k is C.AT_END: tail = tail or 'line'
        else: tail = 'endstr' if k is C.AT_END_STRING or tail == 'endstr' else 'end'
    body = rx_seq(items) if not flags & re.A else rx_ascii(items)
    nl = z3.Re(z3.StringVal('\\u{a}'))
    if mode == 'fullmatch': return body
    pre = z3.Re(z3.StringVal('')) if mode == 'match' or head else allof
    post = {None: allof, 'endstr': z3.Re(z3.StringVal('')), 'end': z3.Option(nl), 'line': z3.Option(z3.Concat(nl, allof))}[tail]
    return z3.Concat(pre, body, post)


def rx_ascii(items): raise Unsupported('ASCII regex flag')


class Match:
    def __init__(self, s): self.s = s
    def __bool__(self): return True
    def __getattr__(self, n): raise Unsupported('match.' + n)


class Pattern:
    def __init__(self, pat, flags=0): self.pattern, self.flags = pat, flags
    def do(self, mode, s):
        import re
        if isinstance(s, str): return getattr(re, mode)(self.pattern, s, self.flags)
        if not isinstance(s, Str): raise TypeError('expected string or bytes-like object')
        return Match(s) if P().decide(z3.InRe(s.e, re_lang(self.pattern, mode, self.flags))) else None
    def match(self, s): return self.do('match', s)
    def fullmatch(self, s): return self.do('fullmatch', s)
    def search(self, s): return self.do('search', s)


def make_re():
    import re
    m = Module('re')
    pat = lambda p, f=0: p if isinstance(p, Pattern) else Pattern(p, f)
    m.__dict__.update(match=lambda p, s, flags=0: pat(p, flags).match(s), fullmatch=lambda p, s, flags=0: pat(p, flags).fullmatch(s), search=lambda p, s, flags=0: pat(p, flags).search(s), compile=pat,
                      ASCII=re.A, A=re.A, UNICODE=re.U, U=re.U, MULTILINE=re.M, M=re.M)
    return m


# ---------------------------------------------------------------- builtins
class _IntMeta(type):
    def __instancecheck__(c, x): return isinstance(x, int) or isinstance(x, Sym) and x.isint
class sym_int(metaclass=_IntMeta):
    def __new__(c, x=0, *a):
        if isinstance(x, Sym): return Sym(trunc(x.e)) if x.real else Sym(num(x))
        if isinstance(x, Str): raise Unsupported('int of text')
        return int(x, *a)
class _FloatMeta(type):
    def __instancecheck__(c, x): return isinstance(x, float) or isinstance(x, Sym) and x.real
class sym_float(metaclass=_FloatMeta):
    def __new__(c, x=0.0):
        if isinstance(x, Sym): return Sym(num(x) if x.real else z3.ToReal(num(x)))
        return float(x)
class _StrMeta(type):
    def __instancecheck__(c, x): return isinstance(x, (str, Str))
class sym_str(metaclass=_StrMeta):
    def __new__(c, x=''): return x if isinstance(x, Str) else unstr(tostr(x)) if isinstance(x, Sym) else str(x)
    format = str.format
    join = str.join


def sym_len(x):
    if isinstance(x, Seq): return x.n
    if isinstance(x, Str): return Sym(z3.Length(x.e))
    return len(x)


def sym_format(x, spec=''): return unstr(tostr(x, spec)) if not concrete(x) else format(x, spec)
def sym_round(x, n=None): return x.__round__(n) if isinstance(x, Sym) else round(x, n) if n is not None else round(x)


def sym_range(*a):
    if all(not isinstance(x, Sym) or z3.is_int_value(z3.simplify(x.e)) for x in a): return range(*[int(x) for x in a])
    lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
    if len(a) == 3 and not (a[2] == 1): raise Unsupported('range with a step')
    lo, hi = lift(lo), lift(hi)
    n = Sym(z3.If(hi.e > lo.e, hi.e - lo.e, z3.IntVal(0)))
    return Seq(n, lambda i: Sym(z3.simplify(lo.e + num(i))))


def sym_enumerate(x, start=0):
    if isinstance(x, Seq): return Seq(x.n, lambda i: (i + start if start else i, x.f(i)))
    return enumerate(x, start)


def sym_zip(*xs):
    if any(isinstance(x, Seq) for x in xs):
        s = [x for x in xs if isinstance(x, Seq)]
        if len(s) != len(xs): raise Unsupported('zip of mixed sequences')
        n = s[0].n
        for x in s[1:]:
            if not z3.simplify(num(x.n) == num(n)) .eq(z3.BoolVal(True)):
                P().oblige('zipped sequences have equal length', num(x.n) == num(n), 'safety')
        return Seq(n, lambda i: tuple(x.f(i) for x in s))
    return zip(*xs)


def sym_list(x=()):
    if isinstance(x, Seq): return Seq(x.n, x.f)
    return list(x)
class _ListMeta(type):
    def __instancecheck__(c, x): return isinstance(x, list) or type(x) is Seq
class sym_list_t(metaclass=_ListMeta):
    def __new__(c, x=()): return sym_list(x)


def sym_extreme(top):
    def f(*a, key=None, default=None):
        xs = list(a[0]) if len(a) == 1 and not isinstance(a[0], Vec) else a
        if isinstance(xs, Vec): return np_extreme(xs, top)
        if key is not None or not any(isinstance(x, Sym) for x in xs): return (max if top else min)(*a, **({'key': key} if key else {}))
        r = xs[0]
        for x in xs[1:]:
            p, q = both(r, x)
            r = Sym(z3.If(q > p if top else q < p, q, p))
        return r
    return f


def h_comp(fn, it, conds, kind):
    if isinstance(it, Seq):
        if conds: raise Unsupported('filtered comprehension over a symbolic sequence')
        v = z3.simplify(num(it.n))
        if not z3.is_int_value(v):
            if kind not in ('list', 'gen'): raise Unsupported('comprehension')
            return Seq(it.n, lambda i: fn(it.f(i)))
    r = (fn(x) for x in it if all(c(x) for c in conds))
    return r if kind == 'gen' else list(r) if kind == 'list' else set(r)


def h_in(x, c):
    if isinstance(c, Str): return x in c
    if isinstance(x, Str) and isinstance(c, str): return Sym(z3.Contains(z3.StringVal(c), x.e))
    if isinstance(x, (Str, Sym)) and isinstance(c, (set, frozenset, list, tuple, dict, range)) or isinstance(c, (list, tuple)) and not concrete(c):
        fs = []
        for w in c:
            r = x == w
            if r is True: return True
            if isinstance(r, Sym): fs.append(zb(r))
        return Sym(z3.simplify(z3.Or(*fs))) if fs else False
    if isinstance(c, Seq): raise Unsupported('membership in a symbolic sequence')
    return x in c


# ---------------------------------------------------------------- loops
class LoopSpec:
    """Contract of a loop: which(loop) finds it; inv(env, k) gives labelled facts; havoc names are found mechanically."""


def h_iter(it):
    return it


# ---------------------------------------------------------------- transformation
class Tx(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ('format', 'join'):
            return ast.copy_location(ast.Call(ast.Name('__meth', ast.Load()), [n.func.value, ast.Constant(n.func.attr)] + n.args, n.keywords), n)
        return n

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant): parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                conv = ast.Constant({-1: None, 115: 's', 114: 'r', 97: 'a'}[v.conversion])
                parts.append(ast.Tuple([self.visit(v.value), conv, spec], ast.Load()))
        return ast.copy_location(ast.Call(ast.Name('__fstr', ast.Load()), parts, []), n)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod): return ast.copy_location(ast.Call(ast.Name('__mod', ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(ast.Name('__in', ast.Load()), [n.left, n.comparators[0]], [])
            if isinstance(n.ops[0], ast.NotIn): c = ast.UnaryOp(ast.Not(), c)
            return ast.copy_location(c, n)
        return n

    def comp(self, n, kind):
        self.generic_visit(n)
        if len(n.generators) != 1: return n
        g = n.generators[0]
        def lam(body):
            def tgt(t):
                if isinstance(t, ast.Name): return ast.Lambda(args([t.id]), body)
            if isinstance(g.target, ast.Name): return ast.Lambda(args([g.target.id]), body)
            names = flat(g.target)
            if names is None: return None
            inner = body
            # unpack through nested lambdas
            def wrap(t, src, rest):
                pass
            return ast.Lambda(args(['__t']), ast.Call(ast.Lambda(args([x for x, _ in names]), body), [pathexpr(p) for _, p in names], []))
        def args(names): return ast.arguments(posonlyargs=[], args=[ast.arg(a) for a in names], kwonlyargs=[], kw_defaults=[], defaults=[])
        def flat(t, path=()):
            if isinstance(t, ast.Name): return [(t.id, path)]
            if isinstance(t, (ast.Tuple, ast.List)):
                out = []
                for i, x in enumerate(t.elts):
                    if isinstance(x, ast.Starred): return None
                    f = flat(x, path + (i,))
                    if f is None: return None
                    out += f
                return out
            return None
        def pathexpr(p):
            e = ast.Name('__t', ast.Load())
            for i in p: e = ast.Subscript(e, ast.Constant(i), ast.Load())
            return e
        f = lam(n.elt)
        if f is None: return n
        conds = [lam(c) for c in g.ifs]
        return ast.copy_location(ast.Call(ast.Name('__comp', ast.Load()), [f, g.iter, ast.List(conds, ast.Load()), ast.Constant(kind)], []), n)

    def visit_GeneratorExp(self, n): return self.comp(n, 'gen')
    def visit_ListComp(self, n): return self.comp(n, 'list')
    def visit_SetComp(self, n): return self.comp(n, 'set')


class Loader:
    """Loads modules of /repo for symbolic execution; other imports get models (or the real module when harmless)."""
    REAL = {'os', 'os.path', 'warnings', 'dataclasses', 'sys', 'math', 'string', 'enum', 'typing', 'functools', 'itertools', 'collections', 'json', 'copy', 'textwrap', '__future__', 'abc', 'numbers', 'keyword'}

    def __init__(self, loops=None):
        self.mods, self.numpy, self.re = {}, make_numpy(), make_re()
        self.sources = {}
        self.loops = loops or {}
        self.tx = Tx

    def builtins(self, pkg):
        b = dict(vars(builtins))
        b.update(int=sym_int, float=sym_float, str=sym_str, len=sym_len, range=sym_range, enumerate=sym_enumerate, zip=sym_zip, list=sym_list_t, max=sym_extreme(True), min=sym_extreme(False), format=sym_format, round=sym_round, print=lambda *a, **k: None)
        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            return self.imp(name, fromlist, level, pkg)
        b['__import__'] = imp
        return b

    def imp(self, name, fromlist, level, pkg):
        if level:
            base = pkg.split('.')
            base = base[:len(base) - (level - 1)]
            full = '.'.join(base + ([name] if name else []))
        else: full = name
        if full == 'numpy' or full.startswith('numpy.'): return self.numpy
        if full == 're': return self.re
        if full in self.REAL: return __import__(full, None, None, fromlist or ())
        if full.split('.')[0] == 'emlearn':
            path = os.path.join(REPO, *full.split('.'))
            m = self.load(full) if os.path.exists(path + '.py') else Module(full)
            for f in fromlist or ():
                if f not in m.__dict__ and os.path.exists(os.path.join(path, f + '.py')): m.__dict__[f] = self.lazy(full + '.' + f)
            return m
        m = Module(full)
        m.__dict__['__path__'] = []
        for f in fromlist or (): m.__dict__[f] = type(f, (), {})
        return m

    LIGHT = {'emlearn.cgen', 'emlearn.fixedpoint', 'emlearn.creserved', 'emlearn.signal', 'emlearn.trees', 'emlearn.preprocessing.quantizer'}
    def lazy(self, full): return self.load(full) if full in self.LIGHT else Module(full)

    def load(self, full):
        if full in self.mods: return self.mods[full]
        path = os.path.join(REPO, *full.split('.')) + '.py'
        src = open(path).read()
        self.sources[full] = src
        tree = ast.parse(src)
        tree = ast.fix_missing_locations(self.tx().visit(tree))
        m = types.ModuleType(full)
        self.mods[full] = m
        pkg = full.rsplit('.', 1)[0]
        g = m.__dict__
        g.update(__builtins__=self.builtins(pkg), __name__=full, __package__=pkg, __file__=path, __meth=h_meth, __fstr=h_fstr, __mod=h_mod, __comp=h_comp, __in=h_in)
        exec(compile(tree, path, 'exec'), g)
        return m


# ---------------------------------------------------------------- contracts
def discharge(obs, secs=20):
    """Obligations (kind, label, hypotheses, goal) -> result records; equal obligations are proved once."""
    work, seen = [], set()
    for o in obs:
        key = (o[0], o[1], z3.And(*o[2]).sexpr() if o[2] else '', o[3].sexpr())
        if key not in seen: work.append(o)
        seen.add(key)
    def one(k):
        kind, label, hyps, goal = work[k]
        t = time.time()
        st, be, m = prove(hyps, goal, secs)
        return dict(kind=kind, label=label, status=st, backend=be, secs=round(time.time() - t, 3), model=(str(m)[:400] if m is not None and st != 'proved' else None))
    out = [one(k) if z3.is_true(z3.simplify(work[k][3])) else None for k in range(len(work))]
    rest = [k for k in range(len(work)) if out[k] is None]
    j, solve.JOBS = solve.JOBS, 8
    try: res = solve.pmap(lambda i: one(rest[i]), len(rest))
    finally: solve.JOBS = j
    for k, r in zip(rest, res): out[k] = r or dict(kind=work[k][0], label=work[k][1], status='unknown', backend='z3', secs=secs, model=None)
    return out


def language(x, hyps):
    """A regular language containing every value of the string variable x."""
    full = z3.Full(z3.ReSort(z3.StringSort()))
    def lang(h):
        if h.decl().kind() == z3.Z3_OP_SEQ_IN_RE and h.arg(0).eq(x): return h.arg(1)
        if h.decl().kind() == z3.Z3_OP_SEQ_CONTAINS and h.arg(0).eq(x) and z3.is_string_value(h.arg(1)): return z3.Concat(full, z3.Re(h.arg(1)), full)
        if z3.is_not(h):
            r = lang(h.arg(0))
            return z3.Complement(r) if r is not None else None
        return None
    rs = [r for r in map(lang, hyps) if r is not None]
    return z3.Intersect(*rs) if len(rs) > 1 else rs[0] if rs else full


def by_language(hyps, goal, secs):
    t, hs = goal.arg(0), []
    for h in hyps: hs += T.conjuncts(h)
    ps = []
    def flat(e):
        if e.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            for c in e.children(): flat(c)
        else: ps.append(e)
    flat(t)
    rs = []
    for e in ps:
        if z3.is_string_value(e): rs.append(z3.Re(e))
        elif z3.is_const(e): rs.append(language(e, hs))
        else: return False
    L = rs[0] if len(rs) == 1 else z3.Concat(*rs)
    s = z3.Solver()
    s.set('timeout', int(secs * 1000))
    s.add(z3.InRe(z3.String('any'), z3.Intersect(L, z3.Complement(goal.arg(1)))))
    return s.check() == z3.unsat


def prove(hyps, goal, secs=20):
    g = z3.simplify(goal)
    if z3.is_true(g): return 'proved', 'simplifier', None
    if goal.decl().kind() == z3.Z3_OP_SEQ_IN_RE and by_language(hyps, goal, secs): return 'proved', 'z3', None
    for limit, arith in ((secs / 8, 6), (secs / 4, 2), (secs, 6)):
        s = z3.Solver()
        s.set('timeout', int(limit * 1000))
        s.set('arith.solver', arith)
        s.add(*hyps)
        s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat: return 'proved', 'z3', None
        if r == z3.sat: break
    if r == z3.sat: return 'refuted', 'z3', s.model()
    text = s.to_smt2()
    if 'pow2' not in text or True:
        import subprocess, tempfile
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write('(set-logic ALL)\n' + text)
        try:
            o = subprocess.run(['cvc5', '--strings-exp', '--tlimit=%d' % (secs * 1000), f.name], capture_output=True, text=True, timeout=secs + 10).stdout
            if o.strip().startswith('unsat'): return 'proved', 'cvc5', None
        except subprocess.TimeoutExpired: pass
        finally: os.unlink(f.name)
    return 'unknown', 'z3', None


def verify(name, body, secs=20, limit=400):
    """Runs one contract (a function that calls the code under test and states obligations on P()): result record."""
    t = time.time()
    try:
        paths = explore(body, limit)
        obs = [o for p in paths for o in p.obs]
        if not obs: raise Unsupported('no obligation arose')
        res = discharge(obs, secs)
        return dict(fn=name, obligations=res, paths=len(paths), unsupported=None, secs=round(time.time() - t, 2))
    except Unsupported as e:
        return dict(fn=name, obligations=[], paths=0, unsupported=str(e), secs=round(time.time() - t, 2))
    except Exception as e:
        import traceback
        return dict(fn=name, obligations=[], paths=0, unsupported='%s: %s' % (type(e).__name__, e), secs=round(time.time() - t, 2), trace=traceback.format_exc())


def collect(results, dyn=None, modelled=()):
    """Result of a pyprops module from verification results and the dynamic part."""
    obs, fns, bounded = [], [], []
    for r in results:
        for o in r['obligations']: obs.append(dict(o, label=r['fn'] + ': ' + o['label']))
        f = dict(fn=r['fn'], obligations=len(r['obligations']), discharged=sum(o['status'] == 'proved' for o in r['obligations']), paths=r['paths'], secs=r['secs'])
        if r['unsupported']:
            f['unsupported'] = r['unsupported']
            bounded.append(dict(fn=r['fn'], why='not expressible for the verifier: ' + r['unsupported']))
            print('note: %s is outside the verified subset (%s): decided by bounded execution of its contract' % (r['fn'], r['unsupported']))
        fns.append(f)
    out = dict(obligations=obs, functions=fns, bounded=bounded, violations=[], evaluations=0, samples=[],
               assumptions=['Python models (assumed contracts): ' + m for m in modelled], trusted=['vc/py.py (symbolic execution of the Python source by CPython)'])
    if dyn:
        out['violations'] = dyn.get('violations', [])
        out['evaluations'] = dyn.get('evaluations', 0)
        out['distinct'] = dyn.get('distinct', out['evaluations'])
        out['samples'] = dyn.get('samples', [])[:6]
    return out


def rundyn(pid, tier, seed, secs, replay=None):
    """Runs pydyn/<pid>.py with the interpreter the library is installed for; it prints one JSON line."""
    import subprocess, json, tempfile
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    env = dict(os.environ, PYTHONPATH=REPO + ':' + os.path.join(here, 'pydyn'), PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', TF_CPP_MIN_LOG_LEVEL='2', CUDA_VISIBLE_DEVICES='-1', PATH='/opt/venv/bin:' + os.environ.get('PATH', ''))
    with tempfile.TemporaryDirectory() as d:
        inp = os.path.join(d, 'in.json')
        json.dump(dict(tier=tier, seed=seed, secs=secs, replay=replay), open(inp, 'w'))
        try: r = subprocess.run(['/opt/venv/bin/python', os.path.join(here, 'pydyn', pid.lower() + '.py'), inp, os.path.join(d, 'out.json')], env=env, cwd=d, capture_output=True, text=True, timeout=secs + 240)
        except subprocess.TimeoutExpired: return dict(violations=[dict(where='python', key='timeout', input=None, detail='the bounded part did not end')], evaluations=0, samples=[])
        try: return json.load(open(os.path.join(d, 'out.json')))
        except Exception:
            # the library could not even be used: a failure of the code under test, named as such
            return dict(violations=[dict(where='python', key='crash', input=None, detail='the bounded part failed: ' + (r.stderr or r.stdout)[-1500:])], evaluations=0, samples=[])
