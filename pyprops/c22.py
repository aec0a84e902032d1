"""C22: assert_valid_identifier accepts a string exactly when it is a usable C identifier; all strings, by z3's string theory."""
import z3
from vc import py
from vc.py import P, Str, zb

KEYWORDS = '''auto break case char const continue default do double else enum extern float for goto if int long register return short signed sizeof static struct switch
typedef union unsigned void volatile while inline restrict _Bool _Complex _Imaginary _Alignas _Alignof _Atomic _Generic _Noreturn _Static_assert _Thread_local'''.split()


def spec(s, reserved):
    letter = z3.Union(z3.Range('a', 'z'), z3.Range('A', 'Z'), z3.Re('_'))
    shape = z3.InRe(s, z3.Concat(letter, z3.Star(z3.Union(letter, z3.Range('0', '9')))))
    return shape, z3.Or(*[s == z3.StringVal(w) for w in sorted(reserved)])


def contracts():
    cg = lambda: py.Loader().load('emlearn.cgen')
    words = lambda: set(py.Loader().load('emlearn.creserved').RESERVED_WORDS) | set(KEYWORDS)

    def assert_valid():
        s = z3.String('s')
        shape, res = spec(s, words())
        o = py.call(cg().assert_valid_identifier, Str([s]))
        if o.exc is None: P().oblige('an accepted name is a usable identifier', z3.And(shape, z3.Not(res)))
        else:
            P().oblige('a refused name is not a usable identifier', z3.Not(z3.And(shape, z3.Not(res))))
            P().oblige('refusal is a ValueError', isinstance(o.exc, ValueError))

    def is_valid():
        s = z3.String('s')
        shape, res = spec(s, words())
        o = py.call(cg().identifier_is_valid, Str([s]))
        P().oblige('no exception', o.exc is None)
        if o.exc is None: P().oblige('valid exactly for the shape of identifiers', py.zb(o.value if not isinstance(o.value, bool) else o.value) == shape)

    def is_reserved():
        s = z3.String('s')
        shape, res = spec(s, words())
        o = py.call(cg().identifier_is_reserved, Str([s]))
        P().oblige('no exception', o.exc is None)
        if o.exc is None: P().oblige('reserved exactly for the reserved words', py.zb(o.value) == res)
    return [('cgen.assert_valid_identifier', assert_valid), ('cgen.identifier_is_valid', is_valid), ('cgen.identifier_is_reserved', is_reserved)]


def run(tier, seed, secs):
    res = [py.verify(n, f) for n, f in contracts()]
    dyn = py.rundyn('C22', tier, seed, 60 if tier == 'quick' else 300)
    out = py.collect(res, dyn, ['re (translation of the pattern syntax to regular languages, checked against re on the bounded inputs)'])
    out['bounded'].append(dict(fn='code generators', why='that each generator refuses unusable names is executed for %d names per generator' % 10))
    return out


def replay(x): return py.rundyn('C22', 'quick', 1, 60, replay=x)['replay']
