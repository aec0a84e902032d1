import re, string
import numpy
from emlearn import cgen
from common import main

KEYWORDS = '''auto break case char const continue default do double else enum extern float for goto if int long register return short signed sizeof static struct switch
typedef union unsigned void volatile while inline restrict _Bool _Complex _Imaginary _Alignas _Alignof _Atomic _Generic _Noreturn _Static_assert _Thread_local'''.split()


def usable(s):
    from emlearn.creserved import RESERVED_WORDS
    ok = len(s) > 0 and all(c in string.ascii_letters + string.digits + '_' for c in s) and s[0] not in string.digits
    return ok and s not in KEYWORDS and s not in RESERVED_WORDS


def accepted(f, s):
    try: f(s)
    except ValueError: return False
    return True


X2 = numpy.array([[1, 2], [3, 4]], dtype=float)


def gen_trees(n, method):
    from emlearn import trees
    nodes = [[0, 5, -1, -2]]
    f = trees.generate_c_inlined if method == 'inline' else trees.generate_c_loadable
    return f((nodes, [0], [0, 1]), n, n_features=2, n_classes=2, dtype='int16_t')


def gen_net(n, method):
    from emlearn import net
    f = net.c_generate_net_inline if method == 'inline' else net.c_generate_net_loadable
    return f(['relu', 'logistic'], [X2, X2[:, :1]], [X2[0], X2[0, :1]], n)


def gen_neighbors(n):
    from emlearn import neighbors
    return neighbors.c_generate_neighbors(X2.astype(int), numpy.array([0, 1]), 1, n)


def gen_bayes(n):
    from emlearn import bayes
    return bayes.generate_c(numpy.ones((2, 2, 3)), n)


def gen_mixture(n):
    from emlearn import mixture
    import types
    m = types.SimpleNamespace(_means=X2, _log_det=X2[0], _covariance_type='full', _precisions_col=numpy.array([X2, X2]), _log_weights=X2[1])
    return mixture.generate_code(m, n)


def gen_distance(n):
    from emlearn import distance
    return distance.generate_code(X2[0], X2, 1.0, n)


GENERATORS = dict(trees_inline=lambda n: gen_trees(n, 'inline'), trees_loadable=lambda n: gen_trees(n, 'loadable'), net_inline=lambda n: gen_net(n, 'inline'), net_loadable=lambda n: gen_net(n, 'loadable'),
                  neighbors=gen_neighbors, bayes=gen_bayes, mixture=gen_mixture, distance=gen_distance)


def check(x):
    s, want = x['name'], usable(x['name'])
    if x['via'] == 'cgen':
        got = accepted(cgen.assert_valid_identifier, s)
    else:
        g = GENERATORS[x['via']]
        got = accepted(g, s)
        if got and want:
            code = g(s)
            if s not in code: return 'name: %s does not use the name %r' % (x['via'], s)
    if got != want: return 'name: %s %s %r, which is %s' % (x['via'], 'accepts' if got else 'refuses', s, 'usable' if want else 'not usable')


def gen(tier, rng):
    from emlearn.creserved import RESERVED_WORDS
    base = ['', 'a', '_', '9', 'a9', '9a', 'model', 'my_model', 'Aa0_', 'a\n', 'a\r', 'a ', ' a', '\na', 'a\t', 'a\x00', 'a\n\n', 'a\nb', 'é', 'aé', 'a٣', 'ａ', 'a\u2028', 'a\x85', 'a-b', 'a.b', 'a;b', 'for', 'For', 'FOR', 'for\n', '_Bool',
            'a$', '$', 'a' * 300, '\U0001d41a', 'ſ', 'K', 'ª', 'a\x1f', '__', '_1', 'a\u200d']
    words = sorted(set(RESERVED_WORDS) | set(KEYWORDS))
    base += words + [w + '_' for w in words] + [w + '\n' for w in words] + ['_' + w for w in words]
    for s in base: yield dict(via='cgen', name=s)
    for c in range(0, 0x300):
        yield dict(via='cgen', name=chr(c))
        yield dict(via='cgen', name='a' + chr(c))
        yield dict(via='cgen', name='a' + chr(c) + 'b')
    for g in GENERATORS:
        for s in ['model', '_m1', 'for', 'a\n', '', '1a', 'a b', 'é', 'true', 'a-b']: yield dict(via=g, name=s)
    for _ in range(3000 if tier == 'quick' else 100000):
        n = rng.randint(1, 8)
        alphabet = rng.choice(['ab_19', 'aZ_0\n ', string.printable, ''.join(chr(rng.randint(1, 0xd7ff)) for _ in range(20)) + 'ab'])
        yield dict(via='cgen', name=''.join(rng.choice(alphabet) for _ in range(n)))


if __name__ == '__main__': main(gen, check)
