import re
import numpy
from emlearn import trees
from common import main
LO, HI = -2 ** 15, 2 ** 15 - 1


def ok(i, c): return c >= LO if c < 0 else i < c <= i + HI


def refuses(f, *a):
    try: return None, f(*a)
    except Exception as e: return e, None


def table(code):
    m = re.search(r'\{(.*)\}\s*;', code, re.S)
    return [[x.strip() for x in r.split(',')] for r in re.findall(r'\{([^{}]*)\}', m.group(1))]


def compare(rows, nodes, what):
    if len(rows) != len(nodes): return '%s: %d entries for %d nodes' % (what, len(rows), len(nodes))
    for i, (r, n) in enumerate(zip(rows, nodes)):
        if int(r[0]) != n[0]: return '%s: node %d has feature %s, not %d' % (what, i, r[0], n[0])
        for s, c in ((r[2], n[2]), (r[3], n[3])):
            e = int(s)
            if not LO <= e <= HI: return '%s: node %d: reference %d does not fit 16 bits' % (what, i, e)
            if (e if e < 0 else i + e) != c or e == 0: return '%s: node %d: reference to %d is written as %d' % (what, i, c, e)


def check(x):
    k = x['kind']
    if k == 'assert':
        e, _ = refuses(trees.assert_valid_child, x['v'])
        if (e is None) != (LO <= x['v'] <= HI): return 'assert_valid_child: %d %s' % (x['v'], 'refused' if e else 'accepted')
    elif k == 'encode':
        i, c = x['i'], x['c']
        e, v = refuses(trees.encode_child, i, c)
        if (e is None) != ok(i, c): return 'encode_child: reference from %d to %d %s' % (i, c, 'refused: %r' % e if e else 'encoded as %r' % v)
        if e is None and (not LO <= v <= HI or (v if v < 0 else i + v) != c): return 'encode_child: reference from %d to %d encoded as %d' % (i, c, v)
    else:
        nodes = [[0, 5, -1, -2] for _ in range(x['n'])]
        for i, c, side in x['set']: nodes[i][side] = c
        want = all(ok(i, c) for i, n in enumerate(nodes) for c in n[2:])
        if k == 'nodes':
            e, code = refuses(lambda: trees.generate_c_nodes(nodes, 'nn', dtype='int16_t'))
            rows = None if e else table(code)
        else:
            w = trees.Wrapper.__new__(trees.Wrapper)
            w.forest_ = ([[n[0], numpy.float64(n[1]), n[2], n[3]] for n in nodes], [0], [0, 1])
            w.n_features, w.n_classes, w.leaf_bits, w.method, w.dtype, w.is_classifier = 1, 2, 0, 'loadable', 'int16_t', True
            e, code = refuses(lambda: w.save(name='m', format='csv'))
            rows = None if e else [l.split(',')[1:] for l in code.splitlines() if l.startswith('n,')]
        if (e is None) != want: return '%s: table %s: %s %r' % (k, 'refused' if e else 'emitted', x['set'], e)
        if e is None: return compare(rows, nodes, k)


def gen(tier, rng):
    for b in (LO, HI, 0, -1, 65535, -65536):
        for d in range(-2, 3): yield dict(kind='assert', v=b + d)
    for i in (0, 1, 5, 32767, 32768, 40000, 100000):
        for c in (LO, HI, -1, i, i + HI, i + 1, 0):
            for d in range(-2, 3): yield dict(kind='encode', i=i, c=c + d)
    for k in ('nodes', 'csv'):
        yield dict(kind=k, n=1, set=[])
        for i, c in ((0, 1), (0, 2), (1, 2), (1, 1), (1, 0), (2, 1), (0, LO), (0, LO - 1), (0, HI), (0, HI + 1), (2, HI + 2), (2, HI + 3), (3, LO), (3, LO - 1), (3, 3), (3, 4)):
            for side in (2, 3): yield dict(kind=k, n=5, set=[[i, c, side]])
        yield dict(kind=k, n=33000, set=[[100, 32867, 2], [32000, 32999, 3]])
        yield dict(kind=k, n=33000, set=[[100, 32868, 2]])
    for _ in range(2000 if tier == 'quick' else 100000):
        i = rng.randint(0, 10 ** rng.randint(0, 6))
        yield dict(kind='encode', i=i, c=rng.choice([rng.randint(-40000, 0), i + rng.randint(-5, 40000), rng.randint(0, 100000)]))
    for _ in range(200 if tier == 'quick' else 5000):
        n = rng.randint(1, 12)
        yield dict(kind=rng.choice(['nodes', 'csv']), n=n, set=[[rng.randrange(n), rng.choice([rng.randint(-5, n + 2), LO, LO - 1, HI]), rng.choice([2, 3])] for _ in range(rng.randint(1, 4))])


if __name__ == '__main__': main(gen, check)
