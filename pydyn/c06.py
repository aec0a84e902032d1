import numpy
from fractions import Fraction
from emlearn import trees
from common import main


def check(x):
    b = x['bits']
    p = numpy.array(x['p'], dtype=x.get('dtype', 'float64'))
    q = numpy.asarray(trees.quantize_probabilities_into_byte(p, bits=b))
    if q.shape != p.shape: return 'shape: %s -> %s' % (p.shape, q.shape)
    lim = Fraction(255, 2 * (2 ** b - 2)) + 1 + Fraction(1, 10 ** 6)
    flat = sorted(zip(p.reshape(-1).tolist(), q.reshape(-1).tolist()))
    for a, v in flat:
        if v != int(v) or not 0 <= v <= 255: return 'range: %r -> %r' % (a, v)
        if abs(v - 255 * Fraction(a)) > lim: return 'accuracy: %r -> %r with %d bits' % (a, v, b)
        if a == 0 and v != 0: return 'zero: 0 -> %r' % v
        if a == 1 and v != 255: return 'one: 1 -> %r with %d bits' % (v, b)
    for (a, v), (c, w) in zip(flat, flat[1:]):
        if v > w: return 'monotone: %r -> %r but %r -> %r with %d bits' % (a, v, c, w, b)
    if len(set(v for a, v in flat)) > 2 ** b: return 'levels: %d values with %d bits' % (len(set(v for a, v in flat)), b)


def gen(tier, rng):
    for b in range(3, 9):
        yield dict(bits=b, p=numpy.linspace(0, 1, 4001).tolist())
        s = 2 ** b - 2
        edge = sorted({min(1.0, max(0.0, (k + h) / s + d)) for k in range(s + 1) for h in (0, .5) for d in (0, 1e-12, -1e-12, 1e-7, -1e-7)})
        yield dict(bits=b, p=edge)
        for p in ([0.0], [1.0], [0.5], [0, 0, 0], [1, 0], [0, 1], [1, 0, 0, 0], [.5, .5], [1 / 3, 2 / 3], [.1] * 10, [.25, .75]):
            for dt in ('float64', 'float32'): yield dict(bits=b, p=p, dtype=dt)
        yield dict(bits=b, p=[[0, 1], [.5, .5], [.2, .8]])
    for _ in range(1500 if tier == 'quick' else 60000):
        n = rng.randint(1, 12)
        p = [rng.random() ** rng.choice([1, 4, .2]) for _ in range(n)]
        if rng.random() < .5: p = [v / sum(p) for v in p]
        yield dict(bits=rng.randint(3, 8), p=p, dtype=rng.choice(['float64', 'float32']))


if __name__ == '__main__': main(gen, check)
