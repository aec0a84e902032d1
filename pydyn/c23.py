import re, math, struct
import numpy
from emlearn import cgen
from common import main

FLOAT = re.compile(r'[+-]?(\d+\.\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?|\d+[eE][+-]?\d+)f?')
INT = re.compile(r'-?(0|[1-9]\d*)')
INTTYPES = ['int', 'int8_t', 'int16_t', 'int32_t', 'uint8_t', 'uint16_t', 'unsigned int', 'int64_t']


def value(v):
    k, x = v
    if k == 'py': return float.fromhex(x) if isinstance(x, str) else x
    if k == 'f32': return numpy.float32(float.fromhex(x))
    if k == 'f64': return numpy.float64(float.fromhex(x))
    return getattr(numpy, k)(x)


def lit_float(t, v):
    if not FLOAT.fullmatch(t): return 'literal: %r is not a floating constant' % t
    got, v = float(t.rstrip('f')), float(v)
    if abs(got - v) > abs(v) * 2.0 ** -24: return 'value: %r is written as %s' % (v, t)
    if v != 0 and abs(v) >= 1.4e-45 and got == 0: return 'value: %r is written as zero' % v


def lit(t, v, dtype):
    if dtype == 'float': return lit_float(t, v)
    if 'int' in dtype:
        if not INT.fullmatch(t): return 'literal: %r is not an integer constant' % t
        if int(t) != int(v): return 'value: %r is written as %s' % (v, t)


def check(x):
    if x['what'] == 'constant':
        v = value(x['v'])
        return lit(cgen.constant(v, x['dtype']), v, x['dtype'])
    if x['what'] == 'declare':
        v = value(x['v'])
        m = re.fullmatch(r'\s*static\s+const\s+%s\s+%s\s*=\s*(\S+?)\s*;\s*' % (re.escape(x['dtype']), x['name']), cgen.constant_declare(x['name'], v, dtype=x['dtype']))
        if not m: return 'declaration: %r' % cgen.constant_declare(x['name'], v, dtype=x['dtype'])
        return lit(m.group(1), v, x['dtype'])
    vs = [value(v) for v in x['vs']]
    given = numpy.array(vs) if x.get('numpy') else vs
    kw = dict(dtype=x['dtype'], modifiers=x['modifiers'], values=given)
    if x.get('size') is not None: kw['size'] = x['size']
    if x.get('size') not in (None, len(vs)):
        try: t = cgen.array_declare('arr', **kw)
        except Exception: return None
        return 'size: %d values were declared with size %d: %s' % (len(vs), x['size'], t[:80])
    t = cgen.array_declare('arr', **kw)
    m = re.fullmatch(r'\s*%s\s+%s\s+arr\s*\[\s*(\d+)\s*\]\s*=\s*\{\s*(.*?)\s*,?\s*\}\s*;\s*' % (re.escape(x['modifiers']), re.escape(x['dtype'])), t, re.S)
    if not m: return 'declaration: %r' % t[:200]
    items = [i.strip() for i in m.group(2).split(',')] if m.group(2).strip() else []
    if int(m.group(1)) != len(vs): return 'size: %d values, declared %s' % (len(vs), m.group(1))
    if len(items) != len(vs): return 'count: %d values, %d written' % (len(vs), len(items))
    for i, v in zip(items, vs):
        d = lit(i, v, x['dtype'])
        if d: return d


def gen(tier, rng):
    fl = [0.0, -0.0, 1.0, -1.0, 3.14, 0.1, 1e-7, -1e-7, 4.9e-7, 5e-7, 1e-6, 1e-10, 1e-30, 1e-38, 1.5e-45, 1e6, 16777217.0, 123456789.0, 1e10, 1e20, 1e30, 3.4e38, 1 / 3, 2 / 3, 100.0, 1e5, 999999.5, 9999999.0, 0.5, 255.0, 1e-4, 1e-5, 123456.789, 1000000.0, 10.0, 1e16, 1e17, 2.0 ** 24 + 1]
    for v in fl:
        for s in (v, -v):
            for k in ('py', 'f64', 'f32'): yield dict(what='constant', dtype='float', v=[k, s.hex()])
            yield dict(what='declare', name='x1', dtype='float', v=['py', s.hex()])
    for v in (0, 1, -1, 7, 1000000, 123456789): yield dict(what='constant', dtype='float', v=['py', v])
    for t in INTTYPES:
        for v in (0, 1, -1, 10, 127, -128, 32767, -32768, 65535, 2 ** 31 - 1, -2 ** 31, 2 ** 63 - 1, 10 ** 20):
            yield dict(what='constant', dtype=t, v=['py', v])
            yield dict(what='declare', name='n_', dtype=t, v=['py', v])
            if abs(v) < 2 ** 31: yield dict(what='constant', dtype=t, v=['int64', v])
        for v in (0.0, 3.7, -3.7, 1e6, -0.5): yield dict(what='constant', dtype=t, v=['py', v.hex()])
    for n in list(range(0, 6)) + [50]:
        for dt in ('float', 'int16_t', 'uint8_t', 'int'):
            for nump in (False, True):
                vs = [['py', ((i * 7919 % 101) - 50) / (7.0 if dt == 'float' else 1)] for i in range(n)]
                vs = [['py', v[1].hex()] if dt == 'float' else ['py', int(abs(v[1]))] for v in vs]
                for size in (None, n, n + 1, n - 1):
                    if size is not None and size < 0: continue
                    yield dict(what='array', dtype=dt, modifiers=rng.choice(['static const', 'const', 'static']), vs=vs, numpy=nump and n > 0, size=size)
    for _ in range(6000 if tier == 'quick' else 300000):
        e = rng.uniform(-40, 38) if rng.random() < .5 else rng.uniform(-9, 9)
        v = rng.choice([1, -1]) * 10 ** e * rng.choice([1, rng.random() + .1])
        yield dict(what='constant', dtype='float', v=[rng.choice(['py', 'f64', 'f32']), float(v).hex()])
        v = rng.choice([1, -1]) * rng.randint(0, 10 ** rng.randint(1, 25))
        yield dict(what='constant', dtype=rng.choice(INTTYPES), v=['py', v])


if __name__ == '__main__': main(gen, check)
