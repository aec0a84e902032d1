"""C20 (application of a sparse filterbank), C21 (power spectrum, Mel reduction)."""
from vc.contract import *
from vc import libc

MAX = 2**31 - 1
rz = lambda x: T.zr(x) if T.isz(x) else Fraction(x)
VEC = lambda const=False: S(data=P(lambda c, o: o.length, const=const))


# ---------------------------------------------------------------- sparse filterbank
WIDTH = spec.Fold('fb_width', lambda a, b, i: If(ge(b[i], a[i]), add(sub(b[i], a[i]), 1), 0), real=False)
FDOT = spec.Fold('fb_dot', lambda x, l, sh, j: mul(x[j], l[add(sh, j)]), ext='fb_dot')


class Filterbank(Contract):
    fn = 'eml_sparse_filterbank'
    args = ['x', 'out', 'n', 'a', 'b', 'lut']
    shape = dict(x=G('x', const=True), out=P(lambda c, o: c.n), a=P(lambda c, o: c.n, const=True), b=P(lambda c, o: c.n, const=True), lut=G('lut', const=True))
    props = ('C20',)

    def requires(self, c):
        a, b, n = c.a.ref(), c.b.ref(), c.n
        yield 'lengths', And(ge(n, 0), le(c.glen('x'), MAX), le(c.glen('lut'), MAX))
        yield 'ranges inside the input', forall(0, n, lambda i: Implies(ge(b[i], a[i]), And(ge(a[i], 0), lt(b[i], c.glen('x')))))
        yield 'a coefficient for every element of the ranges', forall(0, n, lambda i: And(ge(WIDTH(0, i, a, b), 0), le(add(WIDTH(0, i, a, b), If(ge(b[i], a[i]), add(sub(b[i], a[i]), 1), 0)), c.glen('lut'))))

    def assigns(self, c): return [(c.out, 0, c.n)]

    def value(self, c, i, hi=None):
        a, b = c.a.ref(), c.b.ref()
        return FDOT(a[i], add(b[i], 1) if hi is None else hi, c.x.ref(), c.lut.ref(), sub(WIDTH(0, i, a, b), a[i]))

    def ensures(self, c):
        o = c.post(c.out)
        yield 'ok', eq(c.ret, c.E('EmlOk'))
        yield 'every filter is the sum over its range of input times its own coefficient', forall(0, c.n, lambda i: req(o[i], self.value(c, i)))

    def invs(self, c, L):
        o, a, b = L.cur(c.out), c.a.ref(), c.b.ref()
        for i in L.ints:
            if not L.outer:
                if len(L.ints) > 1: yield 'done', forall(0, i, lambda k: eq(o[k], self.value(c, k)))
                else: yield 'zero before', forall(0, i, lambda k: eq(o[k], 0))
                yield 'zero', forall(i, c.n, lambda k: eq(o[k], 0))
                for f in L.ints:
                    if f is not i: yield 'coefficients used', eq(f, WIDTH(0, i, a, b))
            for k in L.outer:
                if k is i: continue
                yield 'range', le(a[k], i)
                yield 'sum', eq(o[k], self.value(c, k, i))
                for s in L.reals: yield 'partial sum', eq(s, self.value(c, k, i))
                yield 'earlier', forall(0, k, lambda m: eq(o[m], self.value(c, m)))
                yield 'later', forall(add(k, 1), c.n, lambda m: eq(o[m], 0))
                for f in L.ints:
                    if f is not i: yield 'next coefficient', eq(f, add(WIDTH(0, k, a, b), sub(i, a[k])))

    def gen(self, r):
        n, m = r.int(0, 4), r.int(1, 7)
        a = [r.int(0, m - 1) for _ in range(n)]
        b = [r.pick([r.int(x, m - 1), r.int(x, m - 1), r.int(x, m - 1), x - 1]) for x in a]
        w = sum(max(0, y - x + 1) for x, y in zip(a, b))
        return dict(x=r.reals(max([y + 1 for x, y in zip(a, b) if y >= x] + [0])), out=r.reals(n), n=n, a=a, b=b, lut=r.reals(w))


# ---------------------------------------------------------------- power spectrum
class Power(Contract):
    fn = 'eml_audio_power_spectrogram'
    args = ['x', 'out', 'nfft']
    shape = dict(x=VEC(True), out=VEC())
    props = ('C21',)
    check_fdiv = True
    def bins(self, c): return add(1, (c.nfft // 2 if not T.isz(c.nfft) else T.zi(c.nfft) / 2))
    def good(self, c): return And(gt(c.x.length, self.bins(c)), eq(c.out.length, self.bins(c)))
    def requires(self, c): return [('lengths', And(ge(c.nfft, 1), ge(c.x.length, 0), ge(c.out.length, 0)))]
    def assigns(self, c): return [(c.out.data, 0, If(self.good(c), self.bins(c), 0))]

    def ensures(self, c):
        o = c.post(c.out.data)
        yield 'ok exactly for matching lengths', iff(eq(c.ret, c.E('EmlOk')), self.good(c))
        if not c.symbolic and not self.good(c): return
        yield 'squared magnitude over n_fft', Implies(self.good(c), forall(0, self.bins(c), lambda i: req(mul(o[i], rz(c.nfft)), mul(c.x.data[i], c.x.data[i]))))

    def invs(self, c, L):
        o = L.cur(c.out.data)
        for i in L.ints: yield 'done', forall(0, i, lambda k: req(mul(o[k], rz(c.nfft)), mul(c.x.data[k], c.x.data[k])))

    def gen(self, r):
        nf = r.int(1, 10)
        b = 1 + nf // 2
        n, m = max(0, b + r.pick([1, 1, 1, 2, 0, -1, 4])), max(0, b + r.pick([0, 0, 0, 0, 1, -1]))
        return dict(x=dict(data=r.reals(n), length=n), out=dict(data=r.reals(m), length=m), nfft=nf)


# ---------------------------------------------------------------- Mel scale
def lg(x): return libc.log10_(rz(x))
def mel_of(hz): return mul(2595, lg(add(1, T.div_real(rz(hz), 700))))
def pow10(x): return libc.pow_(rz(10), rz(x))
def hz_of(m): return mul(700, sub(pow10(T.div_real(rz(m), 2595)), 1))


def center_def(nm, lo, hi, n):
    a, b = mel_of(lo), mel_of(hi)
    return hz_of(add(a, mul(rz(n), T.div_real(sub(b, a), rz(add(nm, 1))))))


# frequency of filter edge n; facts: lemma 'centers are in order' below
CENTER = spec.Rec('mel_center', None, pybody=lambda *a: center_def(*a), sort=T.R, facts=lambda app, nm, lo, hi, n: [z3.Implies(T.zb(And(ge(nm, 0), ge(lo, 0), le(lo, hi))), app <= CENTER(nm, rz(lo), rz(hi), add(n, 1)))])


def bin_def(nf, sr, hz):
    v = mul(rz(add(nf, 1)), T.div_real(rz(hz), rz(sr)))
    return z3.ToInt(T.zr(v)) if T.isz(v) else math.floor(v)


def _bin_facts(app, nm, lo, hi, nf, sr, n):
    nxt = BIN(nm, lo, hi, nf, sr, add(n, 1))
    return [eq(app, bin_def(nf, sr, CENTER(nm, lo, hi, n))), Implies(And(ge(nm, 0), ge(lo, 0), le(lo, hi), ge(nf, 0), ge(sr, 1)), le(app, nxt))]


BIN = spec.Fun('mel_bin', _bin_facts, lambda nm, lo, hi, nf, sr, n: bin_def(nf, sr, CENTER(nm, lo, hi, n)), real=False)


def LEMMAS():
    """log10 and the power of ten are increasing (assumed of libm), hence centers and bins are in order."""
    nm, lo, hi, n, sr, nf = [T.fresh(x, T.R) for x in ('nm', 'lo', 'hi', 'n', 'sr', 'nf')]
    la, lb, pa, pb = [T.fresh(x, T.R) for x in ('la', 'lb', 'pa', 'pb')]
    step = T.fresh('step', T.R)
    a, b = 2595 * la, 2595 * lb
    yield 'Mel of the lower frequency is not above that of the upper', [la <= lb], a <= b
    yield 'Mel step is not negative', [a <= b, nm >= 0, step * (nm + 1) == b - a], step >= 0
    yield 'exponents are in order', [step >= 0, nm >= 0], (a + n * step) / 2595 <= (a + (n + 1) * step) / 2595
    yield 'centers are in order', [pa <= pb], 700 * (pa - 1) <= 700 * (pb - 1)
    yield 'scaled centers are in order', [pa <= pb, sr >= 1, nf >= 0, la * sr == pa, lb * sr == pb], (nf + 1) * la <= (nf + 1) * lb
    yield 'bins are in order', [la <= lb], z3.ToInt(la) <= z3.ToInt(lb)


class FromHz(Contract):
    fn = 'eml_audio_mels_from_hz'
    args = ['hz']
    props = ('C21',)
    def requires(self, c): return [('positive argument', ge(c.hz, 0))]
    def ensures(self, c): return [('Mel formula', req(c.ret, mel_of(c.hz)))]
    def gen(self, r): return dict(hz=Fraction(r.int(0, 20000)))


class ToHz(Contract):
    fn = 'eml_audio_mels_to_hz'
    args = ['m']
    props = ('C21',)
    def ensures(self, c): return [('inverse Mel formula', req(c.ret, hz_of(c.m)))]
    def gen(self, r): return dict(m=Fraction(r.int(0, 4000)))


def par(c): return c.p.n_mels, c.p.fmin, c.p.fmax


def valid(c): return And(ge(c.p.n_mels, 0), lt(c.p.n_mels, MAX), ge(c.p.fmin, 0), le(c.p.fmin, c.p.fmax), ge(c.p.n_fft, 1), lt(c.p.n_fft, MAX), ge(c.p.samplerate, 1))


def gen_params(r):
    sr = r.pick([8000, 16000, 44100])
    return dict(n_mels=r.int(1, 6), fmin=Fraction(r.pick([0, 0, 20, 100])), fmax=Fraction(r.pick([sr // 2, sr // 2, sr // 4, sr // 2 + sr // 16])), n_fft=r.pick([8, 15, 16, 31, 32, 7]), samplerate=sr)


class Center(Contract):
    fn = 'eml_audio_mel_center'
    args = ['p', 'n']
    shape = dict(p=S())
    props = ('C21',)
    inline_spec = True
    def requires(self, c): return [('parameters', valid(c))]
    def setup(self, e, st, c): st.assume(CENTER(*par(c), c.n) == T.zr(center_def(*par(c), c.n)))     # definition of CENTER
    def ensures(self, c): return [('evenly spaced on the Mel scale', req(c.ret, CENTER(*par(c), c.n)))]
    def gen(self, r):
        p = gen_params(r)
        return dict(p=p, n=r.int(0, p['n_mels'] + 1))


def fits(nf, sr, hz):
    v = mul(rz(add(nf, 1)), T.div_real(rz(hz), rz(sr)))
    return And(ge(v, -2**31), lt(v, MAX))


def near_integer(nf, sr, hz):
    v = float(mul(rz(add(nf, 1)), T.div_real(rz(hz), rz(sr))))
    return abs(v - round(v)) < 1e-3 * max(1, abs(v))


class MelBin(Contract):
    fn = 'eml_audio_mel_bin'
    args = ['p', 'hz']
    shape = dict(p=S())
    props = ('C21',)
    def requires(self, c): return [('parameters', valid(c)), ('bin fits an int', fits(c.p.n_fft, c.p.samplerate, c.hz))]
    def ensures(self, c):
        if not c.symbolic and near_integer(c.p.n_fft, c.p.samplerate, c.hz): return
        yield 'bin of the frequency', eq(c.ret, bin_def(c.p.n_fft, c.p.samplerate, c.hz))
    def gen(self, r): return dict(p=gen_params(r), hz=Fraction(r.int(0, 22050)))


class MelBinN(Contract):
    fn = 'mel_bin'
    args = ['p', 'n']
    shape = dict(p=S())
    props = ('C21',)
    def requires(self, c): return [('parameters', valid(c)), ('bin fits an int', fits(c.p.n_fft, c.p.samplerate, CENTER(*par(c), c.n)))]
    def ensures(self, c):
        if not c.symbolic and near_integer(c.p.n_fft, c.p.samplerate, CENTER(*par(c), c.n)): return
        yield 'bin of the filter edge', eq(c.ret, BIN(*par(c), c.p.n_fft, c.p.samplerate, c.n))
    def gen(self, r):
        p = gen_params(r)
        return dict(p=p, n=r.int(0, p['n_mels'] + 1))


def freq(c, k):
    """Frequency of spectrum element k."""
    h = c.p.n_fft // 2 if not T.isz(c.p.n_fft) else T.zi(c.p.n_fft) / 2
    return T.div_real(mul(rz(k), T.div_real(rz(c.p.samplerate), 2)), rz(h))


class Freq(Contract):
    fn = 'eml_fft_freq'
    args = ['p', 'n']
    shape = dict(p=S())
    props = ('C21',)
    def requires(self, c): return [('parameters', And(valid(c), ge(c.p.n_fft, 2)))]
    def ensures(self, c): return [('bins are evenly spaced up to half the sample rate', req(c.ret, freq(c, c.n)))]
    def gen(self, r):
        p = gen_params(r)
        return dict(p=p, n=r.int(0, p['n_fft'] // 2))


def clamp(x): return If(lt(x, 0), 0, If(gt(x, 1), 1, x)) if T.isz(x) else max(Fraction(0), min(Fraction(1), x))


def _div(a, b): return T.div_real(a, b) if T.isz(a) or T.isz(b) or b else Fraction(0)
def _w(f, e0, e1): return clamp(_div(sub(f, e0), sub(e1, e0)))
def _f(k, sr, h): return T.div_real(mul(rz(k), T.div_real(rz(sr), 2)), rz(h))
UP = spec.Fold('mel_up', lambda x, e0, e1, sr, h, k: mul(x[k], _w(_f(k, sr, h), e0, e1)), ext='mel_up')
DOWN = spec.Fold('mel_down', lambda x, e1, e2, sr, h, k: mul(x[k], clamp(_div(sub(e2, _f(k, sr, h)), sub(e2, e1)))), ext='mel_down')


class MelSpec(Contract):
    fn = 'eml_audio_melspec'
    args = ['p', 'x', 'out']
    shape = dict(p=S(), x=VEC(True), out=VEC())
    props = ('C21',)
    ms = 8000

    def requires(self, c):
        yield 'parameters', And(valid(c), ge(c.p.n_fft, 2))
        yield 'lengths', And(ge(c.x.length, 0), ge(c.out.length, 0))
        yield 'bins fit an int', forall(0, add(c.p.n_mels, 2), lambda n: fits(c.p.n_fft, c.p.samplerate, CENTER(*par(c), n)))

    def half(self, c): return c.p.n_fft // 2 if not T.isz(c.p.n_fft) else T.zi(c.p.n_fft) / 2
    def good(self, c): return And(ge(c.x.length, add(1, self.half(c))), eq(c.out.length, c.p.n_mels))
    def assigns(self, c): return [(c.out.data, 0, If(self.good(c), c.out.length, 0))]
    def bin(self, c, n): return BIN(*par(c), c.p.n_fft, c.p.samplerate, n)
    def edge(self, c, n): return CENTER(*par(c), n)

    def value(self, c, m):
        x, h, sr = c.x.data.ref(), self.half(c), c.p.samplerate
        e = [self.edge(c, add(m, d)) for d in (0, 1, 2)]
        b = [self.bin(c, add(m, d)) for d in (0, 1, 2)]
        return add(UP(b[0], add(b[1], 1), x, e[0], e[1], rz(sr), rz(h)), DOWN(add(b[1], 1), add(b[2], 1), x, e[1], e[2], rz(sr), rz(h)))

    def ensures(self, c):
        o = c.post(c.out.data)
        ok = eq(c.ret, c.E('EmlOk'))
        yield 'mismatching lengths are an error', Implies(Not(self.good(c)), Not(ok))
        if not c.symbolic and not self.good(c): return
        if c.symbolic:
            yield 'a success means that all filters are inside the spectrum', Implies(And(self.good(c), ok), forall(0, c.p.n_mels, lambda m: And(ge(self.bin(c, m), 0), le(self.bin(c, add(m, 2)), self.half(c)))))
            yield 'filters outside the spectrum are the only other error', Implies(And(self.good(c), Not(ok)), exists(0, c.p.n_mels, lambda m: Or(lt(self.bin(c, m), 0), gt(self.bin(c, add(m, 2)), self.half(c)))))
            yield 'every value is the triangular sum', Implies(ok, forall(0, c.p.n_mels, lambda m: eq(o[m], self.value(c, m))))
            return
        if any(near_integer(c.p.n_fft, c.p.samplerate, self.edge(c, n)) for n in range(c.p.n_mels + 2)): return
        inside = all(self.bin(c, m) >= 0 and self.bin(c, m + 2) <= self.half(c) for m in range(c.p.n_mels))
        yield 'succeeds exactly when all filters are inside the spectrum', inside == ok
        if inside: yield 'every value is the triangular sum', all(abs(o[m] - self.value(c, m)) <= Fraction(1, 1000) * max(1, abs(self.value(c, m))) for m in range(c.p.n_mels))

    def invs(self, c, L):
        o, h = L.cur(c.out.data), self.half(c)
        x, sr = c.x.data.ref(), c.p.samplerate
        for i in L.ints:
            if L.changed(c.out.data):
                yield 'from one', ge(i, 1)
                yield 'inside', forall(0, sub(i, 1), lambda m: And(ge(self.bin(c, m), 0), le(self.bin(c, add(m, 2)), h)))
                yield 'done', forall(0, sub(i, 1), lambda m: eq(o[m], self.value(c, m)))
                continue
            for m in L.outer:
                if m is i: continue
                m0 = sub(m, 1)
                e = [self.edge(c, add(m0, d)) for d in (0, 1, 2)]
                b = [self.bin(c, add(m0, d)) for d in (0, 1, 2)]
                yield 'bins from left', ge(i, b[0])
                yield 'bins from center', ge(i, b[1])
                for s in L.reals:
                    yield 'rising', eq(s, UP(b[0], i, x, e[0], e[1], rz(sr), rz(h)))
                    yield 'falling', eq(s, add(UP(b[0], add(b[1], 1), x, e[0], e[1], rz(sr), rz(h)), DOWN(add(b[1], 1), add(i, 1), x, e[1], e[2], rz(sr), rz(h))))

    def gen(self, r):
        p = gen_params(r)
        h = 1 + p['n_fft'] // 2
        n, m = max(0, h + r.pick([0, 0, 0, 1, -1])), max(0, p['n_mels'] + r.pick([0, 0, 0, 0, 1, -1]))
        return dict(p=p, x=dict(data=r.reals(n), length=n), out=dict(data=r.reals(m), length=m))


CONTRACTS = [Filterbank(), Power(), FromHz(), ToHz(), Center(), MelBin(), MelBinN(), Freq(), MelSpec()]
