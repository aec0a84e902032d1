"""Contracts evaluated on runs of the real compiled functions (replay, search for failing inputs, cross-check).

The functions are compiled from /repo's current headers with undefined-behaviour traps; every pointer argument lives
in its own block that ends at an inaccessible page and is preceded by a canary."""
import ctypes, json, math, mmap, os, random, signal, struct, subprocess, sys, tempfile, time, importlib
from fractions import Fraction
from . import terms as T, cfront, contract as C, engine as E
from .terms import And, Or, Not

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SLOT = 1 << 16


class Rng:
    """Inputs biased to small sizes and boundary values; reals are dyadic so that float arithmetic on them is exact."""
    def __init__(self, seed): self.r = random.Random(seed)
    def int(self, a, b): return self.r.randint(a, b)
    def pick(self, xs): return self.r.choice(list(xs))
    def real(self): return Fraction(self.r.choice([0, 1, -1, 2, -3, self.r.randint(-16, 16), self.r.randint(-64, 64)]), self.r.choice([1, 1, 2, 4, 8]))
    def reals(self, n): return [self.real() for _ in range(n)]
    def ints(self, n, a=-100, b=100): return [self.r.choice([a, b, self.r.randint(a, b), self.r.randint(a, b)]) for _ in range(n)]
    def shuffle(self, xs):
        xs = list(xs)
        self.r.shuffle(xs)
        return xs


def build(front, names, out, extra_flags=(), extra_code=''):
    src = ''.join('#include <%s>\n' % h for h in cfront.HEADERS) + extra_code
    for fn in names:
        ps = [p['type']['qualType'] for p in front.params(fn)]
        q = front.functions[fn]['type']['qualType']
        rt = q[:q.index('(')].strip()
        call = '%s(%s)' % (fn, ', '.join('*(__typeof__(%s)*)a[%d]' % (t.replace('const', '') if '*' not in t and '[' not in t else t, i) for i, t in enumerate(ps)))
        body = call + ';' if rt == 'void' else '__typeof__(%s) r_ = %s; __builtin_memcpy(ret, &r_, sizeof r_);' % (rt, call)
        src += 'void vp_call_%s(void **a, void *ret) { %s }\n' % (fn, body)
    p = out + '.c'
    open(p, 'w').write(src)
    r = subprocess.run(['clang-18', '-O1', '-g0', '-w', '-shared', '-fPIC', '-ffp-contract=off', '-fsanitize=undefined,float-cast-overflow',
                        '-fno-sanitize=alignment,function,pointer-overflow,shift-base', '-fsanitize-trap=all', '-I', os.path.join(cfront.REPO, 'emlearn'), *extra_flags, p, '-o', out, '-lm'],
                       capture_output=True, text=True)
    if r.returncode != 0: raise cfront.FrontError('compile: ' + r.stderr[:2000])


def offsets(front, ct):
    off = 0
    for fn, ft in front.fields(ct.name):
        a = front.alignof(ft)
        off = (off + a - 1) // a * a
        yield fn, ft, off
        off += front.sizeof(ft)


FMT = {(8, True): 'b', (8, False): 'B', (16, True): 'h', (16, False): 'H', (32, True): 'i', (32, False): 'I', (64, True): 'q', (64, False): 'Q'}


def fpack(v, bits):
    f = float(v)
    if bits == 32:
        try: return struct.pack('<f', f)
        except OverflowError: return struct.pack('<f', math.copysign(float('inf'), f))
    return struct.pack('<d', f)


def funpack(b):
    f = struct.unpack('<f' if len(b) == 4 else '<d', b)[0]
    return f if math.isnan(f) or math.isinf(f) else Fraction(f)


class Arena:
    def __init__(self, slots=48):
        libc = ctypes.CDLL(None, use_errno=True)
        libc.mmap.restype = ctypes.c_void_p
        libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
        libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
        self.base = libc.mmap(None, (SLOT + 4096) * slots, 3, 0x22, -1, 0)
        self.n, self.slots = 0, slots
        for i in range(slots): libc.mprotect(self.base + i * (SLOT + 4096) + SLOT, 4096, 0)

    def reset(self): self.n = 0

    def alloc(self, size):
        assert size <= SLOT - 512, size
        if self.n >= self.slots: raise RuntimeError('too many blocks')
        end = self.base + self.n * (SLOT + 4096) + SLOT
        self.n += 1
        a = end - size
        ctypes.memset(a - 256, 0xA5, 256)
        return a


class Runner:
    def __init__(self, front, names, libdir=None, extra_code=''):
        self.front = front
        self.dir = libdir or tempfile.mkdtemp(prefix='vc_run_')
        self.own = libdir is None
        self.path = os.path.join(self.dir, 'lib.so')
        if not os.path.exists(self.path): build(front, names, self.path, extra_code=extra_code)
        self.lib = ctypes.CDLL(self.path)
        self.arena = Arena()

    # ---- state -> memory
    def put(self, ct, v, addr, ptr_of):
        f = self.front
        if ct.k == 'bool': b = struct.pack('<B', int(v))
        elif ct.k == 'int': b = struct.pack('<' + FMT[(ct.bits, ct.signed)], T.wrap(int(v), ct.bits, ct.signed))
        elif ct.k == 'float': b = fpack(v, ct.bits)
        elif ct.k in ('ptr', 'func'): b = struct.pack('<Q', ptr_of(v))
        else: raise E.Unsupported('marshal %r' % ct)
        ctypes.memmove(addr, b, len(b))

    def get(self, ct, addr):
        n = self.front.sizeof(ct)
        b = ctypes.string_at(addr, n)
        if ct.k == 'bool': return bool(b[0])
        if ct.k == 'int': return struct.unpack('<' + FMT[(ct.bits, ct.signed)], b)[0]
        if ct.k == 'float': return funpack(b)
        raise E.Unsupported('unmarshal %r' % ct)

    def leafoff(self, ct, base=0, path=''):
        if ct.k == 'struct':
            for fn, ft, off in offsets(self.front, ct): yield from self.leafoff(ft, base + off, path + '.' + fn)
        else: yield path, ct, base

    def case(self, con, contracts, values, before_call=None):
        """Run one case. Returns None (skipped), [] (fine) or a list of failed clauses."""
        f = self.front
        eng = E.Engine(f, contracts)
        eng.top = con
        st = E.State()
        st.concrete = True
        c, args = C.build_args(eng, st, con, values)
        for l, g in con.requires(c):
            if T.isz(g): raise E.Unsupported('symbolic precondition: ' + l)
            if not g: return None
        # layout
        self.arena.reset()
        addr = {}
        for name, r in eng.regions.items():
            if r.fam:
                lists = st.mem[(name, '')] if (name, '') in st.mem else st.mem[next(k for k in st.mem if k[0] == name)]
                addr[name] = [self.arena.alloc(max(1, len(x)) * f.sizeof(r.elem) if len(x) else 0) for x in lists]
            elif '.' in name and any(s is r for q in eng.regions.values() for s in q.sub.values()): continue
            else: addr[name] = self.arena.alloc(int(r.length) * f.sizeof(r.elem))
        for name, r in eng.regions.items():
            for path, sub in r.sub.items():
                off = [o for p, ct, o in self.leafoff(r.elem) if p == path][0]
                addr[sub.name] = addr[name] + off

        def ptr_of(p):
            if not isinstance(p, E.Ptr): return 0
            for g, r, i, o in p.alts:
                if r is None: return 0
                if r.name.endswith('!opaque'): return 0
                a = addr[r.name]
                if r.fam: a = a[i]
                return a + o * f.sizeof(r.elem)
        for name, r in eng.regions.items():
            es = f.sizeof(r.elem)
            for path, ct, off in self.leafoff(r.elem):
                if ct.k == 'array': continue
                if ct.k in ('ptr', 'func'):
                    p = st.ptrs.get((name, path))
                    for k in range(int(r.length)):
                        self.put(ct, p(k) if callable(p) else p, addr[name] + k * es + off, ptr_of)
                    continue
                m = st.mem[(name, path)]
                if r.fam:
                    for i, vs in enumerate(m):
                        for k, v in enumerate(vs): self.put(ct, v, addr[name][i] + k * es + off, ptr_of)
                else:
                    for k, v in enumerate(m): self.put(ct, v, addr[name] + k * es + off, ptr_of)
        # arguments
        n = len(args)
        arr = (ctypes.c_void_p * max(1, n))()
        for i, (v, ct) in enumerate(zip(args, c._cts)):
            a = self.arena.alloc((f.sizeof(ct) + 15) // 16 * 16)
            arr[i] = a
            if ct.k == 'struct':
                for fn, ft, off in offsets(f, ct): self.put(ft, v[fn], a + off, ptr_of)
            else: self.put(ct, v, a, ptr_of)
        rt = f.rettype(con.fn)
        rb = ctypes.create_string_buffer(64)
        nblocks = self.arena.n
        fnp = getattr(self.lib, 'vp_call_' + con.fn)
        fnp.restype = None
        fnp(arr, rb)
        # read back
        bad = []
        post = st.copy()
        wrote = set()
        for v, path, lo, hi, ct in con.norm_assigns(c):
            if ct.k == 'ptr' and lo < hi: wrote |= {(r.name, path) for g, r, i, o in v._p.alts if r is not None}
        for name, r in eng.regions.items():
            es = f.sizeof(r.elem)
            for path, ct, off in self.leafoff(r.elem):
                if ct.k == 'array' or ct.k in ('ptr', 'func'):
                    if ct.k == 'ptr' and not r.fam and (name, path) not in wrote:
                        for k in range(int(r.length)):
                            p = st.ptrs.get((name, path))
                            w = ptr_of(p(k) if callable(p) else p)
                            if struct.unpack('<Q', ctypes.string_at(addr[name] + k * es + off, 8))[0] != w: bad.append('pointer %s%s was changed' % (name, path))
                    continue
                m = st.mem[(name, path)]
                if r.fam: post.mem[(name, path)] = [[self.get(ct, addr[name][i] + k * es + off) for k in range(len(vs))] for i, vs in enumerate(m)]
                else: post.mem[(name, path)] = [self.get(ct, addr[name] + k * es + off) for k in range(len(m))]
        for i in range(nblocks):
            pass
        for name, a in addr.items():
            for x in (a if isinstance(a, list) else [a]):
                if any(s.name == name for q in eng.regions.values() for s in q.sub.values()): continue
                if ctypes.string_at(x - 256, 256) != b'\xa5' * 256: bad.append('memory before %s was overwritten' % name)
        ret = None
        if rt.k not in ('void', 'ptr', 'struct', 'opaque'):
            ret = self.get(rt, ctypes.addressof(rb))
        elif rt.k == 'ptr':
            raw = struct.unpack('<Q', rb.raw[:8])[0]
            ret = E.NULL if raw == 0 else None
            for name, a in addr.items():
                r = eng.regions[name]
                if raw and not r.fam and a <= raw <= a + int(r.length) * f.sizeof(r.elem):
                    ret = E.Ptr.to(r, (raw - a) // f.sizeof(r.elem))
            if ret is None: bad.append('a pointer outside every block was returned'); ret = E.NULL
        elif rt.k == 'struct':
            ret = {}
            for fn, ft, off in offsets(f, rt):
                if ft.k == 'ptr':
                    raw = struct.unpack('<Q', rb.raw[off:off + 8])[0]
                    ret[fn] = E.NULL
                    for name, a in addr.items():
                        r = eng.regions[name]
                        if raw and not r.fam and a <= raw <= a + int(r.length) * f.sizeof(r.elem):
                            ret[fn] = E.Ptr.to(r, (raw - a) // f.sizeof(r.elem))
                else: ret[fn] = self.get(ft, ctypes.addressof(rb) + off)
        c.set_post(post, ret)
        for l, g in con.ensures(c):
            if T.isz(g): raise E.Unsupported('symbolic postcondition: ' + l)
            if not g: bad.append('post: ' + l)
        # frame
        w = {}
        for v, path, lo, hi, ct in con.norm_assigns(c):
            for g, r, i, o in v._p.alts:
                if r is None: continue
                es = f.sizeof(ct) // eng.esize(r) if r.elem.k == 'int' and r.elem.bits == 8 else 1
                w.setdefault((r.name, path if r.elem.k == 'struct' else ''), []).append((i, o + lo * es, o + hi * es))
        for key, old in st.mem.items():
            new = post.mem[key]
            r = eng.regions[key[0]]
            for i, (x, y) in enumerate(zip(old if r.fam else [old], new if r.fam else [new])):
                for k in range(len(x)):
                    if x[k] != y[k] and not (isinstance(x[k], float) and isinstance(y[k], float)):
                        if not any((ii is None or ii == i) and lo <= k < hi for ii, lo, hi in w.get(key, [])):
                            if isinstance(x[k], Fraction) and C.f32(x[k]) == y[k]: continue
                            bad.append('frame: %s%s[%d] was written' % (key[0], key[1], k))
        return bad


def enc(v):
    if isinstance(v, Fraction): return {'$q': str(v)}
    if isinstance(v, dict): return {k: enc(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)): return [enc(x) for x in v]
    return v


def dec(v):
    if isinstance(v, dict):
        if '$q' in v: return Fraction(v['$q'])
        return {k: dec(x) for k, x in v.items()}
    if isinstance(v, list): return [dec(x) for x in v]
    return v


def all_contracts():
    sys.path.insert(0, HERE) if HERE not in sys.path else None
    out = {}
    for m in sorted(os.listdir(os.path.join(HERE, 'contracts'))):
        if m.endswith('.py') and not m.startswith('_'):
            M = importlib.import_module('contracts.' + m[:-3])
            for c in getattr(M, 'CONTRACTS', []): out[c.fn] = c
    return out


def worker(fns, seed, secs, outfile, maxcases):
    """Child process: random cases; writes the current case before running it."""
    front = cfront.load()
    cons = all_contracts()
    fns = [f for f in fns if f in front.functions]
    run = Runner(front, fns, libdir=os.path.dirname(outfile))
    res = {f: [0, 0] for f in fns}
    end = time.time() + secs
    cur = outfile + '.cur'
    i = 0
    while time.time() < end and i < maxcases:
        for f in fns:
            con = cons[f]
            r = Rng('%d/%s/%d' % (seed, f, i))
            try: vals = con.gen(r)
            except NotImplementedError: continue
            with open(cur, 'w') as fh: json.dump(dict(fn=f, values=enc(vals)), fh)
            signal.setitimer(signal.ITIMER_REAL, 20)
            try: bad = run.case(con, cons, vals)
            except E.Unsupported as e:
                res[f].append(str(e)) if len(res[f]) < 3 else None
                continue
            signal.setitimer(signal.ITIMER_REAL, 0)
            if bad is None: continue
            res[f][0] += 1
            if bad:
                json.dump(dict(status='violation', fn=f, values=enc(vals), clauses=bad, res=res), open(outfile, 'w'))
                return
        i += 1
    json.dump(dict(status='ok', res=res), open(outfile, 'w'))


def search(fns, seed=1, secs=30, maxcases=400):
    """Returns dict(status=ok|violation, ...). A crash of the code under test is a violation of the current case."""
    d = tempfile.mkdtemp(prefix='vc_run_')
    try:
        out = os.path.join(d, 'out.json')
        code = 'import sys; sys.path.insert(0, %r); from vc import run; run.worker(%r, %d, %r, %r, %d)' % (HERE, fns, seed, secs, out, maxcases)
        try:
            p = subprocess.run([sys.executable, '-c', code], capture_output=True, text=True, timeout=secs + 120)
            rc, err = p.returncode, p.stderr
        except subprocess.TimeoutExpired:
            rc, err = -14, 'time limit'
        if os.path.exists(out): return json.load(open(out))
        if rc < 0 and os.path.exists(out + '.cur'):
            try: c = json.load(open(out + '.cur'))
            except ValueError: return dict(status='error', error=err[-2000:])
            sig = {-4: 'undefined behaviour trap', -5: 'undefined behaviour trap', -11: 'access outside the buffers (SIGSEGV)', -7: 'SIGBUS', -8: 'division by zero', -14: 'does not terminate', -6: 'abort'}.get(rc, 'signal %d' % -rc)
            return dict(status='violation', fn=c['fn'], values=c['values'], clauses=['crash: ' + sig], res={})
        return dict(status='error', error=err[-3000:])
    finally:
        subprocess.run(['rm', '-rf', d])


def replay(fn, values):
    """Re-run one recorded case in a child process."""
    d = tempfile.mkdtemp(prefix='vc_run_')
    try:
        code = ('import sys, json; sys.path.insert(0, %r)\nfrom vc import run, cfront\nimport signal\nsignal.setitimer(signal.ITIMER_REAL, 60)\n'
                'front = cfront.load(); cons = run.all_contracts(); c = json.load(sys.stdin)\n'
                'r = run.Runner(front, [c["fn"]], libdir=%r)\nprint("RESULT", json.dumps(r.case(cons[c["fn"]], cons, run.dec(c["values"]))))') % (HERE, d)
        p = subprocess.run([sys.executable, '-c', code], input=json.dumps(dict(fn=fn, values=values)), capture_output=True, text=True, timeout=120)
        if p.returncode < 0: return ['crash: signal %d' % -p.returncode]
        for l in p.stdout.split('\n'):
            if l.startswith('RESULT '): return json.loads(l[7:])
        raise RuntimeError(p.stderr[-2000:])
    finally:
        subprocess.run(['rm', '-rf', d])


if __name__ == '__main__':
    r = search(sys.argv[2:] or list(all_contracts()), seed=int(sys.argv[1]), secs=60, maxcases=300)
    print(json.dumps(r, indent=1)[:4000])
