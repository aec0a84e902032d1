"""Discharging obligations: z3 first, cvc5 as fallback."""
import subprocess, time, tempfile, os, pickle, re, hashlib, signal
import z3
from . import terms as T, spec

STATS = dict(queries=0, time=0.0, z3=0, cvc5=0)


JOBS = 1


CHILD = False


def _spawn(fn, items):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        global CHILD
        code = 1
        try:
            CHILD = True
            os.close(r)
            with os.fdopen(w, 'wb') as f:
                for i in items:
                    q0 = STATS['queries']
                    v = fn(i)
                    pickle.dump((i, v, STATS['queries'] - q0), f)
                    f.flush()
            code = 0
        finally: os._exit(code)
    os.close(w)
    return pid, r, items


def pmap(fn, n):
    """[fn(0), .., fn(n-1)] in forked children. A child that z3 does not return from is ended by its CPU timer (see check);
    the item it was at is tried once more, then left without a result."""
    if JOBS < 2 or n < 2: return [fn(i) for i in range(n)]
    k = min(JOBS, n)
    kids = [_spawn(fn, list(range(j, n, k))) for j in range(k)]
    out, tries = [None] * n, {}
    while kids:
        again = []
        for pid, r, items in kids:
            done = set()
            with os.fdopen(r, 'rb') as f:
                while True:
                    try: i, v, q = pickle.load(f)
                    except (EOFError, pickle.UnpicklingError): break
                    out[i] = v
                    STATS['queries'] += q
                    done.add(i)
            os.waitpid(pid, 0)
            rest = [i for i in items if i not in done]
            if not rest: continue
            tries[rest[0]] = tries.get(rest[0], 0) + 1
            if tries[rest[0]] > 1: rest = rest[1:]
            if rest: again.append(_spawn(fn, rest))
        kids = again
    return out


def split(pc, goal):
    """Split a goal into (extra hypotheses, quantifier-free-ish goal) pairs, skolemising universal goals."""
    goal = T.zb(goal) if not isinstance(goal, bool) else z3.BoolVal(goal)
    if z3.is_and(goal):
        for c in goal.children(): yield from split(pc, c)
    elif z3.is_implies(goal):
        yield from split(pc + [goal.arg(0)], goal.arg(1))
    elif z3.is_not(goal) and z3.is_and(goal.arg(0)):
        yield pc + list(T.conjuncts(goal.arg(0))), z3.BoolVal(False)
    elif z3.is_quantifier(goal) and goal.is_forall():
        vs = [T.fresh('sk', goal.var_sort(i)) for i in range(goal.num_vars())]
        yield from split(pc, z3.substitute_vars(goal.body(), *reversed(vs)))
    else:
        yield pc, goal


def check(fs, ms, mbqi=False, seed=0, arith=None):
    """The limit is meant as CPU time: on a loaded machine an inconclusive query is repeated with more wall-clock time."""
    STATS['queries'] += 1
    t = time.time()
    wall = ms
    for _ in range(4):
        s = z3.Solver()
        s.set('timeout', int(wall))
        s.set('smt.mbqi', mbqi)
        if seed: s.set('smt.random_seed', seed)
        if arith is not None: s.set('smt.arith.solver', arith)
        for f in fs: s.add(f)
        c = time.thread_time()
        if CHILD: signal.setitimer(signal.ITIMER_PROF, 20 + 5 * wall / 1000)
        r = s.check()
        if CHILD: signal.setitimer(signal.ITIMER_PROF, 0)
        c = (time.thread_time() - c) * 1000
        if r != z3.unknown or c > 0.75 * ms or s.reason_unknown() not in ('timeout', 'canceled'): break
        wall = wall * max(1.5, min(4, wall / max(c, 1)))
    STATS['time'] += time.time() - t
    return r, s


def cvc5_check(fs, secs):
    s = z3.Solver()
    for f in fs: s.add(f)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    fd, p = tempfile.mkstemp(suffix='.smt2')
    os.write(fd, txt.encode())
    os.close(fd)
    t = time.time()
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % int(secs * 1000), '--nl-ext-tplanes', p], capture_output=True, text=True, timeout=secs + 5)
        out = r.stdout.strip().split('\n')[0] if r.stdout.strip() else 'unknown'
    except Exception:
        out = 'unknown'
    finally:
        os.unlink(p)
        STATS['time'] += time.time() - t
        STATS['queries'] += 1
    return out


def prove_one(pc, g, ms=3000, depth=2, quick=False, ext=True):
    ng = z3.Not(g)
    if z3.is_true(g): return 'proved', 'trivial', None
    pc = [T.zb(f) for f in pc if f is not True]
    base = pc + instances(pc, g) + [ng]
    facts, muls = spec.expand(base, depth=depth, ext=ext)
    fs = base + facts
    m = spec.mono(muls)
    if quick:
        r, s = check(fs + m, ms)
        return ('proved' if r == z3.unsat else 'failed'), 'z3', None
    r, s = check(fs + m, ms)
    if r == z3.unsat: STATS['z3'] += 1; return 'proved', 'z3', None
    first = r
    model = None
    if r == z3.sat: model = s.model()
    for kw in (dict(mbqi=False, seed=7), dict(mbqi=True), dict(arith=2)):
        r, s = check(fs + (m if kw.get('seed') else []), ms * 2, **kw)
        if r == z3.unsat: STATS['z3'] += 1; return 'proved', 'z3', None
        if r == z3.sat and model is None: model = s.model()
    facts2, muls2 = spec.expand(base, depth=depth + 2, ext=ext)
    fs2 = base + facts2 + spec.mono(muls2)
    r, s = check(fs2, ms * 4)
    if r == z3.unsat: STATS['z3'] += 1; return 'proved', 'z3', None
    if r == z3.sat: model = s.model()
    if cvc5_check(fs2, ms * 4 / 1000) == 'unsat':
        STATS['cvc5'] += 1
        return 'proved', 'cvc5', None
    return ('refuted' if r == z3.sat else 'unknown'), 'z3', model


def consts_of(g, out=None, seen=None):
    out = {} if out is None else out
    seen = set() if seen is None else seen
    stack = [g]
    while stack:
        e = stack.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_quantifier(e): stack.append(e.body()); continue
        if z3.is_const(e) and e.sort() == T.I and e.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[e.get_id()] = e
        stack.extend(e.children())
    return list(out.values())


def instances(pc, g, limit=6, nested=False):
    """Ground instances of the universally quantified hypotheses at the integer constants of the goal."""
    qs = [f for f in pc if T.isz(f) and z3.is_quantifier(f) and f.is_forall()]
    if not qs: return []
    cs = consts_of(g)
    cs.sort(key=lambda e: (0 if str(e).startswith('sk!') else 1, len(str(e))))
    cs = cs[:limit]
    out = []
    for q in qs:
        if nested: out += inst_one(q, cs)
        elif q.num_vars() == 1 and q.var_sort(0) == T.I:
            for x in cs: out.append(z3.substitute_vars(q.body(), x))
        elif q.num_vars() == 2:
            for x in cs[:3]:
                for y in cs[:3]: out.append(z3.substitute_vars(q.body(), y, x))
    return out


def inst_one(f, cs):
    if qf(f): return [f]
    if z3.is_quantifier(f) and f.is_forall():
        if f.num_vars() == 1 and f.var_sort(0) == T.I:
            out = []
            for x in cs: out += inst_one(z3.substitute_vars(f.body(), x), cs[:4])
            return out
        if f.num_vars() == 2:
            return [z3.substitute_vars(f.body(), y, x) for x in cs[:3] for y in cs[:3]]
        return []
    if z3.is_implies(f) and qf(f.arg(0)): return [z3.Implies(f.arg(0), g) for g in inst_one(f.arg(1), cs)]
    if z3.is_and(f): return [g for c in f.children() for g in inst_one(c, cs)]
    if z3.is_or(f):
        qs = [c for c in f.children() if not qf(c)]
        if len(qs) == 1:
            rest = [c for c in f.children() if qf(c)]
            return [z3.Or(*rest, g) for g in inst_one(qs[0], cs)]
    return [f]


def equations(pc, limit=60):
    """Top-level equations const == term, oriented as a substitution."""
    out, used = [], set()
    for f in list(pc) + squeezed(pc):
        for c in T.conjuncts(f):
            if not (T.isz(c) and z3.is_app(c) and c.decl().kind() == z3.Z3_OP_EQ): continue
            a, b = c.children()
            if z3.is_array(a) or z3.is_bool(a): continue
            for x, t in ((a, b), (b, a)):
                if not (z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED): continue
                if x.get_id() in used or occurs(x, t): continue
                if out: t = z3.substitute(t, *out)
                if occurs(x, t): continue
                out = [(y, z3.substitute(u, (x, t))) for y, u in out] + [(x, t)]
                used.add(x.get_id())
                break
            if len(out) >= limit: return out
    return out


def squeezed(pc):
    """a == b for hypotheses a <= b and b <= a."""
    seen, out = {}, []
    for f in pc:
        for c in T.conjuncts(f):
            if not (T.isz(c) and z3.is_app(c)): continue
            neg = z3.is_not(c)
            if neg: c = c.arg(0)
            k = c.decl().kind()
            if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT): continue
            a, b = c.children()
            if k in (z3.Z3_OP_GE, z3.Z3_OP_GT): a, b = b, a          # a <= b or a < b
            strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
            if neg: a, b, strict = b, a, not strict
            if strict: continue
            if (b.get_id(), a.get_id()) in seen: out.append(a == b)
            seen[(a.get_id(), b.get_id())] = (a, b)
    return out


def occurs(x, t):
    seen, stack = set(), [t]
    while stack:
        e = stack.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if e.eq(x): return True
        stack.extend(e.children())
    return False


def resolve(pc, t, ms=150):
    """Decide top-level If conditions of t under pc."""
    while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = t.children()
        if check(pc + [z3.Not(c)], ms)[0] == z3.unsat: t = a
        elif check(pc + [c], ms)[0] == z3.unsat: t = b
        else: break
    return t


def rewrite(pc, g, rounds=2):
    """Substitute equations of pc and definitions of specification functions into the goal."""
    eqs = equations(pc)
    lin = [f for f in pc if qf(f) and not z3.is_quantifier(f)]
    if eqs: g = z3.substitute(g, *eqs)
    g = z3.simplify(g, som=True, sort_sums=True, expand_select_store=False)
    for _ in range(rounds):
        _, apps, _, _ = spec.collect([g])
        sub = []
        for a in apps.values():
            obj, st = spec.FN[a.decl().name()]
            if obj.name in spec.OPAQUE: continue
            fs, _ = obj.unfold(a, st)
            for f in fs:
                if z3.is_eq(f) and f.arg(0).eq(a):
                    t = resolve(lin, f.arg(1))
                    if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE): sub.append((a, t)); break
                if z3.is_implies(f) and z3.is_eq(f.arg(1)) and f.arg(1).arg(0).eq(a):
                    if check(lin + [z3.Not(f.arg(0))], 150)[0] == z3.unsat: sub.append((a, f.arg(1).arg(1))); break
        if not sub: break
        g = z3.substitute(g, *sub)
        if eqs: g = z3.substitute(g, *eqs)
        g = z3.simplify(g, som=True, sort_sums=True, expand_select_store=False)
        if z3.is_true(g): break
    return g


def store_consts(g):
    """Integer constants in the index positions of stores."""
    out, seen, stack = {}, set(), [g]
    while stack:
        e = stack.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_quantifier(e): continue
        if z3.is_store(e):
            for c in consts_of(e.arg(1)): out[c.get_id()] = c
        stack.extend(e.children())
    return list(out.values())


def subterms(g):
    seen, stack = set(), [g]
    while stack:
        e = stack.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_quantifier(e): continue
        yield e
        stack.extend(e.children())


def exact_divisions(pc, g):
    """Replace t div c by a new unknown e (and t by c*e) where the hypotheses make the division exact."""
    lin = [f for f in pc if qf(f)]
    sub, done = [], set()
    for e in list(subterms(g)):
        if e.decl().kind() != z3.Z3_OP_IDIV or not z3.is_int_value(e.arg(1)): continue
        t, k = e.arg(0), e.arg(1)
        if not (z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED) or t.get_id() in done: continue
        if check(lin + [t % k != 0], 300)[0] != z3.unsat: continue
        done.add(t.get_id())
        q = T.fresh('exact', T.I)
        sub += [(e, q), (t, k * q)]
    if not sub: return None
    def app(f):
        for a, b in sub: f = z3.substitute(f, (a, b))
        return f
    return [app(f) for f in pc], app(g)


def ite_cond(g):
    for e in subterms(g):
        if e.decl().kind() == z3.Z3_OP_ITE and not any(x.decl().kind() == z3.Z3_OP_ITE for x in subterms(e.arg(0))): return e.arg(0)
    return None


def prove_alg(pc, g, ms, depth, quick, ext, n=3):
    """Exact divisions and case splits on conditions in the goal, then polynomial normal form."""
    r = exact_divisions(pc, g)
    if r: pc, g = r
    elif n == 3 and ite_cond(g) is None: return 'failed', 'z3', None
    c = ite_cond(g) if n else None
    if c is not None:
        for v, x in ((z3.BoolVal(True), c), (z3.BoolVal(False), z3.Not(c))):
            a = prove_alg(pc + [x], z3.simplify(z3.substitute(g, (c, v)), som=True), ms, depth, quick, ext, n - 1)
            if a[0] != 'proved': return a
        return 'proved', 'z3', None
    lin = [z3.simplify(f, som=True) for f in pc if qf(f)]
    g = z3.simplify(g, som=True)
    if z3.is_true(g): return 'proved', 'z3', None
    r, s = check(lin + [z3.Not(g)], ms)
    return ('proved' if r == z3.unsat else 'failed'), 'z3', None


def nonlinear(g):
    return any(e.decl().kind() == z3.Z3_OP_MUL and sum(1 for c in e.children() if not (z3.is_int_value(c) or z3.is_rational_value(c))) > 1 for e in subterms(g))


def abstract(fs):
    """Replace products of unknowns (and divisions of or by them) by unknowns: a linear generalisation of the query."""
    sub, cache = [], {}

    def go(e):
        k = e.get_id()
        if k in cache: return cache[k][1]
        if z3.is_quantifier(e) or not z3.is_app(e) or e.num_args() == 0: r = e
        else:
            ch = [go(c) for c in e.children()]
            kind = e.decl().kind()
            nl = kind == z3.Z3_OP_MUL and sum(1 for c in ch if not (z3.is_int_value(c) or z3.is_rational_value(c))) > 1
            nl = nl or kind in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_DIV) and not (z3.is_int_value(ch[1]) or z3.is_rational_value(ch[1]))
            if kind == z3.Z3_OP_MUL: r = ch[0] if len(ch) == 1 else e.decl()(*ch)
            else: r = e.decl()(*ch) if any(not a.eq(b) for a, b in zip(ch, e.children())) else e
            if nl:
                r = z3.simplify(r)
                c = cache.get(('n', r.get_id()))
                if c is None:
                    c = (r, T.fresh('nl', r.sort()))
                    cache[('n', r.get_id())] = c
                r = c[1]
        cache[k] = (e, r)
        return r
    return [go(f) for f in fs]


def fast(pc, g):
    """Cheap attempts: the quantifier-free hypotheses, and their linear generalisation with instances."""
    pc = [T.zb(f) for f in pc if f is not True]
    lin = [f for f in pc if qf(f)]
    ng = z3.Not(g)
    if not qf(ng): return False
    _, _, muls, _ = spec.collect(lin + [ng])
    m = spec.mono(list(muls.values()))
    if check(lin + m + [ng], 200)[0] == z3.unsat: return True
    inst = [f for f in instances(pc, g, nested=True) if qf(f)]
    fs = [z3.simplify(f) for f in lin + inst + [ng]]
    if not (muls or inst): return False
    if check(abstract(fs + m), 300)[0] == z3.unsat: return True
    eqs = equations(lin)
    if not eqs: return False
    return check(abstract([z3.simplify(z3.substitute(f, *eqs)) for f in lin + inst + [ng]]), 300)[0] == z3.unsat


def prove_deep(pc, g, ms, depth, quick, ext):
    if fast(pc, g): return 'proved', 'z3', None
    r = prove_one(pc, g, ms if quick else min(ms, 1500), depth, True, ext)
    if r[0] == 'proved': return r
    pc = [T.zb(f) for f in pc if f is not True]
    for h in pc:
        if g.eq(h): return 'proved', 'trivial', None
    sks = [c for c in consts_of(g) if str(c).startswith('sk!')]
    g2 = rewrite(pc, g)
    if z3.is_true(g2): return 'proved', 'z3', None
    if not g2.eq(g):
        r = prove_one(pc, g2, ms if quick else min(ms, 1500), depth, True, ext)
        if r[0] == 'proved': return r
    if sks:
        others = [c for c in store_consts(g) if not str(c).startswith('sk!')]
        others.sort(key=lambda e: len(str(e)))
        for x in others[:2 if quick else 4]:
            sk = sks[0]
            eq_ = [z3.substitute(f, (sk, x)) if not z3.is_quantifier(f) else f for f in pc]
            ge_ = z3.substitute(g, (sk, x))
            a = prove_one(eq_, ge_, ms, depth, True, ext)
            if a[0] != 'proved':
                ge2 = rewrite(eq_ + instances(eq_, ge_), ge_)
                a = ('proved', 'z3', None) if z3.is_true(ge2) else prove_one(eq_, ge2, ms, depth, True, ext)
            if a[0] != 'proved': continue
            b = prove_one(pc + [sk != x], g, ms, depth, True, ext)
            if b[0] == 'proved': return b
    if nonlinear(g) and not z3.is_quantifier(g):
        r = prove_alg(pc, g, ms, depth, quick, ext)
        if r[0] == 'proved': return r
    if quick: return 'failed', 'z3', None
    return prove_one(pc, g, ms, depth, False, ext)


PROF = {}


def prove(pc, goal, ms=3000, depth=2, quick=False, ext=True, deep=True, tag=None):
    t0 = time.time()
    r = prove_(pc, goal, ms, depth, quick, ext, deep)
    if tag:
        p = PROF.setdefault((tag, r[0]), [0, 0.0])
        p[0] += 1
        p[1] += time.time() - t0
    return r


def prove_(pc, goal, ms=3000, depth=2, quick=False, ext=True, deep=True):
    if goal is True: return 'proved', 'trivial', None
    be = 'trivial'
    for p, g in split(list(pc), goal):
        r = prove_deep(p, g, ms, depth, quick, ext) if deep else prove_one(p + instances(p, g), g, ms, depth, quick, ext)
        if r[0] != 'proved': return r
        if r[1] != 'trivial': be = r[1]
    return 'proved', be, None


TOKEN = re.compile(r"[^\s()|]+!\d+")


class Canon:
    """Names of obligations up to renaming of generated symbols: equal names mean equal obligations."""
    def __init__(self, pc):
        self.map = {}
        self.base = hashlib.sha256('\n'.join(self.text(f) for f in pc if T.isz(f)).encode()).hexdigest()

    def text(self, f, m=None):
        m = self.map if m is None else m
        def sub(t):
            w = t.group(0)
            if w not in m: m[w] = w[:w.rindex('!')] + '!' + str(len(m))
            return m[w]
        return TOKEN.sub(sub, f.sexpr())

    def key(self, g): return hashlib.sha256((self.base + self.text(g, dict(self.map))).encode()).hexdigest()


def qf(f):
    return not (T.isz(f) and _hasq(f))


_qc = {}
def _hasq(e):
    k = e.get_id()
    if k in _qc and _qc[k][0].eq(e): return _qc[k][1]
    r = z3.is_quantifier(e) or any(_hasq(c) for c in e.children())
    _qc[k] = (e, r)
    return r
