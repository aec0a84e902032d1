"""Specification functions. The same definition is used symbolically (uninterpreted z3 function plus ground
unfoldings of its defining equation) and concretely (plain Python) when a contract is evaluated on a real run."""
from fractions import Fraction
import z3
from . import terms as T
from .terms import And, Or, Not, Implies, If, lt, le, gt, ge, eq, ne, add, sub, mul

FOLDS = {}
FN = {}          # decl name -> (object, structure)


class ArrRef:
    """An array value at some state: base term and offset."""
    def __init__(self, arr, off=0):
        self.arr, self.off = arr, off

    def __getitem__(self, k):
        if isinstance(self.arr, list):
            return self.arr[self.off + k] if 0 <= self.off + k < len(self.arr) else 0
        return z3.Select(self.arr, T.zi(add(self.off, k)))


class FamRef:
    """A family of arrays (one per index)."""
    def __init__(self, fam, off=0):
        self.fam, self.off = fam, off

    def __getitem__(self, k):
        if isinstance(self.fam, list): return ArrRef(self.fam[self.off + k], 0)
        return ArrRef(z3.Select(self.fam, T.zi(add(self.off, k))), 0)


OPAQUE = set()   # names whose definitions are not unfolded (set per contract)


def flat(params):
    out, st = [], []
    for p in params:
        if isinstance(p, FamRef):
            out += [p.fam, T.zi(p.off)]
            st.append('f')
        elif isinstance(p, ArrRef):
            out += [p.arr, T.zi(p.off)]
            st.append('a')
        else:
            out.append(T.z(p))
            st.append('s')
    return out, tuple(st)


def unflat(args, st):
    out, i = [], 0
    for s in st:
        if s == 'f':
            out.append(FamRef(args[i], T.unz(args[i + 1])))
            i += 2
        elif s == 'a':
            out.append(ArrRef(args[i], T.unz(args[i + 1])))
            i += 2
        else:
            out.append(T.unz(args[i]))
            i += 1
    return out


def concrete(params):
    for p in params:
        if isinstance(p, FamRef):
            if not isinstance(p.fam, list): return False
        elif isinstance(p, ArrRef):
            if not isinstance(p.arr, list): return False
        elif T.isz(p): return False
    return True


class Fold:
    """f(lo, hi, *params) = sum of term(*params, k) for lo <= k < hi."""
    def __init__(self, name, term, real=True, ext=False, left=False, facts=None, nonneg=None):
        self.name, self.term, self.real, self.ext, self.left = name, term, real, ext, left
        self.nonneg = nonneg    # parameter shape string ('a' array / 's' scalar / 'r' real scalar): lemma f >= 0, proved by `lemmas`
        FOLDS[name] = self
        self.facts = facts      # extra lemmas: fn(app, lo, hi, params) -> list (each proved by `lemma` obligations)

    def __call__(self, lo, hi, *params):
        if concrete(params) and not T.isz(lo) and not T.isz(hi):
            s = 0
            for k in range(lo, hi): s = s + self.term(*params, k)
            return s
        fl, st = flat(params)
        args = [T.zi(lo), T.zi(hi)] + fl
        name = self.name + '.' + ''.join(st)
        d = z3.Function(name, *[a.sort() for a in args], T.R if self.real else T.I)
        FN[name] = (self, st)
        return d(*args)

    def unfold(self, app, st):
        a = app.children()
        lo, hi = T.unz(z3.simplify(a[0])), T.unz(z3.simplify(a[1]))
        ps = unflat(a[2:], st)
        zero = z3.RealVal(0) if self.real else z3.IntVal(0)
        h1 = T.unz(z3.simplify(T.zi(sub(hi, 1))))
        cast = T.zr if self.real else T.zi
        out = [z3.Implies(T.zi(a[1]) <= T.zi(a[0]), app == zero)]
        ne_ = T.zb(lt(lo, hi))
        prev = self(lo, h1, *ps)
        out.append(z3.Implies(ne_, app == cast(add(prev if T.isz(prev) else cast(prev), self.term(*ps, h1)))))
        new = [prev]
        if self.left:
            nxt = self(T.unz(z3.simplify(T.zi(add(lo, 1)))), hi, *ps)
            out.append(z3.Implies(ne_, app == cast(add(self.term(*ps, lo), nxt))))
            new.append(nxt)
        if self.nonneg: out.append(app >= 0)
        if self.facts: out += [T.zb(f) for f in self.facts(app, lo, hi, ps)]
        return out, new

    def lemmas(self):
        """Induction step obligations of the lemmas used as facts: [(label, hypotheses, goal)]."""
        if not self.nonneg: return []
        ps = []
        for k in self.nonneg:
            if k == 'a': ps.append(ArrRef(T.fresh('A', T.AI), T.fresh('o', T.I)))
            elif k == 'x': ps.append(ArrRef(T.fresh('A', T.AR), T.fresh('o', T.I)))
            elif k == 'r': ps.append(T.fresh('r', T.R))
            else: ps.append(T.fresh('s', T.I))
        k, prev = T.fresh('k', T.I), T.fresh('prev', T.R if self.real else T.I)
        return [('sum of %s is non-negative (induction step)' % self.name, [prev >= 0], prev + (T.zr if self.real else T.zi)(self.term(*ps, k)) >= 0)]

    def extpair(self, x, y, st, other=None, sty=None):
        """Two folds over the same range with pointwise equal terms are equal."""
        a, b = x.children(), y.children()
        if x.eq(y): return []
        other, sty = other or self, sty or st
        sk = T.fresh('ext', T.I)
        pa, pb = unflat(a[2:], st), unflat(b[2:], sty)
        cast = T.zr if self.real else T.zi
        ta, tb = cast(self.term(*pa, sk)), cast(other.term(*pb, sk))
        return [z3.Or(a[0] != b[0], a[1] != b[1], z3.And(a[0] <= sk, sk < a[1], ta != tb), x == y)]


class Rec:
    """f(*params) = body(*params), body may mention f (well-founded by construction of the caller's argument)."""
    def __init__(self, name, body, real=False, depth=2, pybody=None, sort=None, facts=None, differ=None):
        self.name, self.body, self.real, self.depth = name, body, real, depth
        self.pybody = pybody
        self.sort, self.facts = sort, facts
        self.differ = differ    # differ(paramsA, paramsB, k): some relevant difference at k; otherwise the values are equal
        self.ext = name if differ else False

    def extpair(self, x, y, st, other=None, sty=None):
        if x.eq(y) or (sty or st) != st: return []
        sk = T.fresh('ext', T.I)
        return [z3.Or(T.zb(self.differ(unflat(x.children(), st), unflat(y.children(), st), sk)), x == y)]

    def __call__(self, *params):
        if concrete(params):
            return (self.pybody or self.body)(*params)
        fl, st = flat(params)
        name = self.name + '.' + ''.join(st)
        d = z3.Function(name, *[a.sort() for a in fl], (T.R if self.real else T.I) if self.sort is None else self.sort)
        FN[name] = (self, st)
        return d(*fl)

    def unfold(self, app, st):
        ps = unflat(app.children(), st)
        if self.facts: return self.facts(app, *ps), None
        b = self.body(*ps)
        b = T.zr(b) if self.real else T.zi(b)
        return [app == b], None


class Fun:
    """Uninterpreted function with ground facts about each application."""
    def __init__(self, name, facts, py=None, real=True):
        self.name, self.facts, self.py, self.real = name, facts, py, real

    def __call__(self, *params):
        if self.py and concrete(params): return self.py(*params)
        fl, st = flat(params)
        if self.real: fl = [T.zr(a) if not z3.is_array(a) else a for a in fl]
        name = self.name + '.' + ''.join(st)
        d = z3.Function(name, *[a.sort() for a in fl], T.R if self.real else T.I)
        FN[name] = (self, st)
        return d(*fl)

    def unfold(self, app, st):
        ps = unflat(app.children(), st)
        return [T.zb(f) for f in (self.facts(app, *ps) if self.facts else [])], None


def has_var(e, cache):
    k = e.get_id()
    if k in cache: return cache[k]
    if z3.is_var(e): r = True
    elif z3.is_quantifier(e): r = True
    else: r = any(has_var(c, cache) for c in e.children())
    cache[k] = r
    return r


def collect(fs, seen=None, apps=None, muls=None, vcache=None):
    """Ground applications of specification functions and nonlinear integer products in formulas."""
    seen = set() if seen is None else seen
    apps = {} if apps is None else apps
    muls = {} if muls is None else muls
    vcache = {} if vcache is None else vcache
    stack = [f for f in fs if T.isz(f)]
    while stack:
        e = stack.pop()
        k = e.get_id()
        if k in seen: continue
        seen.add(k)
        if z3.is_quantifier(e):
            stack.append(e.body())
            continue
        if z3.is_app(e):
            n = e.decl().name()
            if n in FN and e.num_args() and not has_var(e, vcache): apps[k] = e
            if e.decl().kind() == z3.Z3_OP_MUL and e.sort() == T.I and not has_var(e, vcache): muls[k] = e
            stack.extend(e.children())
    return seen, apps, muls, vcache


def expand(fs, depth=2, ext=True):
    """Ground facts for all specification applications occurring in fs."""
    keep = []          # keep python refs alive so that ast ids stay unique
    facts = []
    seen, apps, muls, vc = collect(fs)
    done = {}
    frontier = dict(apps)
    d = 0
    while frontier and d < depth:
        new = []
        for k, a in frontier.items():
            if k in done: continue
            done[k] = a
            obj, st = FN[a.decl().name()]
            if obj.name in OPAQUE: continue
            r, nxt = obj.unfold(a, st)
            facts += r
            new += r
        keep += new
        _, apps, muls, _ = collect(new, seen, {}, muls, vc)
        frontier = {k: a for k, a in apps.items() if k not in done}
        d += 1
    for k, a in frontier.items(): done.setdefault(k, a)
    if ext:
        groups, extra = {}, []
        for a in done.values():
            obj, st = FN[a.decl().name()]
            if getattr(obj, 'ext', False): groups.setdefault(obj.ext if isinstance(obj.ext, str) else a.decl().name(), []).append(a)
        for n, g in groups.items():
            g = g[:12]
            for i in range(len(g)):
                for j in range(i + 1, len(g)):
                    (obj, st), (o2, st2) = FN[g[i].decl().name()], FN[g[j].decl().name()]
                    extra += obj.extpair(g[i], g[j], st, o2, st2)
        facts += extra
        _, apps, muls, _ = collect(extra, seen, {}, muls, vc)
        for k, a in apps.items():
            obj, st = FN[a.decl().name()]
            if k in done or obj.name in OPAQUE: continue
            keep.append(a)
            facts += obj.unfold(a, st)[0]
    return facts, list(muls.values())


def mono(muls, limit=14):
    """Monotonicity instances for pairs of integer products that share a factor (true facts of integer arithmetic)."""
    ps = []
    seen = set()
    for m in muls:
        ch = m.children()
        cs = [c for c in ch if z3.is_int_value(c)]
        vs = [c for c in ch if not z3.is_int_value(c)]
        if len(vs) == 2:
            key = tuple(sorted((vs[0].get_id(), vs[1].get_id())))
            if key in seen: continue
            seen.add(key)
            ps.append((vs[0], vs[1]))
    out = []
    ps = ps[:limit]
    for x, y in ps:
        out.append(z3.Implies(z3.And(x >= 0, y >= 0), x * y >= 0))
        out.append(z3.Implies(z3.And(x >= 1, y >= 1), z3.And(x * y >= x, x * y >= y)))
    for i in range(len(ps)):
        for j in range(i + 1, len(ps)):
            for a, b in (ps[i], ps[i][::-1]):
                for c, d in (ps[j], ps[j][::-1]):
                    if b.eq(d):
                        out.append(z3.Implies(z3.And(b >= 0, a <= c), a * b <= c * b))
                        out.append(z3.Implies(z3.And(b >= 0, c <= a), c * b <= a * b))
                        out.append(z3.Implies(z3.And(b >= 0, a + 1 <= c), a * b + b <= c * b))
                        out.append(z3.Implies(z3.And(b >= 0, c + 1 <= a), c * b + b <= a * b))
                        out.append(z3.Implies(a == c, a * b == c * b))
    return out


# ---- exp / log with the facts the proofs need
def _exp_facts(app, x):
    if T.isz(x):
        e = EXP(x)
        if not e.eq(app): return [app > 0, app == e]
    return [app > 0]


def _exp_py(x):
    import math
    try: return math.exp(x)
    except OverflowError: return float('inf')


def _log_py(x):
    import math
    return math.log(x) if x > 0 else float('-inf')


EXPU = Fun('exp', _exp_facts, _exp_py)     # exp of an atom (no sum)
LOGF = Fun('log', lambda app, x: [], _log_py)


def _log_arg(t):
    """x if t is log(x)."""
    if T.isz(t) and z3.is_app(t) and t.decl().name().startswith('log.'): return t.arg(0)
    return None


def split_sum(t):
    """t as list of (coefficient +-1, term); None when it is not such a sum."""
    if T.num(t): return [(1, t)] if t != 0 else []
    if z3.is_app(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            return [p for c in t.children() for p in split_sum(c)]
        if k == z3.Z3_OP_SUB:
            ch = t.children()
            out = split_sum(ch[0])
            for c in ch[1:]: out += [(-s, u) for s, u in split_sum(c)]
            return out
        if k == z3.Z3_OP_UMINUS:
            return [(-s, u) for s, u in split_sum(t.arg(0))]
    return [(1, t)]


def EXP(t):
    """exp, normalised: exp(a+b)=exp(a)*exp(b), exp(-a)=1/exp(a), exp(log s)=s (s>0 is a separate obligation at log)."""
    if not T.isz(t): return EXPU(t) if not isinstance(t, bool) else None
    t = T.zr(t)
    num_, den = None, None
    for s, u in split_sum(t):
        la = _log_arg(u)
        e = la if la is not None else EXPU(u)
        if s > 0: num_ = e if num_ is None else num_ * e
        else: den = e if den is None else den * e
    if num_ is None: num_ = z3.RealVal(1)
    return num_ if den is None else num_ / den
