"""Symbolic execution of clang's AST with function contracts and inferred loop invariants."""
from fractions import Fraction
import time, itertools, os
import z3
from . import terms as T, spec, solve, cfront
from .terms import And, Or, Not, Implies, If, lt, le, gt, ge, eq, ne, add, sub, mul
from .cfront import CT, INT, VOID, FLOAT, U8, S16, UINT, ULONG

F32AT = z3.Function('f32at', T.AI, T.I, T.R)


class Unsupported(Exception):
    pass


class Region:
    def __init__(self, name, elem, length, fam=False, const=False):
        self.name, self.elem, self.length, self.fam, self.const = name, elem, length, fam, const
        self.sub = {}

    def len_at(self, idx):
        return self.length(idx) if callable(self.length) else self.length

    def __repr__(self): return '<%s>' % self.name


class Ptr:
    """Guarded alternatives (guard, region or None for null, family index, offset in region elements)."""
    __slots__ = ('alts',)

    def __init__(self, alts): self.alts = alts

    @staticmethod
    def to(r, off=0, idx=None): return Ptr([(True, r, idx, off)])


NULL = Ptr([(True, None, None, 0)])


class FuncRef:
    def __init__(self, name): self.name = name


class Str:
    def __init__(self, s): self.s = s


class State:
    __slots__ = ('env', 'mem', 'ptrs', 'pc', 'trace', 'concrete')

    def __init__(self): self.env, self.mem, self.ptrs, self.pc, self.trace, self.concrete = {}, {}, {}, [], [], False

    def copy(self):
        s = State()
        s.concrete = self.concrete
        s.env, s.mem, s.ptrs, s.pc, s.trace = dict(self.env), dict(self.mem), dict(self.ptrs), list(self.pc), list(self.trace)
        return s

    def assume(self, f):
        if f is True: return
        if f is False: self.pc.append(z3.BoolVal(False)); return
        for g in flatten(f, ()): self.pc.append(g)


def flatten(f, hyps):
    """Conjuncts of f under hypotheses, with universal quantifiers pulled to the front."""
    if z3.is_and(f):
        for c in f.children(): yield from flatten(c, hyps)
    elif z3.is_implies(f): yield from flatten(f.arg(1), hyps + (f.arg(0),))
    elif hyps and z3.is_quantifier(f) and f.is_forall() and all(not spec.has_var(h, {}) for h in hyps):
        vs = [T.fresh('q', f.var_sort(i)) for i in range(f.num_vars())]
        b = z3.substitute_vars(f.body(), *reversed(vs))
        yield z3.ForAll(vs, z3.Implies(z3.And(*hyps) if len(hyps) > 1 else hyps[0], b))
    elif hyps: yield z3.Implies(z3.And(*hyps) if len(hyps) > 1 else hyps[0], f)
    else: yield f


class Ob:
    __slots__ = ('kind', 'label', 'pc', 'goal', 'status', 'backend', 'model', 'fn', 'secs', 'depth')

    def __init__(self, fn, kind, label, pc, goal):
        self.fn, self.kind, self.label, self.pc, self.goal = fn, kind, label, pc, goal
        self.status = self.backend = self.model = None
        self.secs = 0.0
        self.depth = None


def eqv(a, b):
    if a is b: return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return len(a.alts) == len(b.alts) and all(
            x[1] is y[1] and eqv(x[0], y[0]) and eqv(x[2], y[2]) and eqv(x[3], y[3]) for x, y in zip(a.alts, b.alts))
    if isinstance(a, dict) and isinstance(b, dict): return a.keys() == b.keys() and all(eqv(a[k], b[k]) for k in a)
    if T.isz(a) and T.isz(b): return a.eq(b)
    if T.isz(a) or T.isz(b): return False
    return type(a) == type(b) and a == b


def same(a, b):
    """Syntactic equality of possibly mixed scalars."""
    if a is None or b is None: return a is b
    return eqv(a, b)


class Engine:
    def __init__(self, front, contracts, bounded=None, real_ok=True):
        self.f = front
        self.contracts = contracts          # fn name -> Contract
        self.obs = []
        self.silent = 0
        self.dry = 0
        self.fn = None
        self.ct = {}                        # decl id -> CT
        self.names = {}                     # decl id -> name
        self.regions = {}
        self.frames = []
        self.bounded = bounded
        self.top = None
        self.depth = 0
        self.globals = {}
        self.stats = dict(houdini=0, cands=0, loops=0, invs=0)
        self.inlined = set()
        self.called = set()
        self.loop_report = []
        self.qcache = {}
        self.deadline = None
        self.tctx = []
        self.loops = []
        self.loopstack = []
        self.loopkeys = []
        self.dropmemo = {}
        self.qms = 800
        self.proved = set()                 # names (solve.Canon) of proved invariant obligations

    # ------------------------------------------------------------ obligations
    def ob(self, st, kind, label, goal):
        if goal is True and kind != 'post': return
        if self.silent or self.dry: return
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        self.obs.append(Ob(self.fn, kind, label, list(st.pc), goal))

    def check(self, st, kind, label, goal):
        """Obligation; afterwards it may be assumed."""
        if goal is True: return
        self.ob(st, kind, label, goal)
        st.assume(goal)

    def entails(self, st, goal, ms=300):
        if goal is True: return True
        if goal is False: return False
        if self.dry: return False
        g = T.zb(goal)
        key = (g.get_id(), tuple(x.get_id() for x in st.pc))
        if key in self.qcache: return self.qcache[key][0]
        fs = [p for p in st.pc if solve.qf(p)] + [z3.Not(g)]
        _, _, muls, _ = spec.collect(fs)
        r, _ = solve.check(fs + spec.mono(list(muls.values())), ms)
        res = r == z3.unsat
        self.qcache[key] = (res, g, list(st.pc))
        return res

    # ------------------------------------------------------------ values
    def fresh_of(self, ct, name, st=None, facts=True):
        if ct.isint:
            if ct.k == 'bool': return T.fresh(name, z3.BoolSort())
            v = T.fresh(name, T.I)
            if st is not None and facts: st.assume(And(le(ct.lo, v), le(v, ct.hi)))
            return v
        if ct.isfloat: return T.fresh(name, T.R)
        if ct.k == 'struct':
            return {fn: self.fresh_of(ft, name + '.' + fn, st) for fn, ft in self.f.fields(ct.name)}
        if ct.k == 'ptr': return Ptr([(True, Region(name + '!opaque', ct.to, 0), None, 0)])
        raise Unsupported('fresh %r' % ct)

    def zero_of(self, ct):
        if ct.k == 'bool': return False
        if ct.isint: return 0
        if ct.isfloat: return Fraction(0)
        if ct.k == 'ptr': return NULL
        if ct.k == 'struct': return {fn: self.zero_of(ft) for fn, ft in self.f.fields(ct.name)}
        raise Unsupported('zero %r' % ct)

    def truth(self, v):
        if isinstance(v, (bool, z3.BoolRef)): return v
        if isinstance(v, Ptr): return Not(self.isnull(v))
        if isinstance(v, (FuncRef, Str)): return True
        return ne(v, 0)

    def isnull(self, p):
        return Or(*[g for g, r, i, o in p.alts if r is None])

    def range_of(self, ct, v):
        return And(le(ct.lo, v), le(v, ct.hi))

    def wrapto(self, st, v, ct):
        v = T.toint(v)
        if T.num(v): return T.wrap(v, ct.bits, ct.signed)
        if self.entails(st, self.range_of(ct, v)): return v
        return z3.If(self.range_of(ct, v), v, T.wrap(v, ct.bits, ct.signed))

    def conv(self, st, v, fr, to):
        if isinstance(v, (Ptr, FuncRef, Str)):
            if to.k == 'bool': return self.truth(v)
            if to.k == 'ptr' or to.k == 'func': return v
            raise Unsupported('pointer to integer')
        if to.k == 'void': return None
        if to.k == 'bool': return self.truth(v)
        if to.isint:
            if isinstance(v, (bool, z3.BoolRef)):
                return v                        # 0/1 fits every integer type
            if fr.isfloat or T.isreal(v):
                t = T.trunc(v)
                if not T.num(t):
                    n = T.fresh('trunc', T.I)
                    x = T.zr(v)
                    # definition of truncation, kept as facts so that goals stay linear
                    st.assume(z3.Implies(x >= 0, z3.And(z3.ToReal(n) <= x, x < z3.ToReal(n) + 1, n >= 0)))
                    st.assume(z3.Implies(x < 0, z3.And(z3.ToReal(n) >= x, x > z3.ToReal(n) - 1, n <= 0)))
                    st.assume(n == t)
                    t = n
                self.check(st, 'float-to-int', 'float to integer conversion in range', self.range_of(to, t))
                return t
            if fr.k == 'int' and to.k == 'int' and to.lo <= fr.lo and fr.hi <= to.hi: return v
            return self.wrapto(st, v, to)
        if to.isfloat:
            v = T.toint(v)
            if T.num(v): return Fraction(v)
            return T.zr(v)
        if to.k in ('struct', 'ptr', 'func', 'array', 'opaque'): 
            if to.k == 'ptr' and T.num(v) and v == 0: return NULL
            return v
        raise Unsupported('conv %r->%r' % (fr, to))

    # ------------------------------------------------------------ memory
    def leaves(self, ct, path=''):
        if ct.k == 'struct':
            for fn, ft in self.f.fields(ct.name):
                yield from self.leaves(ft, path + '.' + fn)
        else:
            yield path, ct

    def sort_of(self, ct, fam):
        s = T.AR if ct.isfloat else T.AI
        return z3.ArraySort(T.I, s) if fam else s

    def new_region(self, st, name, elem, length, fam=False, init=None, const=False):
        base, n = name, 2
        while name in self.regions:
            name = '%s#%d' % (base, n); n += 1
        r = Region(name, elem, length, fam, const)
        self.regions[name] = r
        for path, ct in self.leaves(elem):
            if ct.k in ('int', 'bool', 'float'):
                if init == 'zero':
                    z = z3.K(T.I, z3.RealVal(0) if ct.isfloat else z3.IntVal(0))
                    st.mem[(name, path)] = z
                else:
                    st.mem[(name, path)] = T.fresh(name + path, self.sort_of(ct, fam))
            elif ct.k == 'array':
                sub = self.new_region(st, name + path, ct.to, ct.n, init=init)
                r.sub[path] = sub
        return r

    def leaf_ct(self, r, path):
        ct = r.elem
        for p in [x for x in path.split('.') if x]:
            ct = dict(self.f.fields(ct.name))[p]
        return ct

    def mem_load(self, st, r, idx, off, path, ct, spec_mode=False):
        lct = self.leaf_ct(r, path)
        if lct.k == 'ptr' and getattr(r, 'ptrto', None):
            a = st.mem[(r.name, path)]
            if isinstance(a, list): raise Unsupported('concrete pointers')
            return Ptr.to(self.regions[r.ptrto], z3.Select(a, T.zi(off)))
        if lct.k == 'ptr' or lct.k == 'func':
            p = st.ptrs.get((r.name, path))
            if p is None: raise Unsupported('pointer field %s%s' % (r.name, path))
            if callable(p): return p(off)
            return p
        if lct.k == 'array':
            return Ptr.to(r.sub[path])
        if (r.name, path) not in st.mem: raise Unsupported('load %s%s' % (r.name, path))
        a = st.mem[(r.name, path)]
        if isinstance(a, list):
            if r.fam: a = a[idx] if 0 <= idx < len(a) else []
            if ct.isfloat != lct.isfloat or ct.bits != lct.bits: raise Unsupported('concrete view')
            return a[off] if 0 <= off < len(a) else 0
        if r.fam: a = z3.Select(a, T.zi(idx))
        off = T.zi(off)
        if ct.k == lct.k and (ct.bits == lct.bits):
            v = z3.simplify(z3.Select(a, off)) if not self.dry else z3.Select(a, off)
            v = T.unz(v)
            if lct.isint and T.isz(v) and not spec_mode: st.assume(self.range_of(lct, v))
            if ct.isint and ct.signed != lct.signed: v = self.wrapto(st, v, ct)
            if ct.k == 'bool': v = ne(v, 0)
            return v
        if lct.k == 'int' and lct.bits == 8 and ct.k == 'int' and not lct.signed:
            n = ct.bits // 8
            bs = [z3.Select(a, off + i) for i in range(n)]
            v = bs[0]
            for i in range(1, n): v = v + (1 << (8 * i)) * bs[i]
            if not spec_mode:
                for b in bs: st.assume(self.range_of(lct, b))
            if ct.signed: v = z3.If(v >= (1 << (ct.bits - 1)), v - (1 << ct.bits), v)
            return v
        if lct.k == 'int' and lct.bits == 8 and ct.isfloat and ct.bits == 32:
            return F32AT(a, off)
        raise Unsupported('load of %r from region of %r' % (ct, lct))

    def mem_store(self, st, r, idx, off, path, ct, v):
        lct = self.leaf_ct(r, path)
        if lct.k == 'ptr' and getattr(r, 'ptrto', None):
            if not isinstance(v, Ptr) or len(v.alts) != 1 or v.alts[0][1] is not self.regions[r.ptrto]: raise Unsupported('pointer to another region stored')
            key = (r.name, path)
            st.mem[key] = z3.Store(st.mem[key], T.zi(off), T.zi(v.alts[0][3]))
            return
        if lct.k in ('ptr', 'func'):
            if r.length == 1 and not r.fam: st.ptrs[(r.name, path)] = v; return
            raise Unsupported('store of pointer into array')
        key = (r.name, path)
        if key not in st.mem: raise Unsupported('store %s%s' % key)
        a = st.mem[key]
        off = T.zi(off)
        if isinstance(v, (bool, z3.BoolRef)): v = T.toint(v)
        def put(arr, o, val):
            if r.fam: return z3.Store(arr, T.zi(idx), z3.Store(z3.Select(arr, T.zi(idx)), o, val))
            return z3.Store(arr, o, val)
        if ct.k == lct.k and ct.bits == lct.bits:
            if lct.isint and ct.signed != lct.signed: v = self.wrapto(st, v, lct)
            st.mem[key] = put(a, off, T.zr(v) if lct.isfloat else T.zi(v)); return
        if lct.k == 'int' and lct.bits == 8 and ct.k == 'int' and not lct.signed:
            v = T.zi(v)
            for i in range(ct.bits // 8):
                a = put(a, off + i, (v / (1 << (8 * i))) % 256)
            st.mem[key] = a; return
        raise Unsupported('store of %r into region of %r' % (ct, lct))

    def esize(self, r): return self.f.sizeof(r.elem)

    def span(self, r, ct):
        """Number of region elements an access of type ct covers."""
        es, s = self.esize(r), self.f.sizeof(ct)
        if s == es: return 1
        if r.elem.k == 'int' and r.elem.bits == 8: return s
        raise Unsupported('access of %r in region of %r' % (ct, r.elem))

    def deref_check(self, st, p, ct, path, what):
        for g, r, idx, off in p.alts:
            pre = [] if g is True else [g]
            if r is None:
                self.check(st, 'null', 'no null pointer dereference (%s)' % what, Not(g))
                continue
            if r.name.endswith('!opaque'): raise Unsupported('dereference of opaque pointer %s' % r.name)
            n = 1 if path else self.span(r, ct)
            L = r.len_at(idx)
            ok = And(le(0, off), le(add(off, n), L))
            self.check(st, 'bounds', '%s within %s' % (what, r.name), Implies(And(*pre), ok))

    def load(self, st, p, path, ct, what='read'):
        if not path or True: self.deref_check(st, p, ct if not path else ct, path, what)
        if ct.k == 'struct':
            return {fn: self.load_nc(st, p, path + '.' + fn, ft) for fn, ft in self.f.fields(ct.name)}
        return self.load_nc(st, p, path, ct)

    def load_nc(self, st, p, path, ct, spec_mode=False):
        if ct.k == 'struct':
            return {fn: self.load_nc(st, p, path + '.' + fn, ft, spec_mode) for fn, ft in self.f.fields(ct.name)}
        v = None
        alts = [a for a in p.alts if a[1] is not None]
        if not alts: raise Unsupported('dereference of null')
        for g, r, idx, off in reversed(alts):
            x = self.mem_load(st, r, idx, off, path, ct, spec_mode)
            v = x if v is None else self.ite(g, x, v)
        return v

    def store(self, st, p, path, ct, v, what='write'):
        self.deref_check(st, p, ct, path, what)
        for g, r, idx, off in p.alts:
            if r is not None and r.const: self.check(st, 'const', 'no write to constant data ' + r.name, Not(g))
        self.store_nc(st, p, path, ct, v)

    def store_nc(self, st, p, path, ct, v):
        if ct.k == 'struct':
            for fn, ft in self.f.fields(ct.name): self.store_nc(st, p, path + '.' + fn, ft, v[fn])
            return
        alts = [a for a in p.alts if a[1] is not None]
        for g, r, idx, off in alts:
            if len(alts) == 1:
                self.mem_store(st, r, idx, off, path, ct, v)
            else:
                old = {k: st.mem[k] for k in st.mem if k[0] == r.name}
                self.mem_store(st, r, idx, off, path, ct, v)
                for k, o in old.items():
                    if st.mem[k] is not o: st.mem[k] = z3.If(T.zb(g), st.mem[k], o)

    def ite(self, c, a, b):
        if c is True: return a
        if c is False: return b
        if eqv(a, b): return a
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            def merge_alts(xs, ys):
                out = []
                for g, r, i, o in xs: out.append((And(c, g), r, i, o))
                for g, r, i, o in ys: out.append((And(Not(c), g), r, i, o))
                return out
            if len(a.alts) == 1 and len(b.alts) == 1 and a.alts[0][1] is b.alts[0][1] and a.alts[0][1] is not None:
                _, r, i, o = a.alts[0]; _, _, i2, o2 = b.alts[0]
                return Ptr([(True, r, None if i is None else If(c, i, i2), If(c, o, o2))])
            return Ptr(merge_alts(a.alts, b.alts))
        if isinstance(a, dict) and isinstance(b, dict): return {k: self.ite(c, a[k], b[k]) for k in a}
        if a is None or b is None: return a if b is None else b
        if isinstance(a, (Ptr, FuncRef, Str)) or isinstance(b, (Ptr, FuncRef, Str)): raise Unsupported('merge of pointers')
        if isinstance(a, (bool, z3.BoolRef)) != isinstance(b, (bool, z3.BoolRef)): a, b = T.toint(a), T.toint(b)
        return If(c, a, b)

    # ------------------------------------------------------------ merging
    def merge(self, n, sts):
        """Merge states with a common path-condition prefix of length n."""
        sts = [s for s in sts if s is not None]
        if not sts: return None
        if len(sts) == 1: return sts[0]
        out = sts[-1].copy()
        out.pc = list(sts[0].pc[:n])
        # fresh selectors: exactly one path was taken, and its facts hold
        guards = [T.fresh('path', z3.BoolSort()) for s in sts]
        out.pc.append(z3.Or(*guards))
        for i, g in enumerate(guards):
            for h in guards[:i]: out.pc.append(z3.Not(z3.And(g, h)))
        for s, g in zip(sts, guards):
            for f in s.pc[n:]: out.assume(Implies(g, f))
        for key in ('env', 'mem', 'ptrs'):
            maps = [getattr(s, key) for s in sts]
            ks = set(maps[0])
            for m in maps[1:]: ks &= set(m)
            res = {}
            for k in ks:
                v = maps[-1][k]
                for g, m in list(zip(guards, maps))[-2::-1]:
                    v = v if eqv(v, m[k]) else self.ite(g, m[k], v)
                res[k] = v
            setattr(out, key, res)
        return out

    def merge2(self, n, c, a, b):
        """Merge after a branch: a has pc[n]==c, b has pc[n]==not c."""
        if a is None: return b
        if b is None: return a
        out = a.copy()
        ea = [x for x in a.pc[n:]]
        eb = [x for x in b.pc[n:]]
        out.pc = list(a.pc[:n])
        for x in ea[1:]: out.assume(Implies(c, x))
        for x in eb[1:]: out.assume(Implies(Not(c), x))
        for key in ('env', 'mem', 'ptrs'):
            ma, mb = getattr(a, key), getattr(b, key)
            res = {}
            for k in ma:
                if k in mb: res[k] = self.ite(c, ma[k], mb[k])
            setattr(out, key, res)
        return out

    # ------------------------------------------------------------ expressions
    def kids(self, n): return [c for c in n.get('inner', []) if c]

    def lv(self, n, st):
        k = n['kind']
        if k == 'ParenExpr': return self.lv(self.kids(n)[0], st)
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            i = d['id']
            if i in st.env:
                v = st.env[i]
                if isinstance(v, tuple) and v[0] == 'region': return ('mem', Ptr.to(v[1]), '', self.ct[i])
                return ('var', i, '', self.ct[i])
            return ('mem', Ptr.to(self.global_region(st, d)), '', self.f.type_of(d))
        if k == 'ArraySubscriptExpr':
            a, b = self.kids(n)
            p, i = self.ev(a, st), self.ev(b, st)
            if not isinstance(p, (Ptr, Str)): p, i = i, p
            if isinstance(p, Str): p = self.strptr(st, p)
            ct = self.f.type_of(n)
            return ('mem', self.padd(st, p, i, ct), '', ct)
        if k == 'UnaryOperator' and n['opcode'] == '*':
            p = self.ev(self.kids(n)[0], st)
            return ('mem', p, '', self.f.type_of(n))
        if k == 'MemberExpr':
            base = self.kids(n)[0]
            ct = self.f.type_of(n)
            if n.get('isArrow'):
                p = self.ev(base, st)
                return ('mem', p, '.' + n['name'], ct)
            b = self.lv(base, st)
            return (b[0], b[1], b[2] + '.' + n['name'], ct)
        if k == 'CompoundLiteralExpr':
            ct = self.f.type_of(n)
            r = self.new_region(st, 'literal', ct.to if ct.k == 'array' else ct, ct.n if ct.k == 'array' else 1, init='zero')
            self.init_region(st, r, ct, self.kids(n)[0])
            return ('mem', Ptr.to(r), '', ct)
        if k == 'ImplicitCastExpr' and n.get('castKind') == 'NoOp': return self.lv(self.kids(n)[0], st)
        if k == 'CallExpr':                     # member of a returned struct
            v = self.ev(n, st)
            ct = self.f.type_of(n)
            tid = 'tmp!%d' % len(self.ct)
            self.ct[tid] = ct
            st.env[tid] = v
            return ('var', tid, '', ct)
        if k == 'StringLiteral':
            return ('str', n['value'], '', None)
        raise Unsupported('lvalue ' + k)

    def global_region(self, st, d):
        i = d['id']
        if i not in self.globals:
            ct = self.f.type_of(d)
            full = self.f.globals.get(i, d)
            r = self.new_region(st, 'global ' + d['name'], ct.to if ct.k == 'array' else ct, ct.n if ct.k == 'array' else 1)
            self.globals[i] = r
        r = self.globals[i]
        for path, ct in self.leaves(r.elem):
            if ct.k in ('int', 'bool', 'float') and (r.name, path) not in st.mem:
                st.mem[(r.name, path)] = z3.Const('%s%s@0' % (r.name, path), self.sort_of(ct, False))
        return r

    def rd(self, l, st):
        kind, x, path, ct = l
        if kind == 'var':
            v = st.env[x]
            for p in [q for q in path.split('.') if q]: v = v[p]
            if v is None: raise Unsupported('read of uninitialised variable ' + self.names.get(x, '?'))
            return v
        if kind == 'str': return Str(x)
        return self.load(st, x, path, ct)

    def wr(self, l, st, v):
        kind, x, path, ct = l
        if kind == 'var':
            ps = [q for q in path.split('.') if q]
            if not ps: st.env[x] = v; return
            def upd(d, ps):
                d = dict(d)
                d[ps[0]] = v if len(ps) == 1 else upd(d[ps[0]], ps[1:])
                return d
            st.env[x] = upd(st.env[x], ps)
            return
        self.store(st, x, path, ct, v)

    def strptr(self, st, s):
        """Pointer to the characters of a string literal."""
        import ast
        try: b = list(ast.literal_eval('b' + s.s)) + [0]
        except Exception: raise Unsupported('string literal')
        if not hasattr(self, 'strs'): self.strs = {}
        if s.s not in self.strs:
            r = Region('literal %s' % s.s, CT('int', 8, True), len(b), False, True)
            self.regions[r.name] = r
            self.strs[s.s] = r
        r = self.strs[s.s]
        if (r.name, '') not in st.mem:
            a = z3.K(T.I, z3.IntVal(0))
            for k, x in enumerate(b): a = z3.Store(a, k, x - 256 if x > 127 else x)
            st.mem[(r.name, '')] = a
        return Ptr.to(r)

    def padd(self, st, p, i, ct):
        if isinstance(p, Str): p = self.strptr(st, p)
        i = T.toint(i)
        if T.num(i) and i == 0: return p
        out = []
        for g, r, idx, off in p.alts:
            if r is None: out.append((g, r, idx, off)); continue
            if r.name.endswith('!opaque'): out.append((g, r, idx, add(off, i))); continue
            es = self.esize(r)
            s = self.f.sizeof(ct)
            if s == es: d = i
            elif s % es == 0: d = mul(s // es, i)
            else:
                if T.num(i) and (i * s) % es == 0: d = i * s // es
                else: raise Unsupported('pointer arithmetic of %r in region of %r' % (ct, r.elem))
            out.append((g, r, idx, add(off, d)))
        return Ptr(out)

    def guarded(self, st, cond, fn):
        """Evaluate fn(st) under cond; side effects are merged."""
        if cond is True: return fn(st)
        n = len(st.pc)
        env, mem, ptrs = dict(st.env), dict(st.mem), dict(st.ptrs)
        st.assume(cond)
        v = fn(st)
        extra = st.pc[n + 1:]
        del st.pc[n:]
        for e in extra: st.assume(Implies(cond, e))
        for cur, old in ((st.env, env), (st.mem, mem), (st.ptrs, ptrs)):
            for k in list(cur):
                if k in old and cur[k] is not old[k]: cur[k] = self.ite(cond, cur[k], old[k])
        return v

    def arith(self, op, a, b, ct, st):
        if ct.isfloat:
            if op == '+': return add(a, b)
            if op == '-': return sub(a, b)
            if op == '*': return mul(a, b)
            if op == '/':
                self.check(st, 'div0', 'no floating division by zero', ne(b, 0)) if self.want_fdiv(b) else None
                return T.div_real(a, b)
        a, b = T.toint(a), T.toint(b)
        if op in '+-*':
            r = add(a, b) if op == '+' else sub(a, b) if op == '-' else mul(a, b)
            return self.fit(st, r, ct, op)
        if op in ('/', '%'):
            self.check(st, 'div0', 'no integer division by zero', ne(b, 0))
            r = T.cdiv(a, b) if op == '/' else T.cmod(a, b)
            if T.isz(r) and not (T.num(b) and b > 0):
                if ct.signed: return self.fit(st, r, ct, op)
            elif T.isz(r) and T.num(b) and b > 0 and self.entails(st, ge(a, 0)):
                r = T.zi(a) / b if op == '/' else T.zi(a) % b
            return r
        if op == '<<':
            if T.num(b):
                if not b < ct.bits: self.check(st, 'shift', 'shift amount in range', False)
                return self.fit(st, mul(a, 1 << b), ct, op)
            if T.num(a) and not ct.signed or T.num(a) and a == 1:
                self.check(st, 'shift', 'shift amount in range', And(ge(b, 0), lt(b, ct.bits)))
                return self.fit(st, mul(a, POW2(b)), ct, op)
        if op == '>>':
            if T.num(b):
                if T.num(a): return a >> b
                return T.zi(a) / (1 << b)
            if T.num(a) and a == 0: return 0
            self.check(st, 'shift', 'shift amount in range', And(ge(b, 0), lt(b, ct.bits)))
            return T.zi(a) / POW2(b)
        if T.num(a) and T.num(b):
            return T.wrap({'&': a & b, '|': a | b, '^': a ^ b}[op], ct.bits, ct.signed)
        if op == '&':
            for u, v in ((a, b), (b, a)):
                if T.num(v) and v >= 0 and (v & (v + 1)) == 0: return T.zi(u) % (v + 1)
        if op == '|':
            # (x << k) | y with 0 <= y < 2^k
            for u, v in ((a, b), (b, a)):
                for kk in (1, 8, 16):
                    if T.isz(u) and self.entails(st, And(eq(T.zi(u) % (1 << kk), 0), ge(v, 0), lt(v, 1 << kk))):
                        return add(u, v)
        raise Unsupported('integer operator ' + op)

    def want_fdiv(self, b):
        return self.top is not None and getattr(self.top, 'check_fdiv', False) and not (T.num(b) and b != 0)

    def fit(self, st, r, ct, op):
        if ct.signed:
            if T.num(r):
                if not (ct.lo <= r <= ct.hi): self.check(st, 'overflow', 'no signed overflow (%s)' % op, False)
                return r
            self.ob(st, 'overflow', 'no signed overflow (%s)' % op, self.range_of(ct, r))
            return r
        return self.wrapto(st, r, ct)

    def ev(self, n, st):
        k = n['kind']
        if k in ('ParenExpr', 'ConstantExpr', 'ExprWithCleanups'): return self.ev(self.kids(n)[0], st)
        if k == 'IntegerLiteral': return int(n['value'])
        if k == 'CharacterLiteral': return int(n['value'])
        if k == 'FloatingLiteral':
            v = Fraction(n['value'])         # printed with enough digits to identify the value of its type
            if self.f.type_of(n).bits == 32:
                import numpy
                r = numpy.float32(n['value'])
                if numpy.isfinite(r): v = Fraction(float(r))
            else: v = Fraction(float(n['value']))
            return v
        if k == 'CXXBoolLiteralExpr': return bool(n['value'])
        if k == 'StringLiteral': return Str(n['value'])
        if k == 'ImplicitCastExpr' or k == 'CStyleCastExpr':
            ck = n.get('castKind')
            c = self.kids(n)[0]
            if ck == 'LValueToRValue': return self.rd(self.lv(c, st), st)
            if ck == 'ArrayToPointerDecay':
                l = self.lv(c, st)
                if l[0] == 'str': return Str(l[1])
                if l[0] == 'var': raise Unsupported('array variable decay')
                p, path = l[1], l[2]
                if path:
                    out = []
                    for g, r, idx, off in p.alts:
                        if r is None:
                            self.check(st, 'null', 'no null pointer dereference', Not(g)); continue
                        if path not in r.sub: raise Unsupported('array field ' + path)
                        out.append((g, r.sub[path], None, 0))
                    return Ptr(out)
                return p
            if ck == 'FunctionToPointerDecay': return self.ev(c, st)
            if ck == 'NullToPointer': return NULL
            v = self.ev(c, st)
            if ck in ('NoOp', 'BitCast', 'ToVoid', 'BuiltinFnToFnPtr'): return v
            return self.conv(st, v, self.f.type_of(c), self.f.type_of(n))
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            if d['kind'] == 'EnumConstantDecl':
                return self.f.enums.get(d['id'], self.f.enums.get(d['name']))
            if d['kind'] == 'FunctionDecl': return FuncRef(d['name'])
            return self.rd(self.lv(n, st), st)
        if k in ('ArraySubscriptExpr', 'MemberExpr'): return self.rd(self.lv(n, st), st)
        if k == 'UnaryOperator':
            op = n['opcode']
            c = self.kids(n)[0]
            if op == '&':
                l = self.lv(c, st)
                if l[0] == 'var': raise Unsupported('address of variable')
                if l[2]:
                    raise Unsupported('address of member')
                return l[1]
            if op == '*': return self.rd(self.lv(n, st), st)
            if op in ('++', '--'):
                l = self.lv(c, st)
                v = self.rd(l, st)
                ct = self.f.type_of(c)
                if isinstance(v, Ptr): w = self.padd(st, v, 1 if op == '++' else -1, ct.to)
                elif ct.isfloat: w = add(v, Fraction(1) if op == '++' else Fraction(-1))
                else:
                    w = self.fit(st, add(T.toint(v), 1 if op == '++' else -1), INT if ct.bits < 32 else ct, op)
                    if ct.bits < 32: w = self.wrapto(st, w, ct)
                self.wr(l, st, w)
                return v if n.get('isPostfix') else w
            v = self.ev(c, st)
            ct = self.f.type_of(n)
            if op == '!': return Not(self.truth(v))
            if op == '-':
                if ct.isfloat: return T.neg(v)
                return self.fit(st, T.neg(v), ct, 'neg')
            if op == '+': return v
            if op == '~' and T.num(v): return T.wrap(~v, ct.bits, ct.signed)
            if op == '~' and ct.signed: return sub(-1, v)
            if op == '__extension__': return v
            raise Unsupported('unary ' + op)
        if k == 'BinaryOperator':
            op = n['opcode']
            a, b = self.kids(n)
            if op == '=':
                v = self.ev(b, st)
                l = self.lv(a, st)
                self.wr(l, st, v)
                return v
            if op == ',':
                self.ev(a, st)
                return self.ev(b, st)
            if op in ('&&', '||'):
                x = self.truth(self.ev(a, st))
                if x is (op == '||'): return x
                if isinstance(x, bool): return self.truth(self.ev(b, st))
                y = self.guarded(st, x if op == '&&' else Not(x), lambda s: self.truth(self.ev(b, s)))
                return And(x, y) if op == '&&' else Or(x, y)
            x, y = self.ev(a, st), self.ev(b, st)
            return self.binop(op, x, y, self.f.type_of(a), self.f.type_of(b), self.f.type_of(n), st)
        if k == 'CompoundAssignOperator':
            a, b = self.kids(n)
            op = n['opcode'][:-1]
            l = self.lv(a, st)
            y = self.ev(b, st)
            x = self.rd(l, st)
            lt_ = self.f.type_of(a)
            if isinstance(x, Ptr):
                v = self.padd(st, x, y if op == '+' else sub(0, y), lt_.to)
            else:
                cl = n.get('computeLHSType', {})
                cct = self.f.parse(cl.get('desugaredQualType') or cl.get('qualType')) if cl else lt_
                cr = n.get('computeResultType', {})
                rct = self.f.parse(cr.get('desugaredQualType') or cr.get('qualType')) if cr else cct
                v = self.arith(op, self.conv(st, x, lt_, cct), y, rct, st)
                v = self.conv(st, v, rct, lt_)
            self.wr(l, st, v)
            return v
        if k == 'ConditionalOperator':
            c, a, b = self.kids(n)
            x = self.truth(self.ev(c, st))
            if isinstance(x, bool): return self.ev(a if x else b, st)
            va = self.guarded(st, x, lambda s: self.ev(a, s))
            vb = self.guarded(st, Not(x), lambda s: self.ev(b, s))
            return self.ite(x, va, vb)
        if k == 'UnaryExprOrTypeTraitExpr':
            if n.get('name') != 'sizeof': raise Unsupported(n.get('name'))
            if 'argType' in n:
                at = n['argType']
                return self.f.sizeof(self.f.parse(at.get('desugaredQualType') or at['qualType']))
            return self.f.sizeof(self.f.type_of(self.kids(n)[0]))
        if k == 'CallExpr': return self.call(n, st)
        if k == 'InitListExpr': return self.init_value(st, self.f.type_of(n), n)
        if k == 'ImplicitValueInitExpr': return self.zero_of(self.f.type_of(n))
        if k == 'CompoundLiteralExpr':
            l = self.lv(n, st)
            return self.rd(l, st) if l[3].k != 'array' else l[1]
        if k == 'OpaqueValueExpr': return self.ev(self.kids(n)[0], st)
        if k == 'PredefinedExpr': return Str('func')
        raise Unsupported('expression ' + k)

    def binop(self, op, x, y, ta, tb, tn, st):
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if op in ('==', '!='):
                r = self.ptr_eq(x, y)
                return r if op == '==' else Not(r)
            if op == '+':
                if isinstance(x, Ptr): return self.padd(st, x, y, ta.to)
                return self.padd(st, y, x, tb.to)
            if op == '-' and not isinstance(y, Ptr): return self.padd(st, x, sub(0, y), ta.to)
            if op in ('-', '<', '>', '<=', '>=') and isinstance(y, Ptr):
                # same region required
                res = None
                for g, r, i, o in x.alts:
                    for h, r2, i2, o2 in y.alts:
                        c = And(g, h)
                        if r is not r2:
                            self.check(st, 'ptrcmp', 'pointers into the same object', Not(c)); continue
                        if op == '-':
                            s, es = self.f.sizeof(ta.to), self.esize(r)
                            if s == es: v = sub(o, o2)
                            else: v = T.cdiv(mul(sub(o, o2), es), s)
                        else: v = T._cmp(op, o, o2)
                        res = v if res is None else self.ite(c, v, res)
                return res
            raise Unsupported('pointer ' + op)
        if isinstance(x, (FuncRef, Str)) or isinstance(y, (FuncRef, Str)): raise Unsupported('function compare')
        if op in ('<', '<=', '>', '>=', '==', '!='):
            if op in ('==', '!=') and isinstance(x, (bool, z3.BoolRef)) and isinstance(y, (bool, z3.BoolRef)):
                e = T.zb(x) == T.zb(y)
                return e if op == '==' else Not(e)
            return T._cmp(op, x, y)
        return self.arith(op, x, y, tn, st)

    def ptr_eq(self, x, y):
        if not isinstance(x, Ptr): x = NULL
        if not isinstance(y, Ptr): y = NULL
        out = []
        for g, r, i, o in x.alts:
            for h, r2, i2, o2 in y.alts:
                if r is None and r2 is None: out.append(And(g, h))
                elif r is r2 and r is not None: out.append(And(g, h, eq(o, o2), True if i is None else eq(i, i2)))
        return Or(*out)

    # ------------------------------------------------------------ initialisers
    def init_value(self, st, ct, n):
        if n['kind'] == 'ImplicitValueInitExpr': return self.zero_of(ct)
        if n['kind'] == 'InitListExpr' and ct.k == 'struct':
            fs = self.f.fields(ct.name)
            ks = self.kids(n)
            v = {}
            for i, (fn, ft) in enumerate(fs):
                v[fn] = self.init_value(st, ft, ks[i]) if i < len(ks) else self.zero_of(ft)
            return v
        if n['kind'] == 'InitListExpr' and ct.k != 'array':
            ks = self.kids(n)
            return self.ev(ks[0], st) if ks else self.zero_of(ct)
        return self.ev(n, st)

    def init_region(self, st, r, ct, n):
        if n['kind'] == 'InitListExpr':
            ks = n.get('inner', [])
            if 'array_filler' in n: ks = [c for c in n['array_filler'] if c.get('kind') != 'ImplicitValueInitExpr' or True][1:] if False else n['array_filler']
            if ct.k == 'array':
                i = 0
                for c in ks:
                    if c.get('kind') == 'ImplicitValueInitExpr' and 'array_filler' in n and c is n['array_filler'][0]: continue
                    v = self.init_value(st, ct.to, c)
                    self.store_nc(st, Ptr.to(r, i), '', ct.to, v)
                    i += 1
                return
            v = self.init_value(st, ct, n)
            self.store_nc(st, Ptr.to(r), '', ct, v)
            return
        if ct.k == 'array':
            if n['kind'] == 'StringLiteral' or self.kids(n) and self.kids(n)[0]['kind'] == 'StringLiteral':
                raise Unsupported('string array initialiser')
            raise Unsupported('array initialiser')
        self.store_nc(st, Ptr.to(r), '', ct, self.ev(n, st))

    # ------------------------------------------------------------ calls
    def call(self, n, st):
        ks = self.kids(n)
        fr = self.ev(ks[0], st)
        m = ks[0]
        while m.get('kind') != 'MemberExpr' and self.kids(m): m = self.kids(m)[0]
        self.callee = m.get('name')
        args = [self.ev(a, st) for a in ks[1:]]
        cts = [self.f.type_of(a) for a in ks[1:]]
        rt = self.f.type_of(n)
        if isinstance(fr, Ptr) or not isinstance(fr, FuncRef):
            return self.call_indirect(fr, args, rt, st)
        name = fr.name
        from . import libc
        own = getattr(self.top, 'models', {})
        if name in own: return own[name](self, st, args, cts, rt)
        if name in libc.MODELS: return libc.MODELS[name](self, st, args, cts, rt)
        if name in self.contracts and name != getattr(self.top, 'inline_self', None) and name not in getattr(self.top, 'inline', ()):
            return self.call_contract(self.contracts[name], args, st)
        if name in self.f.functions: return self.call_inline(name, args, st)
        raise Unsupported('call of ' + name)

    def call_indirect(self, fr, args, rt, st):
        h = getattr(self.top, 'indirect', None)
        if h is None: raise Unsupported('indirect call')
        return h(self, fr, args, rt, st)

    def bind(self, name, args, st):
        ps = self.f.params(name)
        addr = self.address_taken(name)
        for p, a in zip(ps, args):
            ct = self.f.type_of(p)
            if ct.k == 'array': ct = CT('ptr', 64, to=ct.to)
            self.ct[p['id']] = ct
            self.names[p['id']] = p.get('name', '?')
            if p['id'] in addr:
                r = self.new_region(st, 'local ' + p.get('name', '?'), ct, 1)
                self.store_nc(st, Ptr.to(r), '', ct, a)
                st.env[p['id']] = ('region', r)
            else:
                st.env[p['id']] = a

    def address_taken(self, name):
        if not hasattr(self, '_at'): self._at = {}
        if name not in self._at:
            out = set()
            def walk(n):
                if n.get('kind') == 'UnaryOperator' and n.get('opcode') == '&':
                    c = n['inner'][0]
                    while c.get('kind') in ('ParenExpr', 'MemberExpr'):
                        if c.get('kind') == 'MemberExpr' and c.get('isArrow'): break
                        c = c['inner'][0]
                    if c.get('kind') == 'DeclRefExpr': out.add(c['referencedDecl']['id'])
                for c in n.get('inner', []): walk(c)
            walk(self.f.body(name))
            self._at[name] = out
        return self._at[name]

    def call_inline(self, name, args, st):
        if self.depth > 12: raise Unsupported('recursion in ' + name)
        self.depth += 1
        self.inlined.add(name)
        ids = [p['id'] for p in self.f.params(name)]
        if any(i in st.env for i in ids): raise Unsupported('recursive inlining of ' + name)
        st0 = st
        n = len(st.pc)
        work = st.copy()
        self.bind(name, args, work)
        self.frames.append((name, set(work.env), []))
        pushed = False
        if name in self.contracts:
            from .contract import Ctx
            self.tctx.append((self.contracts[name], Ctx(self, self.contracts[name], args, st.copy())))
            pushed = True
        outs = self.exec(self.f.body(name), work)
        if pushed: self.tctx.pop()
        fr = self.frames.pop()
        rets = fr[2] + [(s, None) for s in outs]
        self.depth -= 1
        if not rets:
            # never returns normally on any path: unreachable
            st.assume(False)
            return self.fresh_of(self.f.rettype(name), 'unreach') if self.f.rettype(name).k != 'void' else None
        rk = 'ret!%s!%d' % (name, self.depth)
        for s, v in rets: s.env[rk] = v
        m = self.merge(n, [s for s, v in rets])
        v = m.env.pop(rk, None)
        st.env = {k: x for k, x in m.env.items() if k in st0.env}
        st.mem, st.ptrs, st.pc = m.mem, m.ptrs, m.pc
        return v

    def call_contract(self, con, args, st):
        from .contract import Ctx
        self.called.add(con.fn)
        pre = st.copy()
        c = Ctx(self, con, args, pre)
        tag = con.fn
        if not self.dry:
            for label, g in con.call_requires(self, c, st): self.check(st, 'pre', 'precondition of %s: %s' % (tag, label), g)
        c.pre = st.copy() if False else pre
        # effects
        con.havoc_call(self, c, st)
        rt = self.f.rettype(con.fn)
        ret = None if rt.k == 'void' else self.fresh_of(rt, 'ret_' + con.fn, st)
        c.set_post(st, ret)
        if not self.dry:
            for label, g in con.all_ensures(c):
                st.assume(g)
        return c.ret_override if c.ret_override is not None else ret

    # ------------------------------------------------------------ statements
    def exec(self, n, st):
        """Returns the list of states that fall through."""
        if self.deadline and time.time() > self.deadline: raise Unsupported('time limit of the engine')
        k = n.get('kind')
        if k == 'CompoundStmt':
            sts = [st]
            for c in self.kids(n):
                nxt = []
                for s in sts: nxt += self.exec(c, s)
                sts = nxt
                if not sts: break
                if len(sts) > 12: sts = [self.merge(self.common(sts), sts)]
            return sts
        if k == 'DeclStmt':
            for d in self.kids(n): self.decl(d, st)
            return [st]
        if k == 'NullStmt': return [st]
        if k == 'ReturnStmt':
            ks = self.kids(n)
            v = self.ev(ks[0], st) if ks else None
            self.frames[-1][2].append((st, v))
            return []
        if k == 'IfStmt':
            ks = self.kids(n)
            if n.get('hasInit') or n.get('hasVar'): raise Unsupported('if with declaration')
            c = self.truth(self.ev(ks[0], st))
            els = ks[2] if len(ks) > 2 else None
            if c is True: return self.exec(ks[1], st)
            if c is False: return self.exec(els, st) if els else [st]
            n0 = len(st.pc)
            a, b = st.copy(), st.copy()
            a.assume(c)
            b.assume(Not(c))
            ra = self.exec(ks[1], a)
            rb = self.exec(els, b) if els else [b]
            if len(ra) == 1 and len(rb) == 1: 
                try: return [self.merge2(n0, c, ra[0], rb[0])]
                except Unsupported: return ra + rb
            return ra + rb
        if k in ('ForStmt', 'WhileStmt', 'DoStmt'): return self.loop(n, st)
        if k == 'BreakStmt':
            self.loops[-1][0].append(st)
            return []
        if k == 'ContinueStmt':
            for L in reversed(self.loops):
                if L[2] == 'loop':
                    L[1].append(st)
                    return []
        if k == 'SwitchStmt': return self.switch(n, st)
        if k in ('CaseStmt', 'DefaultStmt'): return self.exec(self.kids(n)[-1], st)
        if k in ('LabelStmt', 'GotoStmt', 'IndirectGotoStmt', 'AsmStmt', 'GCCAsmStmt'): raise Unsupported(k)
        if k == 'AttributedStmt': return self.exec(self.kids(n)[-1], st)
        self.ev(n, st)
        return [st]

    def template_ctxs(self, h): return self.tctx

    def common(self, sts):
        n = 0
        m = min(len(s.pc) for s in sts)
        while n < m and all(s.pc[n] is sts[0].pc[n] or s.pc[n].eq(sts[0].pc[n]) for s in sts[1:]): n += 1
        return n

    def decl(self, d, st):
        if d['kind'] == 'RecordDecl':
            self.f._record(d)
            self.f.anon = d['id']
            return
        if d['kind'] != 'VarDecl': return
        if d.get('storageClass') == 'static':
            r = self.global_region(st, d)
            return
        ct = self.f.type_of(d)
        i = d['id']
        self.ct[i] = ct
        self.names[i] = d['name']
        init = [c for c in self.kids(d) if not c['kind'].endswith('Attr')]
        fn = self.frames[-1][0]
        if ct.k == 'array' or i in self.address_taken(fn):
            if ct.k == 'array' and ct.n is None: raise Unsupported('variable length array')
            r = self.new_region(st, 'local ' + d['name'], ct.to if ct.k == 'array' else ct,
                                ct.n if ct.k == 'array' else 1, init='zero' if init and init[0]['kind'] == 'InitListExpr' else None)
            if init: self.init_region(st, r, ct, init[0])
            st.env[i] = ('region', r)
            return
        if init: st.env[i] = self.init_value(st, ct, init[0])
        elif ct.k in ('int', 'bool', 'float', 'struct'):
            st.env[i] = self.fresh_of(ct, 'uninit_' + d['name'], st)
        else: st.env[i] = None

    def switch(self, n, st):
        ks = self.kids(n)
        v = self.ev(ks[0], st)
        body = self.kids(ks[1])
        # flatten nested case labels
        items = []
        def flat(s, labels):
            if s['kind'] == 'CaseStmt':
                kk = self.kids(s)
                flat(kk[-1], labels + [self.case_value(kk[0], st)])
            elif s['kind'] == 'DefaultStmt':
                flat(self.kids(s)[-1], labels + ['default'])
            else: items.append((labels, s))
        for s in body: flat(s, [])
        vals = [l for ls, _ in items for l in ls if l != 'default']
        out = []
        brk = []
        entries = [(i, l) for i, (ls, _) in enumerate(items) for l in ls]
        if not any(l == 'default' for _, l in entries): entries.append((None, 'default'))
        for i, l in entries:
            c = And(*[ne(v, x) for x in vals]) if l == 'default' else eq(v, l)
            if c is False: continue
            s = st.copy()
            s.assume(c)
            if i is None: out.append(s); continue
            self.loops.append((brk, None, 'switch'))
            cur = [s]
            for _, stmt in items[i:]:
                nxt = []
                for q in cur: nxt += self.exec(stmt, q)
                cur = nxt
                if not cur: break
            self.loops.pop()
            out += cur
        return out + brk

    def case_value(self, n, st):
        v = cfront.find_value(n)
        if v is not None: return v
        return self.ev(n, st.copy())

    # ------------------------------------------------------------ loops
    def loop(self, n, st):
        k = n['kind']
        ks = n.get('inner', [])
        if k == 'ForStmt':
            init, _, cond, inc, body = ks
            if init: 
                r = self.exec(init, st)
                st = r[0]
            cond = cond or None
            inc = inc or None
            test_first = True
        elif k == 'WhileStmt':
            cond, body = self.kids(n)[-2:]
            inc, test_first = None, True
        else:
            body, cond = self.kids(n)
            inc, test_first = None, False
        if self.is_const_true(cond): cond = None
        if not test_first and cond is not None and cfront.find_value(cond) == 0 and cond.get('kind') in ('IntegerLiteral',):
            # do { ... } while (0)
            brk, con = [], []
            self.loops.append((brk, con, 'loop'))
            outs = self.exec(body, st)
            self.loops.pop()
            return outs + brk + con
        if cond is not None and not self.dry:
            r = self.try_unroll(st, cond, body, inc, test_first)
            if r is not None: return r
        if self.bounded is not None and not self.dry: return self.unroll_k(st, cond, body, inc, test_first)
        return self.cut(st, cond, body, inc, test_first)

    def is_const_true(self, cond):
        if cond is None: return True
        c = cond
        while c.get('kind') in ('ParenExpr', 'ImplicitCastExpr', 'ConstantExpr'): c = self.kids(c)[0]
        return c.get('kind') == 'IntegerLiteral' and c['value'] != '0' or c.get('kind') == 'CXXBoolLiteralExpr' and c.get('value')

    def one(self, st, cond, body, inc):
        """One iteration body+inc from st (cond already assumed): (back states, break states)."""
        brk, con = [], []
        self.loops.append((brk, con, 'loop'))
        outs = self.exec(body, st)
        self.loops.pop()
        back = outs + con
        for s in back:
            if inc is not None: self.ev(inc, s)
        return back, brk

    def try_unroll(self, st, cond, body, inc, test_first, limit=70):
        mark = len(self.obs)
        probe = st.copy()
        self.silent += 1
        try: c = self.truth(self.ev(cond, probe)) if test_first else True
        finally: self.silent -= 1
        if not isinstance(c, bool): return None
        outs = []
        cur = [st.copy()]
        frmark = len(self.frames[-1][2])
        first = True
        for _ in range(limit):
            nxt = []
            for s in cur:
                c = True if (first and not test_first) else self.truth(self.ev(cond, s))
                if not isinstance(c, bool):
                    del self.obs[mark:]
                    del self.frames[-1][2][frmark:]
                    return None
                if not c: outs.append(s); continue
                back, brk = self.one(s, cond, body, inc)
                outs += brk
                nxt += back
            first = False
            cur = nxt
            if len(cur) > 6:
                cur = [self.merge(self.common(cur), cur)]
            if not cur: return outs
        del self.obs[mark:]
        del self.frames[-1][2][frmark:]
        return None

    def unroll_k(self, st, cond, body, inc, test_first):
        outs, cur = [], [st]
        first = True
        for it in range(self.bounded + 1):
            nxt = []
            for s in cur:
                if first and not test_first: c = True
                else: c = True if cond is None else self.truth(self.ev(cond, s))
                if c is not True:
                    if c is False: outs.append(s); continue
                    x = s.copy()
                    x.assume(Not(c))
                    if self.feasible(x): outs.append(x)
                    s.assume(c)
                    if not self.feasible(s): continue
                if it == self.bounded: continue          # bound reached: path dropped (bounded mode only)
                back, brk = self.one(s, cond, body, inc)
                outs += brk
                nxt += back
            first = False
            cur = nxt
            if len(cur) > 8: cur = [self.merge(self.common(cur), cur)]
            if not cur: break
        if len(outs) > 8: outs = [self.merge(self.common(outs), outs)]
        return outs

    def feasible(self, s):
        fs = [p for p in s.pc if solve.qf(p)]
        r, _ = solve.check(fs, 500)
        return r != z3.unsat

    # -- invariants
    def diff(self, a, b, mods):
        """Record which parts of state b differ from a."""
        ch = False
        for k, v in a.env.items():
            if k not in b.env: continue
            w = b.env[k]
            if isinstance(v, tuple): continue
            if not eqv(v, w):
                if isinstance(v, Ptr) or isinstance(w, Ptr):
                    s = mods['ptr'].setdefault(k, {})
                    for p in (v, w):
                        if p is None: continue
                        for g, r, i, o in p.alts:
                            key = r.name if r is not None else None
                            if key not in s: s[key] = r; ch = True
                if k not in mods['env']: mods['env'].add(k); ch = True
        for k, v in a.mem.items():
            if k in b.mem and not eqv(v, b.mem[k]) and k not in mods['mem']:
                mods['mem'].add(k); ch = True
        for k, v in a.ptrs.items():
            if k in b.ptrs and b.ptrs[k] is not v:
                raise Unsupported('pointer field modified in loop')
        return ch

    def havoc(self, st, mods):
        s = st.copy()
        syms = {}
        for k in sorted(mods['env'], key=str):
            nm = self.names.get(k, str(k))
            v = s.env.get(k)
            if isinstance(v, Ptr) or k in mods['ptr']:
                regs = list(mods['ptr'].get(k, {}).items()) or [(r.name if r else None, r) for _, r, _, _ in v.alts]
                alts = []
                sel = T.fresh('sel_' + nm, T.I) if len(regs) > 1 else None
                off = T.fresh('off_' + nm, T.I)
                idx = None
                if any(r is not None and r.fam for _, r in regs): idx = T.fresh('idx_' + nm, T.I)
                for j, (rn, r) in enumerate(regs):
                    g = True if sel is None else (sel == j)
                    alts.append((g, r, idx if r is not None and r.fam else None, off if r is not None else 0))
                if sel is not None: s.assume(And(sel >= 0, sel < len(regs)))
                s.env[k] = Ptr(alts)
                syms[k] = ('ptr', off, idx, sel, [r for _, r in regs])
                continue
            ct = self.ct.get(k, INT)
            if isinstance(v, dict):
                s.env[k] = self.fresh_of(ct, nm, s)
                syms[k] = ('struct', s.env[k])
                continue
            if v is None: continue
            s.env[k] = self.fresh_of(ct, nm, s)
            syms[k] = ('val', s.env[k])
        for k in sorted(mods['mem']):
            s.mem[k] = T.fresh(k[0] + k[1], s.mem[k].sort())
            syms[k] = ('mem', s.mem[k])
        return s, syms

    def subst_of(self, syms, st):
        """[(symbol, value of it in st)]"""
        out = []
        for k, x in syms.items():
            if x[0] == 'mem': out.append((x[1], st.mem[k])); continue
            v = st.env[k]
            if x[0] == 'val':
                if isinstance(x[1], z3.BoolRef): w = T.zb(self.truth(v))
                elif x[1].sort() == T.R: w = T.zr(v)
                else: w = T.zi(T.toint(v))
                out.append((x[1], w))
            elif x[0] == 'struct':
                def rec(a, b):
                    for q in a:
                        if isinstance(a[q], dict): rec(a[q], b[q])
                        elif T.isz(a[q]): out.append((a[q], T.zr(b[q]) if a[q].sort() == T.R else (T.zb(b[q]) if isinstance(a[q], z3.BoolRef) else T.zi(T.toint(b[q])))))
                rec(x[1], v)
            elif x[0] == 'ptr':
                _, off, idx, sel, regs = x
                if v is None: continue
                o, ii, sl = None, None, None
                for g, r, i, of in reversed(v.alts):
                    of = T.zi(of)
                    o = of if o is None else If(g, of, o)
                    if idx is not None and i is not None: ii = T.zi(i) if ii is None else If(g, T.zi(i), ii)
                    if sel is not None:
                        j = [q for q, rr in enumerate(regs) if rr is r]
                        j = z3.IntVal(j[0] if j else -1)
                        sl = j if sl is None else If(g, j, sl)
                out.append((off, T.zi(o)))
                if idx is not None: out.append((idx, T.zi(ii if ii is not None else 0)))
                if sel is not None: out.append((sel, T.zi(sl)))
        return out

    def cut(self, st, cond, body, inc, test_first):
        """Cut the loop with an inferred invariant."""
        if not test_first:
            # do body while (cond)  ==  first iteration, then while (cond) body
            brk, con = [], []
            self.loops.append((brk, con, 'loop'))
            outs = self.exec(body, st)
            self.loops.pop()
            res = list(brk)
            starts = outs + con
            if len(starts) > 1: starts = [self.merge(self.common(starts), starts)]
            for s in starts: res += self.cut(s, cond, body, inc, True)
            return res
        mods = dict(env=set(), mem=set(), ptr={})
        # -- what does the loop modify
        self.dry += 1
        try:
            while True:
                h, syms = self.havoc(st, mods)
                frm = len(self.frames[-1][2])
                if cond is not None:
                    hc = h.copy()
                    c = self.truth(self.ev(cond, hc))
                else: hc, c = h.copy(), True
                ch = self.diff(h, hc, mods)
                run = hc.copy()
                if c is not True: run.assume(c)
                back, brk = self.one(run, cond, body, inc)
                rets = self.frames[-1][2][frm:]
                del self.frames[-1][2][frm:]
                for b in back + brk + [r for r, _ in rets]: ch |= self.diff(h, b, mods)
                if not ch: break
            # strides
            strides = self.strides(h, syms, back)
            dryc = c
        finally:
            self.dry -= 1
        if self.dry:
            h, syms = self.havoc(st, mods)
            frm = len(self.frames[-1][2])
            c = self.truth(self.ev(cond, h)) if cond is not None else True
            run = h.copy()
            if c is not True: run.assume(c)
            back, brk = self.one(run, cond, body, inc)
            ex = h.copy()
            if c is not True: ex.assume(Not(c))
            return ([ex] if cond is not None else []) + brk
        # -- final havocked state
        h, syms = self.havoc(st, mods)
        self.dry += 1
        try:
            hc = h.copy()
            c0 = self.truth(self.ev(cond, hc)) if cond is not None else True
            run = hc.copy()
            frm = len(self.frames[-1][2])
            back, brk = self.one(run, cond, body, inc)
            del self.frames[-1][2][frm:]
            strides = self.strides(h, syms, back)
        finally:
            self.dry -= 1
        init_sub = self.subst_of(syms, st)
        key = (id(body),) + tuple(self.loopkeys)
        if not self.loopkeys: self.dropmemo = {}
        memo = self.dropmemo.setdefault(key, set())
        cands = self.candidates(st, h, syms, c0, strides, init_sub)
        cnt = {}
        named = []
        for lab, f in cands:
            cnt[lab] = cnt.get(lab, 0) + 1
            nm = lab if cnt[lab] == 1 else '%s #%d' % (lab, cnt[lab])
            if nm not in memo: named.append((nm, f))
        cands = named
        self.stats['loops'] += 1
        self.stats['cands'] += len(cands)
        # -- Houdini
        self.loopstack.append(syms)
        self.loopkeys.append(id(body))
        self.silent += 1
        try:
            keep = []
            def holds_first(i):
                lab, f = cands[i]
                g = z3.substitute(T.zb(f), *init_sub) if init_sub else T.zb(f)
                k = can.key(g)
                if k in self.proved: return True, None
                return solve.prove(st.pc, g, ms=400, quick=True, deep=': ' in lab, tag=lab)[0] == 'proved', k
            can = solve.Canon(st.pc)
            for (lab, f), (ok, k) in zip(cands, solve.pmap(holds_first, len(cands))):
                if ok and k: self.proved.add(k)
                if ok: keep.append((lab, f))
                else: memo.add(lab)
            cands = keep
            rnd = 0
            while True:
                rnd += 1
                self.stats['houdini'] += 1
                s = h.copy()
                for lab, f in cands: s.assume(f)
                frm = len(self.frames[-1][2])
                c = self.truth(self.ev(cond, s)) if cond is not None else True
                if c is not True: s.assume(c)
                back, brk = self.one(s, cond, body, inc)
                del self.frames[-1][2][frm:]
                bad = set()
                for b in back:
                    sub_ = self.subst_of(syms, b)
                    todo = [i for i in range(len(cands)) if i not in bad]
                    can = solve.Canon(b.pc)
                    def kept(j):
                        lab, f = cands[todo[j]]
                        g = z3.substitute(T.zb(f), *sub_) if sub_ else T.zb(f)
                        if any(g.eq(p) for p in b.pc): return True, None
                        k = can.key(g)
                        if k in self.proved: return True, None
                        return solve.prove(b.pc, g, ms=self.qms, quick=True, deep=': ' in lab, tag=lab)[0] == 'proved', k
                    for i, (ok, k) in zip(todo, solve.pmap(kept, len(todo))):
                        if ok and k: self.proved.add(k)
                        if not ok:
                            bad.add(i)
                            memo.add(cands[i][0])
                            if os.environ.get('VC_DEBUG') == '2': print('   drop', cands[i][0])
                if not bad: break
                cands = [c_ for i, c_ in enumerate(cands) if i not in bad]
        finally:
            self.silent -= 1
        if os.environ.get('VC_DEBUG'):
            print('LOOP in', self.frames[-1][0], 'mods', [self.names.get(k, k) for k in mods['env']], sorted(mods['mem']), 'rounds', rnd, 'invs', len(cands))
            if os.environ.get('VC_DEBUG') == '2':
                for lab, f in cands: print('     ', lab)
        self.stats['invs'] += len(cands)
        # -- final pass, recording obligations
        s = h.copy()
        for lab, f in cands: s.assume(f)
        c = self.truth(self.ev(cond, s)) if cond is not None else True
        outs = []
        if c is not True and cond is not None:
            ex = s.copy()
            ex.assume(Not(c))
            outs.append(ex)
            s.assume(c)
        n0 = len(s.pc)
        body_start = s.copy()
        back, brk = self.one(s, cond, body, inc)
        self.loopstack.pop()
        self.loopkeys.pop()
        if not self.silent:
            self.loop_report.append(dict(fn=self.frames[-1][0], candidates=len(keep), invariants=[l for l, _ in cands], rounds=rnd))
            self.stats['proved_inv'] = self.stats.get('proved_inv', 0) + 2 * len(cands)
            if getattr(self.top, 'terminates', True): self.variant(h, body_start, back, syms, c, cands)
        return outs + brk

    def strides(self, h, syms, back):
        res = {}
        if not back: return res
        hv = []
        for k, x in syms.items():
            if x[0] == 'mem': hv.append(x[1])
            elif x[0] == 'val': hv.append(x[1])
            elif x[0] == 'ptr': hv += [y for y in x[1:4] if y is not None]
        hids = {v.get_id() for v in hv}
        subs = [self.subst_of(syms, b) for b in back]
        for k, x in syms.items():
            sym = x[1] if x[0] in ('val', 'ptr') else None
            if sym is None or isinstance(sym, z3.BoolRef) or sym.sort() != T.I: continue
            d = None
            ok = True
            for s in subs:
                v = [b for a, b in s if a is sym or a.eq(sym)]
                if not v: ok = False; break
                e = z3.simplify(v[0] - sym)
                if mentions(e, hids): ok = False; break
                if d is None: d = e
                elif not d.eq(e): ok = False; break
            if ok and d is not None: res[sym.get_id()] = (sym, T.unz(d), k)
        return res

    def candidates(self, st, h, syms, c0, strides, init_sub):
        out = []
        init = {a.get_id(): b for a, b in init_sub}
        ints = []
        for k, x in syms.items():
            if x[0] == 'val' and x[1].sort() == T.I: ints.append((self.names.get(k, str(k)), x[1], k))
            if x[0] == 'ptr':
                ints.append(('off ' + self.names.get(k, str(k)), x[1], k))
                if x[3] is not None:
                    for j in range(len(x[4])):
                        out.append(('%s points to %s' % (self.names.get(k, k), x[4][j]), x[3] == j))
                        out.append(('%s not to %s' % (self.names.get(k, k), x[4][j]), x[3] != j))
            if x[0] == 'val' and isinstance(x[1], z3.BoolRef):
                out.append(('%s false' % self.names.get(k, k), z3.Not(x[1])))
                out.append(('%s true' % self.names.get(k, k), x[1]))
        # constant-stride relations
        ref = None
        for sid, (sym, d, k) in strides.items():
            if d in (1, -1) and sid in init:
                ref = (sym, d, init[sid]) if ref is None or str(sym) < str(ref[0]) else ref
        for nm, sym, k in ints:
            i0 = init.get(sym.get_id())
            if i0 is None: continue
            out.append(('%s>=init' % nm, sym >= i0))
            out.append(('%s<=init' % nm, sym <= i0))
            out.append(('%s>=0' % nm, sym >= 0))
            if sym.get_id() in strides and ref is not None and not sym.eq(ref[0]):
                d = strides[sym.get_id()][1]
                steps = (ref[0] - ref[2]) if ref[1] == 1 else (ref[2] - ref[0])
                z0 = z3.simplify(T.zi(ref[2]))
                if z3.is_int_value(z0) and z0.as_long() == 0 and ref[1] == 1: steps = ref[0]
                dd = T.unz(z3.simplify(T.zi(d)))
                rel = T.zi(add(T.unz(z3.simplify(i0)), mul(dd, steps)))
                out.append(('%s linear in %s' % (nm, ref[0]), sym == rel))
            if sym.get_id() in strides and ref is None:
                d = strides[sym.get_id()][1]
                if T.num(d) and abs(d) > 1: out.append(('%s mod %d' % (nm, d), (sym - i0) % abs(d) == 0))
        # weakened loop conditions
        for a in atoms(c0):
            for nm_, f in weaken(a):
                out.append((nm_, f))
                if solve.prove(st.pc, z3.substitute(f, *init_sub) if init_sub else f, ms=200, quick=True, deep=False)[0] != 'proved':
                    for nm, sym, k in ints:
                        i0 = init.get(sym.get_id())
                        if i0 is not None and mentions(f, {sym.get_id()}): out.append((nm_ + ' or first iteration', z3.Or(sym == i0, f)))
        # relations between modified ints and every int in scope
        scope = self.scope_ints(h)
        for nm, sym, k in ints:
            for nm2, v in scope:
                if T.isz(v) and v.eq(sym): continue
                out.append(('%s<=%s' % (nm, nm2), T.zb(le(sym, v))))
                out.append(('%s<%s' % (nm, nm2), T.zb(lt(sym, v))))
        # arrays: untouched ranges
        for k, x in syms.items():
            if x[0] != 'mem': continue
            a, a0 = x[1], st.mem[k]
            if z3.is_array(a) and a.sort().domain() == T.I and a.sort().range() in (T.I, T.R):
                j = z3.Int('j!q')
                for nm, sym, _ in ints:
                    for lab, g in (('>=', j >= sym), ('<', j < sym), ('>', j > sym), ('<=', j <= sym)):
                        out.append(('%s%s[j] unchanged for j%s%s' % (k[0], k[1], lab, nm),
                                    z3.ForAll([j], z3.Implies(g, z3.Select(a, j) == z3.Select(a0, j)), patterns=[z3.Select(a, j)])))
                    i0 = init.get(sym.get_id())
                    if i0 is not None:
                        out.append(('%s%s[j] unchanged for j<init %s' % (k[0], k[1], nm),
                                    z3.ForAll([j], z3.Implies(j < i0, z3.Select(a, j) == z3.Select(a0, j)), patterns=[z3.Select(a, j)])))
        # contract templates
        from .contract import instantiate
        out += instantiate(self, st, h, syms, ints)
        # drop duplicates
        seen, res = set(), []
        for lab, f in out:
            f = T.zb(f)
            if isinstance(f, bool) or z3.is_true(f) or z3.is_false(f): continue
            kk = f.get_id()
            if kk in seen: continue
            seen.add(kk)
            res.append((lab, f))
        return res

    def scope_ints(self, s):
        """Integer locals and parameters of the current frame."""
        out = []
        for k, v in s.env.items():
            if k in self.ct and self.ct[k].k == 'int' and (T.isz(v) and not isinstance(v, z3.BoolRef)):
                out.append((self.names.get(k, str(k)), v))
        return out

    def variant(self, h, s0, back, syms, c, cands):
        exprs = []
        for a in atoms(c):
            ch = a.children() if z3.is_app(a) else []
            if len(ch) == 2 and ch[0].sort() == T.I:
                exprs += [ch[0] - ch[1], ch[1] - ch[0]]
        for k, x in syms.items():
            if x[0] == 'val' and x[1].sort() == T.I: exprs += [x[1], -x[1]]
        exprs += [T.zi(e) for e in (self.top.variants(self, h, syms) if self.top else [])]
        for e in exprs:
            good = solve.prove(s0.pc, e >= -1, ms=1000, quick=True, deep=False)[0] == 'proved'
            if not good: continue
            for b in back:
                sub_ = self.subst_of(syms, b)
                e2 = z3.substitute(e, *sub_)
                if solve.prove(b.pc, e2 < e, ms=1500, quick=True, deep=False)[0] != 'proved': good = False; break
            if good:
                self.stats['variants'] = self.stats.get('variants', 0) + 1
                o = Ob(self.fn, 'variant', 'loop in %s terminates' % self.frames[-1][0], [], z3.BoolVal(True))
                self.obs.append(o)
                return
        o = Ob(self.fn, 'variant', 'loop in %s terminates' % self.frames[-1][0], list(s0.pc), z3.BoolVal(False))
        self.obs.append(o)


def _pow2_facts(app, k):
    k = T.zi(k)
    fs = [z3.Implies(k >= 0, app >= 1), z3.Implies(k >= 1, app >= 2)]
    for i in range(0, 65): fs.append(z3.Implies(k == i, app == (1 << i)))
    return fs


POW2 = spec.Fun('pow2', _pow2_facts, lambda k: 1 << k, real=False)


def mentions(e, ids, cache=None):
    stack = [e]
    seen = set()
    while stack:
        x = stack.pop()
        k = x.get_id()
        if k in ids: return True
        if k in seen: continue
        seen.add(k)
        stack.extend(x.children() if not z3.is_quantifier(x) else [x.body()])
    return False


def atoms(c):
    """Comparison atoms of a conjunctive condition."""
    if isinstance(c, bool): return []
    if z3.is_and(c): return [a for x in c.children() for a in atoms(x)]
    return [c]


def weaken(a):
    out = [('guard', a)]
    if z3.is_app(a):
        k = a.decl().kind()
        ch = a.children()
        if z3.is_not(a):
            b = ch[0]
            kb = b.decl().kind()
            if kb == z3.Z3_OP_EQ and b.children()[0].sort() == T.I:
                x, y = b.children()
                out += [('w', x <= y), ('w', x >= y)]
            return out
        if len(ch) == 2 and ch[0].sort() == T.I:
            x, y = ch
            if k == z3.Z3_OP_LT: out += [('%s<=%s' % (x, y), x <= y)]
            if k == z3.Z3_OP_LE: out += [('%s<=%s+1' % (x, y), x <= y + 1)]
            if k == z3.Z3_OP_GT: out += [('%s>=%s' % (x, y), x >= y)]
            if k == z3.Z3_OP_GE: out += [('%s>=%s-1' % (x, y), x >= y - 1)]
            if k == z3.Z3_OP_DISTINCT: out += [('w', x <= y), ('w', x >= y)]
    return out
