"""Contracts: one text, two readings. Symbolically a contract gives proof obligations over the AST of the real
function; concretely the same text is evaluated on a run of the compiled function (vc/run.py)."""
from fractions import Fraction
import math
import z3
from . import terms as T, spec
from .spec import ArrRef
from .terms import And, Or, Not, Implies, If, lt, le, gt, ge, eq, ne, add, sub, mul
from .cfront import CT
from . import engine as E

TOL = Fraction(1, 5000)


class P:
    """Shape of a pointer: valid for n elements; fields give the shape of pointer fields of the elements."""
    def __init__(self, n=1, null=False, const=False, opaque=False, into=None, **fields):
        self.n, self.null, self.const, self.opaque, self.fields = n, null, const, opaque, fields
        self.into = into    # the elements are pointers into the buffer of this parameter (kept as offsets)

    def length(self, c, o):
        return self.n(c, o) if callable(self.n) else self.n


class G(P):
    """Shape of a pointer parameter to a buffer whose length is not passed to the function: contracts name it c.glen(parameter)."""
    def __init__(self, name, null=False, const=False):
        P.__init__(self, lambda c, o: c.glen(name), null, const)
        self.gname = name


class S:
    """Shape of a struct passed by value."""
    def __init__(self, **fields): self.fields = fields


def req(a, b):
    """Equality of real values (a tolerance for rounding when evaluated on a run)."""
    if not T.isz(a) and not T.isz(b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, float):
                if math.isnan(x): return isinstance(y, float) and math.isnan(y)
                if math.isinf(x): return x == y
        return abs(a - b) <= TOL * max(1, abs(a), abs(b))
    return T._cmp('==', T.zr(a), T.zr(b))


def iff(a, b):
    if isinstance(a, bool) and isinstance(b, bool): return a == b
    if isinstance(a, bool): return b if a else Not(b)
    if isinstance(b, bool): return a if b else Not(a)
    return T.zb(a) == T.zb(b)


def f32(x):
    """Nearest single-precision value, exactly."""
    import struct
    return Fraction(struct.unpack('<f', struct.pack('<f', float(x)))[0])


def isnan(v):
    if T.isz(v): return eq(v, T.NAN)
    return isinstance(v, float) and math.isnan(v)


def forall(lo, hi, fn, pats=None):
    if not T.isz(lo) and not T.isz(hi):
        return And(*[fn(j) for j in range(int(lo), int(hi))])
    j = T.fresh('j', T.I)
    b = fn(j)
    if b is True: return True
    g = z3.Implies(z3.And(T.zi(lo) <= j, j < T.zi(hi)), T.zb(b))
    return z3.ForAll([j], g)


def exists(lo, hi, fn):
    if not T.isz(lo) and not T.isz(hi):
        return Or(*[fn(j) for j in range(int(lo), int(hi))])
    j = T.fresh('j', T.I)
    return z3.Exists([j], z3.And(T.zi(lo) <= j, j < T.zi(hi), T.zb(fn(j))))


class View:
    """Elements behind a pointer, read in a given state without obligations."""
    def __init__(self, eng, st, ptr, ct, path=''):
        self._e, self._st, self._p, self._ct, self._path = eng, st, ptr, ct, path

    def _mk(self, st): return View(self._e, st, self._p, self._ct, self._path)

    @property
    def isnull(self): return self._e.isnull(self._p)

    def _sub(self, p, path, ct):
        e = self._e
        if ct.k == 'struct': return View(e, self._st, p, ct, path)
        v = e.load_nc(self._st, p, path, ct, spec_mode=True)
        if isinstance(v, E.Ptr):
            return View(e, self._st, v, ct.to if ct.k in ('ptr', 'array') else ct, '')
        return v

    def __getitem__(self, k):
        return self._sub(self._e.padd(self._st, self._p, k, self._ct), self._path, self._ct)

    def __getattr__(self, n):
        if n.startswith('_'): raise AttributeError(n)
        d = dict(self._e.f.fields(self._ct.name))
        if n not in d: raise E.Unsupported('no field %s in %s' % (n, self._ct.name))
        return self._sub(self._p, self._path + '.' + n, d[n])

    def ref(self, field='', off=0):
        """The whole array behind the pointer (of a field across elements) as a specification parameter."""
        path = self._path + ('.' + field if field else '')
        alts = [a for a in self._p.alts if a[1] is not None]
        if len(alts) != 1: raise E.Unsupported('reference through several regions')
        g, r, idx, o = alts[0]
        a = self._st.mem[(r.name, path)]
        if r.fam: a = a[idx] if isinstance(a, list) else z3.Select(a, T.zi(idx))
        return ArrRef(a, T.unz(z3.simplify(T.zi(add(o, off)))) if T.isz(add(o, off)) else add(o, off))

    def famref(self, field=''):
        """All member arrays of a family (array of arrays)."""
        alts = [a for a in self._p.alts if a[1] is not None]
        g, r, idx, o = alts[0]
        return spec.FamRef(self._st.mem[(r.name, self._path)])


class SView:
    """Struct value."""
    def __init__(self, eng, st, v, ct):
        self._e, self._st, self._v, self._ct = eng, st, v, ct

    def _mk(self, st): return SView(self._e, st, self._v, self._ct)

    def __getattr__(self, n):
        if n.startswith('_'): raise AttributeError(n)
        if n not in self._v: raise E.Unsupported('no field ' + n)
        v = self._v[n]
        ct = dict(self._e.f.fields(self._ct.name))[n]
        if isinstance(v, E.Ptr): return View(self._e, self._st, v, ct.to)
        if isinstance(v, dict): return SView(self._e, self._st, v, ct)
        return v


def viewof(eng, st, v, ct):
    if isinstance(v, E.Ptr):
        return View(eng, st, v, ct.to if ct.k in ('ptr', 'array') else ct)
    if isinstance(v, dict): return SView(eng, st, v, ct)
    return v


class Ctx:
    def __init__(self, eng, con, args, pre):
        self._e, self._con, self._args, self._pre = eng, con, list(args), pre
        self._post, self.ret, self.ret_override = None, None, None
        self._cts = []
        for p in eng.f.params(con.fn):
            ct = eng.f.type_of(p)
            if ct.k == 'array': ct = CT('ptr', 64, to=ct.to)
            self._cts.append(ct)
        if len(self._cts) != len(con.args): raise E.Unsupported('%s takes %d parameters' % (con.fn, len(self._cts)))

    def __getattr__(self, n):
        if n.startswith('_'): raise AttributeError(n)
        i = self._con.args.index(n) if n in self._con.args else None
        if i is None: raise AttributeError(n)
        return viewof(self._e, self._pre, self._args[i], self._cts[i])

    @property
    def symbolic(self): return not getattr(self._pre, 'concrete', False)

    def set_post(self, st, ret):
        self._post = st
        rt = self._e.f.rettype(self._con.fn)
        self.ret = viewof(self._e, st, ret, rt) if isinstance(ret, (E.Ptr, dict)) else ret

    def post(self, v): return v._mk(self._post)

    def at(self, v, st): return v._mk(st)

    def E(self, name):
        v = self._e.f.enums.get(name)
        if v is None: raise E.Unsupported('no enum constant ' + name)
        return v

    def toint(self, v): return T.toint(v)

    def glen(self, name):
        g = self.__dict__.setdefault('_ghost', {})
        if name not in g:
            v = self._args[self._con.args.index(name)]
            if v is None:
                g[name] = T.fresh(name + '_len', T.I)
                self._pre.assume(ge(g[name], 0))
            else:
                alts = [a for a in v.alts if a[1] is not None]
                if len(alts) != 1: raise E.Unsupported('buffer through several regions')
                g[name] = sub(alts[0][1].len_at(alts[0][2]), alts[0][3])
        return g[name]


class Contract:
    fn = None
    args = ()
    shape = {}
    alias_ok = False
    terminates = True
    opaque = ()          # specification functions that are not unfolded in the proof
    inline = ()          # callees to inline although they have a contract
    check_fdiv = False
    ms = 3000
    qms = 800            # time limit (ms) when trying an invariant candidate
    props = ()
    depth = 2
    bounded_n = 3

    def requires(self, c): return []
    def ensures(self, c): return []
    def assigns(self, c): return []
    def invs(self, c, L): return []
    def variants(self, engine, h, syms): return []
    def setup(self, engine, st, c): pass
    def gen(self, rng): raise NotImplementedError

    # ---- modular use at a call site
    def shape_obligations(self, eng, st, c, shape, v, ct, owner, name, out):
        if isinstance(shape, S):
            for fn, ft in eng.f.fields(ct.name):
                if fn in shape.fields: self.shape_obligations(eng, st, c, shape.fields[fn], v[fn], ft, SView(eng, st, v, ct), name + '.' + fn, out)
            return
        if shape.opaque: return
        isn = eng.isnull(v)
        if not shape.null: out.append(('%s is not null' % name, Not(isn)))
        n = shape.length(c, owner)
        for g, r, i, o in v.alts:
            if r is None: continue
            L = r.len_at(i)
            if r.elem.k == 'int' and r.elem.bits == 8 and eng.f.sizeof(ct.to) != 1:
                m = mul(n, eng.f.sizeof(ct.to))
            else: m = n
            out.append(('%s valid for its length' % name, Implies(And(g), And(ge(o, 0), le(add(o, m), L)))))
            if r.const and not shape.const: out.append(('%s writable' % name, Not(g)))
        if shape.fields and ct.to.k == 'struct':
            for fn, ft in eng.f.fields(ct.to.name):
                if fn not in shape.fields: continue
                ov = View(eng, st, v, ct.to)
                if len([a for a in v.alts if a[1] is not None]) != 1: raise E.Unsupported('struct behind several regions')
                r = [a for a in v.alts if a[1] is not None][0][1]
                if n == 1:
                    self.shape_obligations(eng, st, c, shape.fields[fn], eng.load_nc(st, v, '.' + fn, ft, True), ft, ov, name + '->' + fn, out)
                else:
                    # array of structs with pointer fields: the same family must be passed on unchanged
                    out.append(('%s[].%s' % (name, fn), True))

    def call_requires(self, eng, c, st):
        out = []
        for nm, a, ct in zip(self.args, c._args, c._cts):
            if nm in self.shape: self.shape_obligations(eng, st, c, self.shape[nm], a, ct, None, nm, out)
        # separation of what is written from everything else
        if not self.alias_ok:
            ws = self.assign_regions(c)
            for i, (nm, a) in enumerate(zip(self.args, c._args)):
                for j, (nm2, a2) in enumerate(zip(self.args, c._args)):
                    if i != j and isinstance(a, E.Ptr) and isinstance(a2, E.Ptr):
                        for _, r, _, _ in a.alts:
                            if r is not None and r.name in ws and not r.name.endswith('!opaque'):
                                for g2, r2, _, _ in a2.alts:
                                    if r2 is r: raise E.Unsupported('aliasing arguments in call of ' + self.fn)
        out += [(l, f) for l, f in self.requires(c)]
        return out

    def assign_regions(self, c):
        out = set()
        for w in self.assigns(c):
            v = w[0]
            for g, r, i, o in v._p.alts:
                if r is not None: out.add(r.name)
        return out

    def norm_assigns(self, c):
        """[(view, path, lo, hi)]"""
        out = []
        for w in self.assigns(c):
            v = w[0]
            fields = w[3] if len(w) > 3 else None
            lo, hi = (w[1], w[2]) if len(w) > 2 else (0, 1)
            for path, ct in c._e.leaves(v._ct):
                if fields is not None and not any(path == '.' + f or path.startswith('.' + f + '.') for f in fields): continue
                out.append((v, v._path + path, lo, hi, ct))
        return out

    def havoc_call(self, eng, c, st):
        byk = {}
        for v, path, lo, hi, ct in self.norm_assigns(c):
            for g, r, i, o in v._p.alts:
                if r is None: continue
                if ct.k == 'ptr' and not getattr(r, 'ptrto', None):
                    continue
                es = eng.f.sizeof(ct) // eng.esize(r) if (r.elem.k == 'int' and r.elem.bits == 8) else 1
                byk.setdefault((r.name, path if r.elem.k == 'struct' else ''), []).append((g, r, i, add(o, mul(lo, es)), add(o, mul(hi, es))))
        for key, ws in byk.items():
            if key not in st.mem: continue
            r = ws[0][1]
            old = st.mem[key]
            if r.fam:
                if len(ws) > 1 and not all(E.same(w[2], ws[0][2]) for w in ws): raise E.Unsupported('family write')
                i = T.zi(ws[0][2])
                inner = z3.Select(old, i)
                new = T.fresh(key[0] + key[1], inner.sort())
                st.mem[key] = z3.Store(old, i, new)
                old = inner
            else:
                new = T.fresh(key[0] + key[1], old.sort())
                st.mem[key] = new
            if eng.dry: continue
            if all(w[4] == add(w[3], 1) if (T.num(w[3]) and T.num(w[4])) else False for w in ws) and len(ws) == 1 and ws[0][0] is True:
                # one cell
                cell = T.fresh('cell', new.sort().range())
                nst = z3.Store(old, T.zi(ws[0][3]), cell)
                if r.fam: st.mem[key] = z3.Store(st.mem[key].arg(0), T.zi(ws[0][2]), nst)
                else: st.mem[key] = nst
                continue
            j = T.fresh('j', T.I)
            outside = And(*[Not(And(w[0], le(w[3], j), lt(j, w[4]))) for w in ws])
            st.assume(z3.ForAll([j], Implies(outside, z3.Select(new, j) == z3.Select(old, j)), patterns=[z3.Select(new, j)]))

    def all_ensures(self, c):
        return list(self.ensures(c))


class Loop:
    """What a contract sees of a loop when it proposes invariants."""
    def __init__(self, eng, st, h, syms, ints):
        self.eng, self.st, self.h, self.syms, self.int_list = eng, st, h, syms, ints
        self.ints = [t for _, t, k in ints]
        self.reals = []
        self.arrs = {}
        self.bools = []
        for k, x in syms.items():
            if x[0] == 'val' and not isinstance(x[1], z3.BoolRef) and x[1].sort() == T.R: self.reals.append(x[1])
            if x[0] == 'val' and isinstance(x[1], z3.BoolRef): self.bools.append(x[1])
            if x[0] == 'mem': self.arrs[k] = x[1]
        self.outer = [x[1] for sy in eng.loopstack for x in sy.values() if x[0] == 'val' and x[1].sort() == T.I]
        # scope values that the loop does not change
        self.scope = [v for n, v in eng.scope_ints(h)]
        self.scope_reals = []
        for k, v in h.env.items():
            if k in eng.ct and eng.ct[k].k == 'float' and T.isz(v) and not any(v is r for r in self.reals): self.scope_reals.append(v)

    def cur(self, v): return v._mk(self.h)
    def start(self, v): return v._mk(self.st)

    def changed(self, v):
        """Is any array behind the view modified by the loop."""
        names = {r.name for _, r, _, _ in v._p.alts if r is not None}
        return any(k[0] in names for k in self.arrs)

    def locals(self, sort=None):
        """Modified arrays that are local variables of the function."""
        return [(k, a) for k, a in self.arrs.items() if k[0].startswith('local ')]


def instantiate(eng, st, h, syms, ints):
    if eng.top is None: return []
    L = Loop(eng, st, h, syms, ints)
    out = []
    seen = []
    for con, c in eng.template_ctxs(h):
        try:
            for lab, f in con.invs(c, L):
                if f is True or f is None: continue
                out.append(('%s: %s' % (con.fn, lab), f))
        except E.Unsupported as e:
            seen.append(str(e))
    return out


# ---------------------------------------------------------------- building the initial state
def build_args(eng, st, con, values=None):
    """Regions for the shape of the contract: fresh (values None) or from concrete values."""
    f = eng.f
    params = f.params(con.fn)
    if len(params) != len(con.args): raise E.Unsupported('%s takes %d parameters' % (con.fn, len(params)))
    cts = []
    for p in params:
        ct = f.type_of(p)
        cts.append(CT('ptr', 64, to=ct.to) if ct.k == 'array' else ct)
    args = [None] * len(cts)
    c = Ctx(eng, con, args, st)
    c._args = args
    conc = values is not None

    def scalar(ct, name, val):
        if conc:
            if ct.k == 'bool': return bool(val)
            return val if not ct.isfloat else (Fraction(val) if not (isinstance(val, float) and (math.isinf(val) or math.isnan(val))) else val)
        return eng.fresh_of(ct, name, st)

    def region(sh, ct, name, owner, val, fam=False, lens=None):
        """ct: pointee type"""
        if conc and isinstance(sh, G): c.__dict__.setdefault('_ghost', {})[sh.gname] = len(val)
        n = lens if fam else sh.length(c, owner)
        r = E.Region(name, ct, n, fam, sh.const)
        eng.regions[name] = r
        if not conc and not fam and T.isz(n): st.assume(ge(n, 0)) if False else None
        for path, lct in eng.leaves(ct):
            if lct.k in ('int', 'bool', 'float'):
                if conc:
                    def pick(v):
                        for q in [x for x in path.split('.') if x]: v = v[q]
                        return scalar(lct, '', v)
                    if fam: st.mem[(name, path)] = [[pick(v) for v in vs] for vs in val]
                    else: st.mem[(name, path)] = [pick(v) for v in val]
                else:
                    st.mem[(name, path)] = T.fresh(name + path, eng.sort_of(lct, fam))
            elif lct.k == 'array':
                sub_ = E.Region(name + path, lct.to, lct.n, False, False)
                eng.regions[name + path] = sub_
                r.sub[path] = sub_
                if conc:
                    v = val[0]
                    for q in [x for x in path.split('.') if x]: v = v[q]
                    st.mem[(name + path, '')] = [scalar(lct.to, '', x) for x in v]
                else:
                    st.mem[(name + path, '')] = T.fresh(name + path, eng.sort_of(lct.to, False))
        # pointer fields
        for path, lct in eng.leaves(ct):
            if lct.k != 'ptr' and lct.k != 'func': continue
            if sh.into:
                r.ptrto = sh.into
                st.mem[(name, path)] = T.fresh(name + path, T.AI)
                continue
            key = path.split('.')[-1] if path else '*'
            fsh = sh.fields.get(key)
            if fsh is None or fsh.opaque:
                st.ptrs[(name, path)] = E.Ptr.to(E.Region(name + path + '!opaque', lct.to or CT('void'), 0))
                continue
            if fam: raise E.Unsupported('nested families')
            if isinstance(n, int) and n == 1:
                ov = View(eng, st, E.Ptr.to(r), ct)
                fv = None
                if conc:
                    fv = val[0]
                    for q in [x for x in path.split('.') if x]: fv = fv[q]
                st.ptrs[(name, path)] = pointer(fsh, lct, name + path, ov, fv)
            else:
                def ln(idx, fsh=fsh, r=r):
                    return fsh.length(c, View(eng, st, E.Ptr.to(r, idx), ct))
                fv = None
                if conc:
                    fv = []
                    for v in val:
                        for q in [x for x in path.split('.') if x]: v = v[q]
                        fv.append(v)
                fr = region(fsh, lct.to, name + path, None, fv, fam=True, lens=ln)
                st.ptrs[(name, path)] = (lambda idx, fr=fr: E.Ptr.to(fr, 0, idx))
        return r

    def pointer(sh, ct, name, owner, val):
        if sh.opaque: return E.Ptr.to(E.Region(name + '!opaque', ct.to or CT('void'), 0))
        if conc and val is None: return E.NULL
        pt = ct.to
        if pt.k == 'void' or pt.k == 'opaque': pt = E.U8
        r = region(sh, pt, name, owner, val)
        if sh.null and not conc:
            b = T.fresh(name + '_null', z3.BoolSort())
            return E.Ptr([(b, None, None, 0), (z3.Not(b), r, None, 0)])
        return E.Ptr.to(r)

    for i, (nm, ct) in enumerate(zip(con.args, cts)):
        if ct.k in ('int', 'bool', 'float'):
            args[i] = scalar(ct, nm, None if not conc else values[nm])
        elif ct.k == 'struct':
            args[i] = {}
            sh = con.shape.get(nm) or S()
            for fn, ft in f.fields(ct.name):
                if ft.k in ('int', 'bool', 'float'): args[i][fn] = scalar(ft, nm + '.' + fn, None if not conc else values[nm][fn])
    for i, (nm, ct) in enumerate(zip(con.args, cts)):
        if ct.k == 'ptr':
            sh = con.shape.get(nm)
            if sh is None: raise E.Unsupported('no shape for parameter %s of %s' % (nm, con.fn))
            args[i] = pointer(sh, ct, nm, None, None if not conc else values[nm])
        elif ct.k == 'struct':
            sh = con.shape.get(nm) or S()
            for fn, ft in f.fields(ct.name):
                if ft.k == 'ptr':
                    args[i][fn] = pointer(sh.fields.get(fn) or P(opaque=True), ft, nm + '.' + fn, SView(eng, st, args[i], ct), None if not conc else values[nm][fn])
                elif ft.k == 'struct':
                    raise E.Unsupported('nested struct parameter')
    return c, args
