"""Verification of one function against its contract, and of a set of functions in parallel."""
import time, os, traceback, multiprocessing as mp
import z3
from . import terms as T, spec, solve, cfront, contract as C, engine as E
from .terms import And, Or, Not, Implies, lt, le, gt, ge, eq, ne, add, sub

MAXF = 3402823466385288598 * 10**20


def entry(front, contracts, con, bounded=None):
    eng = E.Engine(front, contracts, bounded=bounded)
    eng.top, eng.fn = con, con.fn
    eng.qms = con.qms
    st = E.State()
    st.pc.append(T.INF > 34 * 10**37)
    c, args = C.build_args(eng, st, con)
    for l, f in con.requires(c): st.assume(f)
    con.setup(eng, st, c)
    return eng, st, c, args


def run_body(eng, st, c, args):
    con = eng.top
    pre = st.copy()
    c._pre = pre
    eng.tctx = [(con, c)]
    eng.bind(con.fn, args, st)
    eng.frames.append((con.fn, set(st.env), []))
    outs = eng.exec(eng.f.body(con.fn), st)
    fr = eng.frames.pop()
    return pre, fr[2] + [(s, None) for s in outs]


def frame_goals(con, c, eng, pre, s):
    """Everything that is not assigned is unchanged."""
    w = {}
    for v, path, lo, hi, ct in con.norm_assigns(c):
        for g, r, i, o in v._p.alts:
            if r is None: continue
            es = eng.f.sizeof(ct) // eng.esize(r) if (r.elem.k == 'int' and r.elem.bits == 8) else 1
            w.setdefault((r.name, path if r.elem.k == 'struct' else ''), []).append((g, i, add(o, T.mul(lo, es)), add(o, T.mul(hi, es))))
    out = []
    for key, a0 in pre.mem.items():
        a1 = s.mem.get(key)
        if a1 is None or a1.eq(a0) or key[0].startswith('ghost'): continue
        r = eng.regions[key[0]]
        j = T.fresh('j', T.I)
        if r.fam:
            i = T.fresh('i', T.I)
            inr = And(*[Not(And(g, eq(i, ii), le(lo, j), lt(j, hi))) for g, ii, lo, hi in w.get(key, [])])
            inr = And(inr, ge(j, 0), lt(j, r.len_at(i)))
            out.append(('%s%s not written outside its assigns clause' % key, z3.ForAll([i, j], Implies(inr, z3.Select(z3.Select(a1, i), j) == z3.Select(z3.Select(a0, i), j)))))
            continue
        inr = And(*[Not(And(g, le(lo, j), lt(j, hi))) for g, ii, lo, hi in w.get(key, [])])
        inr = And(inr, ge(j, 0), lt(j, r.length))
        out.append(('%s%s not written outside its assigns clause' % key, z3.ForAll([j], Implies(inr, z3.Select(a1, j) == z3.Select(a0, j)))))
    for key, p in pre.ptrs.items():
        if s.ptrs.get(key) is not p and not E.eqv(s.ptrs.get(key), p):
            allowed = any(key[0] == r.name for x in con.assigns(c) if len(x) > 3 and key[1].split('.')[-1] in x[3] for _, r, _, _ in x[0]._p.alts if r)
            if not allowed: out.append(('pointer %s%s not written' % key, False))
    return out


def generate(front, contracts, con, bounded=None, secs=None):
    eng, st, c, args = entry(front, contracts, con, bounded)
    if secs: eng.deadline = time.time() + secs
    pc0 = list(st.pc)
    pre, rets = run_body(eng, st, c, args)
    for s, v in rets:
        rt = front.rettype(con.fn)
        if rt.k not in ('void',) and v is None and rt.k != 'ptr':
            eng.ob(s, 'return', 'a value is returned on every path', False)
            continue
        c.set_post(s, v)
        for l, f in con.ensures(c): eng.ob(s, 'post', l, f)
        for l, f in frame_goals(con, c, eng, pre, s): eng.ob(s, 'frame', l, f)
    return eng, pc0, rets, c


def verify(front, contracts, con, secs=600, verbose=False):
    t0 = time.time()
    spec.OPAQUE.clear()
    spec.OPAQUE.update(con.opaque)
    res = dict(fn=con.fn, props=list(con.props), obligations=[], error=None, unsupported=None, invs=0, loops=[], inlined=[], called=[])
    try:
        eng, pc0, rets, c = generate(front, contracts, con, secs=secs)
    except (E.Unsupported, cfront.FrontError) as e:
        res['unsupported'] = str(e)
        res['secs'] = time.time() - t0
        return res
    except RecursionError:
        res['unsupported'] = 'expression too deep'
        res['secs'] = time.time() - t0
        return res
    except Exception as e:
        res['unsupported'] = 'engine: ' + repr(e)
        res['trace'] = traceback.format_exc()
        res['secs'] = time.time() - t0
        return res
    t1 = time.time()
    seen = {}
    for o in eng.obs:
        key = (o.kind, o.label, o.goal.get_id(), tuple(p.get_id() for p in o.pc))
        if key not in seen: seen[key] = o
    obs = list(seen.values())

    def one(i):
        o = obs[i]
        if secs - (time.time() - t0) < 5: return 'timeout', '', None, 0
        t = time.time()
        st_, be, model = solve.prove(o.pc, o.goal, ms=con.ms, depth=con.depth)
        return st_, be, (str(model)[:3000] if model is not None and st_ != 'proved' else None), time.time() - t
    for o, r in zip(obs, solve.pmap(one, len(obs))):
        st_, be, model, dt = r or ('unknown', '', None, 0)
        d = dict(kind=o.kind, label=o.label, status=st_, backend=be, secs=round(dt, 3))
        if model: d['model'] = model
        res['obligations'].append(d)
        if verbose and st_ != 'proved': print('  ', con.fn, o.kind, o.label, st_, o.goal)
    # vacuity: the precondition is satisfiable and a return is reachable
    vac = solve.check(pc0, 2000, mbqi=True)[0] == z3.unsat
    if not rets: reach = False
    else: reach = any(solve.check(s.pc, 1000)[0] != z3.unsat for s, v in rets)
    if vac or not reach:
        res['obligations'].append(dict(kind='vacuity', label='contract is satisfiable and a return is reachable', status='failed', backend='z3', secs=0))
    res['invs'] = eng.stats.get('proved_inv', 0)
    res['loops'] = eng.loop_report
    res['inlined'] = sorted(eng.inlined)
    res['called'] = sorted(eng.called)
    res['gen_secs'] = t1 - t0
    res['secs'] = time.time() - t0
    res['solver'] = dict(solve.STATS)
    return res


def failed(res):
    return [o for o in res['obligations'] if o['status'] != 'proved']


_G = {}


def _work(a):
    i, secs = a
    con = _G['cons'][i]
    return verify(_G['front'], _G['contracts'], con, secs)


def verify_all(front, contracts, cons, secs=600, jobs=8):
    _G.update(front=front, contracts=contracts, cons=cons)
    solve.JOBS = max(2, jobs // max(1, len(cons)))
    if len(cons) == 1: return [_work((0, secs))]
    ctx = mp.get_context('fork')
    with ctx.Pool(min(jobs, len(cons))) as p:
        return p.map(_work, [(i, secs) for i in range(len(cons))], chunksize=1)
