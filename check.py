#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property of /repo's current tree.

1. every function under contract for the property is verified deductively from the AST of its current source
   (vc/verify.py); every obligation must be discharged by the SMT solvers;
2. the same contracts are evaluated on runs of the compiled functions (vc/run.py): this cross-checks the contracts and
   the verifier's semantics, and gives a failing input when an obligation fails;
3. Python functions: see pyprops/<property>.py.
Exit 0: every obligation discharged (or a known finding). Exit 1: VIOLATION line."""
import sys, os, json, time, argparse, multiprocessing as mp, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
VT = '/opt/veriftools/pyvenv/bin/python3'
if 'z3' not in sys.modules:
    try: import z3
    except ImportError: os.execv(VT, [VT] + sys.argv)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from vc import cfront, verify, run, spec, solve, libc, engine, terms as T


def known_findings():
    p = os.path.join(HERE, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def verify_bg(conn, front, contracts, cons, secs, jobs):
    try: conn.send(verify.verify_all(front, contracts, cons, secs, jobs))
    except BaseException as e: conn.send(repr(e))
    conn.close()


def proof_part(pid, front, contracts, cons, secs, jobs=8):
    a, b = mp.Pipe()
    p = mp.get_context('fork').Process(target=verify_bg, args=(b, front, contracts, cons, secs, jobs))
    p.start()
    b.close()
    return p, a


def lemma_part(cons):
    """Induction steps of lemmas about specification functions that the contracts of these modules use."""
    out = []
    for f in spec.FOLDS.values():
        for label, hyp, goal in f.lemmas():
            t = time.time()
            st, be, m = solve.prove([T.zb(h) for h in hyp], T.zb(goal), ms=5000)
            out.append(dict(kind='lemma', label=label, status=st, backend=be, secs=round(time.time() - t, 3)))
    for m in {c.__module__ for c in cons}:
        for label, hyp, goal in getattr(sys.modules[m], 'LEMMAS', list)():
            t = time.time()
            st, be, mo = solve.prove([T.zb(h) for h in hyp], T.zb(goal), ms=10000)
            out.append(dict(kind='lemma', label=label, status=st, backend=be, secs=round(time.time() - t, 3)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid, tier, seed = a.property, a.tier if a.tier in ('quick', 'thorough') else 'quick', a.seed
    t0 = time.time()
    contracts = run.all_contracts()
    cons = [c for c in contracts.values() if pid in c.props]
    ev = dict(functions=[], bounded=[], unattached=[], violations=[])
    trusted = ['clang-18 front end (AST, type layout)', 'vc/ (verification condition generator)', 'z3 5.3 / cvc5 1.1']
    assumptions = []
    obligations = discharged = 0
    backends, solver_s = {}, 0.0
    viol = []            # dict(where, detail, values?) ; with values -> failing input
    samples, evaluations, distinct = [], 0, 0
    notes = []

    def add_obs(name, obs):
        nonlocal obligations, discharged, solver_s
        ok = [o for o in obs if o['status'] == 'proved']
        obligations += len(obs)
        discharged += len(ok)
        for o in obs:
            solver_s += o.get('secs') or 0
            if o['status'] == 'proved': backends[o.get('backend') or 'simplifier'] = backends.get(o.get('backend') or 'simplifier', 0) + 1
        return [o for o in obs if o['status'] != 'proved']

    if cons:
        try:
            front = cfront.load()
        except cfront.FrontError as e:
            print('front end: %s' % e)
            front = None
        if front is None:
            rp = write_replay(pid, dict(kind='front end', detail='the sources could not be parsed'))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
            evidence(pid, tier, seed, t0, 'proof', dict(obligations=1, discharged=0, checker_cmd='clang-18', trusted_base=trusted), [], 1)
            return 1
        present = [c for c in cons if c.fn in front.functions]
        ev['unattached'] = [c.fn for c in cons if c.fn not in front.functions]
        provable = [c for c in present if not getattr(c, 'bounded_only', None)]
        provable.sort(key=lambda c: -getattr(c, 'cost', 1))
        ev['bounded'] += [dict(fn=c.fn, why=c.bounded_only) for c in present if getattr(c, 'bounded_only', None)]
        ev['bounded'] += [dict(fn=c.fn, why=c.partial) for c in present if getattr(c, 'partial', None)]
        fns = [c.fn for c in present]
        secs = 420
        p, conn = proof_part(pid, front, contracts, provable, secs)
        dyn = run.search(fns, seed=seed, secs=40 if tier == 'quick' else 150, maxcases=400 if tier == 'quick' else 5000)
        lem = lemma_part(cons)
        bad = add_obs('lemmas', lem)
        for o in bad: viol.append(dict(where='lemma', obligation=o))
        res = conn.recv()
        p.join()
        if isinstance(res, str): raise RuntimeError(res)
        if dyn['status'] == 'error': print('dynamic part: ' + dyn['error'][-1500:])
        failing = [(c, r) for c, r in zip(provable, res) if r['unsupported'] or verify.failed(r)]
        if failing and dyn['status'] == 'ok':
            # look harder for a failing input, and prove again with more time (a loaded machine must not raise an alarm)
            want = [c.fn for c, r in failing]
            d2 = run.search(want, seed=seed + 1000, secs=60, maxcases=100000)
            if d2['status'] == 'violation': dyn = d2
            else:
                again = [c for c, r in failing if not r['unsupported']]
                left = 800 - (time.time() - t0)
                if again and left > 60:
                    for c in again: c.ms = c.ms * 3
                    redo = dict(zip([c.fn for c in again], verify.verify_all(front, contracts, again, min(left - 20, 300), 8)))
                    res = [redo.get(r['fn'], r) if r['fn'] in redo and len(verify.failed(redo[r['fn']])) <= len(verify.failed(r)) else r for r in res]
        for c, r in zip(provable, res):
            bad = add_obs(c.fn, r['obligations'])
            f = dict(fn=c.fn, obligations=len(r['obligations']), discharged=len(r['obligations']) - len(bad), loops=r['loops'], invariants=r['invs'],
                     inlined=r['inlined'], callees_by_contract=r['called'], secs=round(r['secs'], 1))
            if r['unsupported']:
                f['unsupported'] = r['unsupported']
                ev['bounded'].append(dict(fn=c.fn, why='not expressible for the verifier: ' + r['unsupported']))
                print('note: %s is outside the verified subset (%s): decided by bounded execution of its contract' % (c.fn, r['unsupported']))
                if a.v and r.get('trace'): print(r['trace'])
            ev['functions'].append(f)
            for o in bad: viol.append(dict(where=c.fn, obligation=o))
            for x in r['called'] + r['inlined']:
                if x in libc.TRUSTED: assumptions.append('%s: %s' % (x, libc.TRUSTED[x]))
        if dyn['status'] == 'violation':
            viol.insert(0, dict(where=dyn['fn'], fn=dyn['fn'], values=dyn['values'], clauses=dyn['clauses']))
        for k, v in (dyn.get('res') or {}).items():
            evaluations += v[0]
            distinct += v[0]
        samples.append(dict(run=dyn.get('res'), status=dyn['status']))
        assumptions += engine_assumptions()
    pyp = os.path.join(HERE, 'pyprops', pid.lower() + '.py')
    level = 'proof'
    if os.path.exists(pyp):
        M = importlib.import_module('pyprops.' + pid.lower())
        r = M.run(tier, seed, 800 - (time.time() - t0))
        bad = add_obs('python', r.get('obligations', []))
        for o in bad: viol.append(dict(where='python', obligation=o))
        for v in r.get('violations', []): viol.insert(0, v)
        ev['functions'] += r.get('functions', [])
        ev['bounded'] += r.get('bounded', [])
        assumptions += r.get('assumptions', [])
        trusted += r.get('trusted', [])
        evaluations += r.get('evaluations', 0)
        distinct += r.get('distinct', r.get('evaluations', 0))
        samples += r.get('samples', [])
        ev.update(r.get('extra', {}))
        level = r.get('level', level)
    if not obligations: level = 'exploration'
    # ---- known findings
    real = []
    for v in viol:
        k = match_known(pid, v)
        if k: print('KNOWN-FINDING: property=%s %s' % (pid, k))
        else: real.append(v)
    with_input = [v for v in real if 'values' in v or v.get('input') is not None]
    cov = dict(obligations=obligations, discharged=discharged, checker_cmd='python3 check.py %s --tier %s' % (pid, tier), trusted_base=trusted,
               backends=backends, solver_s=round(solver_s, 1), functions_under_contract=len(ev['functions']), evaluations=evaluations, distinct_nontrivial=distinct,
               rule='random well-formed inputs of each contract (seeded) on the compiled function; counted when the precondition holds; all drawn independently',
               samples=samples[:6] or [dict(none=True)], **ev)
    cov.pop('violations', None)
    evidence(pid, tier, seed, t0, level, cov, sorted(set(assumptions)), len(real))
    if not real:
        print('%s: %d obligations discharged (%s), %d functions, %d contract evaluations, %.0f s' % (pid, discharged, ', '.join('%s %d' % x for x in backends.items()), len(ev['functions']), evaluations, time.time() - t0))
        return 0
    for v in real[:12]: print('failed: %s %s' % (v['where'], json.dumps(v.get('clauses') or v.get('obligation') or v.get('detail'))[:600]))
    if with_input:
        rp = write_replay(pid, dict(with_input[0], others=[v for v in real if v is not with_input[0]][:20]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    else:
        rp = write_replay(pid, dict(kind='obligations', failed=real[:40]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
    return 1


def engine_assumptions():
    return ['float arithmetic is treated as real arithmetic (no rounding); INFINITY is a real above every finite float, NAN a separate value; inputs are finite',
            'machine integers are mathematical integers with an obligation that no signed operation overflows; shifting a negative value left multiplies it (as gcc and clang define it)',
            'pointer parameters refer to separate objects (as the generated code does), except where a contract says otherwise',
            'default precision CPU, no interrupts modifying the buffers']


def match_known(pid, v):
    for k in known_findings():
        if k.get('status') == 'fixed' or k.get('property') != pid: continue
        if k.get('where') == v.get('where') and k.get('key') == v.get('key') and k.get('key') is not None: return k['what']
    return None


def write_replay(pid, d):
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    p = os.path.join(HERE, 'replays', pid + '.json')
    json.dump(dict(property=pid, how='python3 /verif/replay.py ' + p, **d), open(p, 'w'), indent=1, default=str)
    return p


def evidence(pid, tier, seed, t0, level, cov, assumptions, nviol):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions, wall_s=round(time.time() - t0, 1), violations=nviol),
              open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1, default=str)


if __name__ == '__main__':
    sys.exit(main())
