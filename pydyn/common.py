"""Bounded part of the Python properties: checks the contract on generated inputs with the real interpreter and library."""
import sys, json, time, random, traceback, warnings
warnings.filterwarnings('ignore')


def main(gen, check, known=None):
    """gen(tier, rng) yields JSON inputs; check(input) gives None or a text saying what failed."""
    cfg = json.load(open(sys.argv[1]))
    out = dict(violations=[], evaluations=0, distinct=0, samples=[])
    def one(x):
        try: return check(x)
        except Exception: return 'unexpected exception: ' + traceback.format_exc()[-1200:]
    if cfg.get('replay') is not None:
        out['replay'] = one(cfg['replay'])
    else:
        t0, rng, seen, kinds = time.time(), random.Random(cfg['seed']), set(), {}
        for x in gen(cfg['tier'], rng):
            x = json.loads(json.dumps(x))
            k = json.dumps(x, sort_keys=True)
            if k in seen: continue
            seen.add(k)
            out['evaluations'] += 1
            d = one(x)
            if out['evaluations'] % 97 == 1 and len(out['samples']) < 6: out['samples'].append(k[:300])
            if d:
                kind = d.split(':')[0]
                if kinds.get(kind, 0) < 3: out['violations'].append(dict(where='python', key=kind, input=x, detail=d))
                kinds[kind] = kinds.get(kind, 0) + 1
                if sum(kinds.values()) > 40: break
            if time.time() - t0 > cfg['secs']: break
        out['distinct'] = len(seen)
    json.dump(out, open(sys.argv[2], 'w'), default=str)
