"""C19 on the compiled functions (the streams are function pointers, which the contract runner does not build)."""
from vc import py


def run(tier, seed, secs):
    dyn = py.rundyn('C19', tier, seed, 60 if tier == 'quick' else 300)
    r = py.collect([], dyn)
    r['bounded'].append(dict(fn="CSV reader and writer, executed", why="bounded: cross-check of the proved contracts and source of failing inputs"))
    return r


def replay(x): return py.rundyn('C19', 'quick', 1, 60, replay=x)['replay']
