#!/usr/bin/env python3
"""replay.py <file>: runs a recorded failing input against /repo's current code; exit 1 when it still fails."""
import sys, os, json
HERE = os.path.dirname(os.path.abspath(__file__))
VT = '/opt/veriftools/pyvenv/bin/python3'
try: import z3
except ImportError: os.execv(VT, [VT] + sys.argv)
sys.path.insert(0, HERE)
d = json.load(open(sys.argv[1]))
if 'values' in d:
    from vc import run
    bad = run.replay(d['fn'], d['values'])
    print('skipped (precondition)' if bad is None else '\n'.join(bad) or 'holds')
    sys.exit(1 if bad else 0)
if d.get('input') is not None:
    import importlib
    M = importlib.import_module('pyprops.' + d['property'].lower())
    bad = M.replay(d['input'])
    print(bad or 'holds')
    sys.exit(1 if bad else 0)
print('no failing input recorded; the failed obligations:')
print(json.dumps(d.get('failed'), indent=1)[:5000])
