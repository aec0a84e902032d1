"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIM = {}
exec(open(os.path.join(H, 'tools', 'claims.py')).read())
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIM:
        t, lv, n = CLAIM[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i, evidence_file='evidence/%s.json' % i, technique=t, level=lv, level_note=n))
    else: na.append(dict(property=i, reason=NA.get(i, 'check under construction')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na, notes='See DESIGN.md.'), open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
