"""Write MANIFEST.json from properties.jsonl and the plans."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
import plans  # noqa: E402

TECH = ('explicit TLA+ specification checked with TLC; trace validation: histories of calls '
        'recorded from the real library are checked against the specification')
TECH2 = TECH + '; behaviours generated by TLC are replayed into the library'
props = [json.loads(x) for x in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in props:
    pl = plans.PLANS.get(p['id'])
    if not pl:
        continue
    checks.append(dict(
        property=p['id'], quick_cmd='./check.sh %s quick' % p['id'],
        thorough_cmd='./check.sh %s thorough' % p['id'],
        technique=TECH2 if pl.replays else TECH, level='model_checking', level_note=pl.note))
m = dict(version=1, setup_cmd='./check.sh setup', checks=checks,
         not_applicable=[dict(property=p['id'], reason='check not built yet')
                         for p in props if p['id'] not in plans.PLANS])
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
