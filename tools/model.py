"""Run TLC on one bounded model and show its output: model.py NAME [quick|thorough] [seed]"""
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
import json, tempfile  # noqa
import check, gen, plans  # noqa

m = [m for p in plans.PLANS.values() for m in p.mbt if m.name == sys.argv[1]][0]
tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
g = gen.G('%s-%s' % (m.name, sys.argv[3] if len(sys.argv) > 3 else 1))
w = (m.thorough_world if tier != 'quick' and m.thorough_world else m.world)(g)
f = tempfile.NamedTemporaryFile('w', suffix='.json', delete=False)
json.dump(w['world'], f)
f.close()
rc, out = check.tlc(m.module, m.cfg, dict(WORLD=f.name), 8, 850, sys.argv[4:], heap="6g")
os.remove(f.name)
print(out if sys.argv[4:] else out[-6000:])
