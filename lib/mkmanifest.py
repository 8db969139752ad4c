"""rewrites MANIFEST.json from suites.PROPS and properties.jsonl"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from suites import PROPS
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
NA = {}
checks = []
for i in ids:
    if i not in PROPS: continue
    p = PROPS[i]
    checks.append(dict(property=i, quick_cmd='bin/check %s' % i, thorough_cmd='bin/check %s thorough' % i,
        technique=p.get('technique', 'TLA+ specification, TLC-generated histories replayed in larch, recorded traces checked by TLC'),
        level=p.get('level', 'model_checking'), level_note=p['note']))
m = dict(version=1, setup_cmd='bin/setup', checks=checks,
         not_applicable=[dict(property=i, reason=NA.get(i, 'no check has been built for it yet')) for i in ids if i not in PROPS])
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
