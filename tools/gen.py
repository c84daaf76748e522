#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py and checks.py."""
import os, sys, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [p['id'] for p in PROPS]; assert len(set(ids)) == len(ids)
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS: assert len(p['title']) <= 80, p['title']; f.write(json.dumps(p) + '\n')
for p in PROPS:
    for f in p['anchors']['files'] + [m['where'] for m in p['anchors']['mechanism']]:
        assert os.path.exists('/repo/' + f.split(':')[0]), (p['id'], f)
claimed = [i for i in ids if i in CHECKS]
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, 'check under construction')) for i in ids if i not in CHECKS]
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [dict(property=i, quick_cmd='python3 tools/check.py %s quick' % i, thorough_cmd='python3 tools/check.py %s thorough' % i,
     technique=CHECKS[i].technique, level=CHECKS[i].level, level_note=CHECKS[i].note) for i in claimed], 'not_applicable': na}
with open(V + '/MANIFEST.json', 'w') as f: json.dump(m, f, indent=1); f.write('\n')
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in PROPS: jsonschema.validate(p, s)
    print('schemas ok,', len(claimed), 'claimed,', len(na), 'not')
except ImportError: print('jsonschema missing; use python3-vt')
missing = [i for i in CHECKS if i not in ids]
if missing: print('no property text for', missing)
