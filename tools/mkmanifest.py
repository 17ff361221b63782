"""Regenerates MANIFEST.json from the modules that exist."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import importlib                                    # noqa: E402
from vf import env, core, run                       # noqa: E402,F401
NOTES = json.load(open(os.path.join(HERE, 'tools', 'notes.json')))
props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
for m in sorted(set(run.MODULES.values())):
    if os.path.exists(os.path.join(HERE, 'vf', m + '.py')):
        importlib.import_module('vf.' + m)
checks, na = [], []
for p in props:
    i = p['id']
    if i in core.REG:
        checks.append(dict(property=i, quick_cmd='./check.sh ' + i, thorough_cmd='./check.sh %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique=NOTES.get(i, {}).get('technique', 'property-based testing (Hypothesis generators, explicit oracle)'),
                           level='exploration',
                           level_note=NOTES.get(i, {}).get('level_note', 'generated cases against the oracle described in DESIGN.md; bounded size of the inputs')))
    else:
        na.append(dict(property=i, reason='check under construction'))
m = dict(version=1, setup_cmd="python3-vt -c 'import hypothesis'", checks=checks, not_applicable=na)
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
