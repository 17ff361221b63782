"""Generates DESIGN.md from tools/design.md, the planted bugs and the known findings."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(os.path.join(HERE, 'tools', 'design.md')).read()]
recs = [json.loads(x) for x in open(os.path.join(HERE, 'known_findings.jsonl')) if x.strip()]
out.append("\n## 5. Known findings (genuine defects that are not repaired)\n\nListed in `known_findings.jsonl`; their sub-check runs the case and prints KNOWN-FINDING.\n\n")
for r in recs:
    if r['status'] == 'known':
        out.append('* %s `%s` %s: %s\n' % (r['property'], r['sub'], r['case'].replace('`', "'"), r['what']))
out.append("\n## 6. Repaired defects\n\n")
for r in recs:
    if r['status'] == 'fixed':
        out.append('* %s\n' % r['what'])
catches = {}
p = os.path.join(HERE, 'tools', 'catches.json')
if os.path.exists(p):
    catches = json.load(open(p))
out.append("\n## 7. Planted bugs, and what catches them\n\nRun with `tools/trybugs.sh`. All are caught by the quick check of their property unless noted.\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n")
for name in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = json.load(open(os.path.join(HERE, 'seeded', name, 'meta.json')))
    out.append('| %s | %s | %s | %s |\n' % (name, m['property'], m['needs'].replace('|', '/'), catches.get(name, '')))
with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
    f.write(''.join(out))
