#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks present in checks/."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    f = glob.glob(os.path.join(HERE, 'checks', p['id'].lower() + '_*.py'))
    if not f:
        na.append(dict(property=p['id'], reason='the check for this property is not built yet'))
        continue
    src = open(f[0]).read()
    m = re.search(r'^ORACLE = \(?((?:\s*[\'"].*[\'"]\s*\n?)+)\)?', src, re.M)
    oracle = ''.join(re.findall(r'[\'"](.*?)[\'"]\s*(?:\n|$|\))', m.group(1))) if m else ''
    nlaws = len(re.findall(r'^@R\.law', src, re.M))
    checks.append(dict(
        property=p['id'],
        quick_cmd='./check %s quick' % p['id'],
        thorough_cmd='./check %s thorough' % p['id'],
        evidence_file='evidence/%s.json' % p['id'],
        technique='property-based testing: Hypothesis-generated cases and operation histories, %d laws, '
                  'shrinking to a replay file' % nlaws,
        level='exploration',
        level_note=('Oracle: ' + oracle + '. ' if oracle else '') +
                   'Assurance is that of the generated cases: no violation among the cases counted in the evidence '
                   'file; trusts numpy/scipy float arithmetic, the tolerances in the check and the numba compiler.',
    ))
man = dict(
    version=1,
    setup_cmd='/opt/venv/bin/python -W ignore -c "import sys; sys.path.insert(0, \'lib\'); import vh"',
    checks=checks,
    not_applicable=na,
    notes='One harness (lib/vh.py) runs every check; ./check ID --replay FILE reruns a replay file. '
          'No hooks in /repo: every law observes public behaviour.',
)
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not built')
