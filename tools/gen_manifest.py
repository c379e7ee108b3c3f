#!/usr/bin/env python3
"""writes properties.jsonl, MANIFEST.json and the fixed entries of known_findings.json from the
tables below (development tool; the checks do not use it)"""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from harness_registry import MODULES  # noqa

P = 'sciencebeam_trainer_grobid_tools/'


def prop(id, title, statement, over, text, why, files, mech):
    return {
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
        'anchors': {
            'files': [P + f for f in files],
            'mechanism': [{'name': n, 'where': P + w} for n, w in mech],
        },
    }


from properties_table import PROPS, NOT_APPLICABLE, FIXED  # noqa

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        e = prop(**{k: v for k, v in p.items() if k not in ('note',)})
        assert len(e['title']) <= 80, e['title']
        f.write(json.dumps(e) + '\n')

PY = '/opt/venv/bin/python /verif/check.py'
checks = []
for p in PROPS:
    i = p['id']
    if i not in MODULES:
        assert i in NOT_APPLICABLE, i
        continue
    checks.append({
        'property': i,
        'quick_cmd': '%s %s --tier quick' % (PY, i),
        'thorough_cmd': '%s %s --tier thorough' % (PY, i),
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'solver-based checking: symbolic execution of the real Python source with z3 '
                     'deciding path feasibility and every assertion over symbolic inputs within '
                     'bounds; counterexamples replayed on the unmodified code',
        'level': 'model_checking',
        'level_note': p['note'],
    })
fixes = []
log = subprocess.check_output(
    ['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines()
for line in reversed(log):
    h, s = line.split(' ', 1)
    if s.startswith('fix: '):
        assert s[5:] in FIXED, s
        fixes.append('fixed: property=%s %s %s' % (FIXED[s[5:]][0], h, FIXED[s[5:]][1]))
man = {
    'version': 1,
    'setup_cmd': '/opt/venv/bin/python /verif/selftest.py',
    'checks': checks,
    'hooks': {'guard': 'none', 'enable': 'none', 'source_commits': []},
    'not_applicable': [{'property': k, 'reason': v} for k, v in NOT_APPLICABLE.items()],
}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
kp = os.path.join(V, 'known_findings.json')
k = json.load(open(kp))
k['fixed'] = fixes
with open(kp, 'w') as f:
    json.dump(k, f, indent=1)
    f.write('\n')
