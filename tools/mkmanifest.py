#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist in checks/."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(ROOT, 'tools', 'notes.json')))
checks, na = [], []
for l in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    if i in NOTES and os.path.exists(os.path.join(ROOT, 'checks', i + '.py')):
        n = NOTES[i]
        checks.append({'property': i, 'quick_cmd': './run.sh %s quick' % i, 'thorough_cmd': './run.sh %s thorough' % i,
                       'technique': n[0], 'level': n[2] if len(n) > 2 else 'exploration', 'level_note': n[1]})
    else:
        na.append({'property': i, 'reason': NOTES.get('-' + i, 'no check has been built for it yet')})
m = {'version': 1, 'setup_cmd': './setup.sh',
     'hooks': {'guard': 'none', 'enable': 'No hooks: the unmodified sources are built with sanitizers and assertions on and observed from outside.',
               'source_commits': []},
     'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
