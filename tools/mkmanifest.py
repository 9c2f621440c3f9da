#!/usr/bin/env python3
"""writes MANIFEST.json: a check is claimed when checks/<id>.py exists"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
exec(open(os.path.join(V, 'tools', 'notes.py')).read())
m = {'version': 1, 'setup_cmd': 'python3 -m py_compile check.py lib/*.py drivers/*.py checks/*.py && rm -rf __pycache__ lib/__pycache__ drivers/__pycache__ checks/__pycache__',
     'checks': [], 'not_applicable': []}
for l in open(os.path.join(V, 'properties.jsonl')):
    d = json.loads(l); p = d['id']
    if os.path.exists(os.path.join(V, 'checks', p + '.py')) and p in NOTE:
        m['checks'].append({'property': p, 'quick_cmd': 'python3 check.py %s quick' % p, 'thorough_cmd': 'python3 check.py %s thorough' % p,
            'evidence_file': 'evidence/%s.json' % p, 'technique': NOTE[p][0], 'level': 'model_checking', 'level_note': NOTE[p][1]})
    else:
        m['not_applicable'].append({'property': p, 'reason': 'no check built yet'})
m['notes'] = ('TLA+ specifications in spec/, checked and enumerated by TLC; behaviours of the specifications are replayed in the real code '
              '(compiled from /repo at every run, with binding units of /verif/cpp; nothing is added to /repo, so no hooks).')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not claimed')
