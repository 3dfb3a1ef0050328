#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of built checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NET = ('TLA+ tensor-heap state machine (CtlNet): TLC model checking of the closed model, model behaviours replayed on the real '
       'library, and recorded random histories validated by TLC trace checking')
NETNOTE = ('Exhaustive over MCNet to the stated depth; sampled over longer histories (seeded). Entries are Gaussian integers so '
           'comparison is exact. Trusts the projection of real tensors to spec states (harness/net.py) and TLC.')
T = {p: (NET, NETNOTE) for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C16', 'C17', 'C18')}
exec(open(os.path.join(V, 'tools', 'techniques.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'techniques.py')) else None
checks, na = [], []
for p in props:
    i = p['id']
    if i in T:
        checks.append(dict(property=i, quick_cmd='/opt/venv/bin/python check.py %s quick' % i,
                           thorough_cmd='/opt/venv/bin/python check.py %s thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=T[i][0], level='model_checking', level_note=T[i][1]))
    else:
        na.append(dict(property=i, reason='not claimed yet: its specification module is still being built'))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python -c "import numpy" && java -version', hooks=dict(
    guard='none', enable='no hooks: every check observes public state only', source_commits=[]),
    checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
