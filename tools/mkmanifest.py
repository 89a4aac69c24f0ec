#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist in mc/checks."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    f = '%s/mc/checks/%s.py' % (V, i.lower())
    if not os.path.exists(f):
        na.append({'property': i, 'reason': 'the check for this property is not built yet'})
        continue
    src = open(f).read()
    m = re.search(r"^TECHNIQUE = (?:\(\s*)?((?:\s*'[^\n]*'\s*)+)\)?", src, re.M)
    tech = ''.join(re.findall(r"'([^']*)'", m.group(1))) if m else \
        'stateless model checking of the real code: exhaustive schedules up to a deviation bound in a simulated world'
    m = re.search(r"^NOTE = \((.*?)\)\n", src, re.M | re.S)
    note = ''.join(re.findall(r"'([^'\n]*)'", m.group(1))) if m else \
        ('Every execution within the stated bounds was run on the real teleprox source under a controlled scheduler; '
         'trusted: the simulated zmq/process/clock layer (mc/f*.py) and the bounds.')
    checks.append({'property': i, 'quick_cmd': '%s -m mc %s quick' % (PY, i),
                   'thorough_cmd': '%s -m mc %s thorough' % (PY, i),
                   'evidence_file': 'evidence/%s.json' % i,
                   'technique': tech, 'level': 'model_checking', 'level_note': note})
json.dump({'version': 1,
           'setup_cmd': PY + " -B -c \"import sys, zmq, msgpack, numpy; assert sys.version_info >= (3, 12)\"",
           'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the checks run the unmodified source under mc/ (see DESIGN.md). '
                    'Replay a reported violation with: %s -m mc replay <path>' % PY},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
