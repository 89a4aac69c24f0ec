#!/usr/bin/env python3
"""Development aid: python3 tools/mkseed.py SPEC.py makes seeded/<id>/ from a specification:
ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)...], DEMO (python source)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for spec in sys.argv[1:]:
    g = {}
    exec(open(spec).read(), g)
    d = os.path.join(V, 'seeded', g['ID'])
    os.makedirs(d, exist_ok=True)
    assert not subprocess.check_output(['git', '-C', '/repo', 'status', '--porcelain', '-uno']), 'repo not clean'
    try:
        for f, old, new in g['EDITS']:
            p = os.path.join('/repo', f)
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', '/repo', 'diff'], text=True)
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write(g['DEMO'].lstrip('\n'))
    open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
# run with cwd /repo
export PYTHONDONTWRITEBYTECODE=1 QT_QPA_PLATFORM=offscreen PYTHONPATH=.
export XDG_RUNTIME_DIR=$(mktemp -d)
PY=/opt/venv/bin/python
timeout -k 5 %d $PY "$(dirname "$0")/demo.py"
rc=$?
rm -rf "$XDG_RUNTIME_DIR"
exit $rc
''' % g.get('TIMEOUT', 60))
    json.dump({'property': g['PROPERTY'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    print(g['ID'], diff.count('\n'), 'lines')
