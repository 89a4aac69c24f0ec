#!/usr/bin/env python3
"""Development aid: tools/seedtest.py [--fast] [ID...]: for every planted bug, does it build and pass the tests,
does its demonstration tell it apart, and does the check of its property report it?"""
import glob, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fast = '--fast' in sys.argv
extra = [a[8:] for a in sys.argv if a.startswith('--check=')]
ids = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob(V + '/seeded/*/patch.diff'))
def sh(*a, t=900):
    try:
        return subprocess.run(a, cwd='/repo', capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired as e:
        e.returncode = 'timeout'; e.stdout = ''
        return e
for i in ids:
    d = os.path.join(V, 'seeded', i)
    meta = json.load(open(d + '/meta.json'))
    assert not sh('git', 'status', '--porcelain', '-uno').stdout, 'repo not clean'
    out = []
    if not fast:
        r = sh('bash', d + '/demo.sh', t=300)
        out.append('demo clean %s' % r.returncode)
        if r.returncode: print((r.stdout + r.stderr)[-1500:])
    r = sh('git', 'apply', d + '/patch.diff')
    if r.returncode:
        print(i, 'PATCH DOES NOT APPLY', r.stderr); continue
    try:
        if not fast:
            r = sh('bash', '/opt/vp/build.sh'); out.append('build %s' % r.returncode)
            r = sh('bash', '/opt/vp/test.sh', '/tmp/seedtest.json')
            got = set(json.load(open('/tmp/seedtest.json'))['passed'])
            miss = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - got
            out.append('tests %s' % ('ok' if not miss else 'FAIL %s' % sorted(miss)))
            r = sh('bash', d + '/demo.sh', t=300)
            out.append('demo patched %s' % r.returncode)
        for p in [meta['property']] + extra:
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'mc', p], cwd=V, capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith('violated')]
            out.append('%s exit %s %s' % (p, r.returncode, (v or r.stdout.splitlines()[-1:])[0][:160]))
    finally:
        sh('git', 'checkout', '-q', '--', '.')
    print(i, '|', ' | '.join(out), flush=True)
