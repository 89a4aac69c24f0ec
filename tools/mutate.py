#!/opt/venv/bin/python
"""Run the quick checks against mutants (see mutants.py).

    mutate.py [--j=N] [--tests] [C01 C02 ...] [--only=3,5]

Each mutant is applied to a copy of /repo under /tmp/mut; prints whether the check
of its property reports a violation. (--tests also runs the stable tests on the copy.)
"""
import os, shutil, subprocess, sys, concurrent.futures, json, re, time
sys.path.insert(0, os.path.dirname(__file__))
from mutants import M, R2

JOBS = 2
args = []
only = None
r2 = False
for a in sys.argv[1:]:
    if a == "--r2":
        r2 = True
    elif a.startswith("--j="):
        JOBS = int(a[4:])
    elif a.startswith('--only='):
        only = set(int(x) for x in a[7:].split(','))
    else:
        args.append(a)
PROCS = str(max(1, 8 // JOBS))


def run(n, k, prop, edits):
    d = '/tmp/mut/%d' % n
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    try:
        for file, old, new in edits:
            path = d + '/teleprox/' + file
            text = open(path).read()
            if text.count(old) != 1:
                return 'DOES-NOT-APPLY (%d) %s: %r' % (text.count(old), file, old[:60])
            text = text.replace(old, new)
            open(path, 'w').write(text)
            compile(text, path, 'exec')
        t = time.time()
        env = dict(os.environ, MC_REPO=d, MC_PROCS=PROCS, VERIF_SEED='1', VERIF_TIER='quick',
                   MC_OUTDIR=d)
        try:
            p = subprocess.run(['/opt/venv/bin/python', '-m', 'mc', prop, 'quick'], cwd='/verif', env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
            out, rc = p.stdout.decode(), p.returncode
        except subprocess.TimeoutExpired as exc:
            out, rc = (exc.stdout or b'').decode(), 'timeout'
        t = time.time() - t
        viol = [l for l in out.splitlines() if l.startswith('VIOLATION')]
        if rc == 1 and viol:
            return 'caught (%d s)' % t
        return 'MISSED rc=%s (%d s) %s' % (rc, t, out.strip().splitlines()[-1:] )
    except SyntaxError as exc:
        return 'SYNTAX %s' % exc
    finally:
        shutil.rmtree(d, ignore_errors=True)


todo = []
count = {}
for n, (prop, edits) in enumerate(M):
    k = count[prop] = count.get(prop, 0) + 1
    if (not r2 or n >= R2) and (not args or prop in args) and (only is None or k in only):
        todo.append((n, k, prop, edits))
with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
    futs = [(t, ex.submit(run, *t)) for t in todo]
    for (n, k, prop, edits), f in futs:
        print(prop, k, f.result(), '|', edits[0][0], edits[0][2].strip().replace('\n', ' / ')[:90], flush=True)
