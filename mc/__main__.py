import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0' or os.environ.get('MC_CHILD') != '1':
    env = dict(os.environ, PYTHONHASHSEED='0', MC_CHILD='1', PYTHONDONTWRITEBYTECODE='1',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    os.execve(sys.executable, [sys.executable, '-B', '-m', 'mc'] + sys.argv[1:], env)

from . import runner  # noqa: E402

a = sys.argv[1:]
if a[0] == 'replay':
    rc = runner.replay(a[1])
else:
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    rc = runner.check(a[0], tier)
sys.stdout.flush()
os._exit(rc)
