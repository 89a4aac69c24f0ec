#!/opt/venv/bin/python
"""Development aid: mechanical mutants of the package against the quick checks.

    automutate.py FILE [--stride=N] [--offset=K] [--j=N] [--list]

Every mutant is one change of the syntax tree (statement dropped, condition fixed, lock
removed, keyword dropped, constant or comparison changed) in a copy of /repo. The checks that deal with
the file run on it until one reports a violation; survivors are printed.
"""
import ast, concurrent.futures, copy, os, shutil, subprocess, sys, time

CHECKS = {
    'client.py': 'C01 C12 C04 C05 C03 C06 C07 C11 C02 C09 C27 C24 C13 C15 C21',
    'server.py': 'C02 C03 C05 C07 C13 C24 C09 C01 C25 C06 C08 C12 C20 C15',
    'proxy.py': 'C09 C11 C08 C07 C20 C24 C12',
    'serializer.py': 'C10 C08 C11 C03 C01 C09',
    'process.py': 'C14 C15 C26 C18 C17 C16',
    'bootstrap.py': 'C14 C15 C25 C17 C18',
    'qt_poll_thread.py': 'C21 C02 C05 C06',
    'qt_server.py': 'C21 C02 C05 C13 C06 C01',
    'qt_util.py': 'C22',
    'shmem.py': 'C23',
    'timer.py': 'C20',
    'util.py': 'C26 C15 C14',
    'log/__init__.py': 'C17 C16 C14',
    'log/handler.py': 'C19',
    'log/remote.py': 'C16 C17 C25 C18 C14',
    'log/stdio.py': 'C18 C14',
}


def mutants(tree):
    """(description, apply) for every mutation."""
    out = []

    def skip(s):
        return (isinstance(s, ast.Expr) and (isinstance(s.value, ast.Constant) or 'logger.' in ast.unparse(s)[:12]))

    def bodies(node):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield b
    fns = [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))]
    seen = set()
    for fn in fns:
        for node in ast.walk(fn):
            if id(node) in seen:
                continue
            seen.add(id(node))
            for b in bodies(node):
                for i, s in enumerate(b):
                    if skip(s):
                        continue
                    if isinstance(s, ast.Expr) or isinstance(s, (ast.Raise, ast.AugAssign, ast.Delete, ast.Break, ast.Continue)) or \
                            isinstance(s, ast.Assign) and not isinstance(s.targets[0], ast.Name):
                        def ap(b=b, i=i):
                            b[i] = ast.copy_location(ast.Pass(), b[i])
                        out.append((s.lineno, 'drop: ' + ast.unparse(s)[:90].replace('\n', ' / '), ap))
                    if isinstance(s, ast.With) and 'lock' in ast.unparse(s.items[0]):
                        def ap(b=b, i=i):
                            b[i:i + 1] = b[i].body
                        out.append((s.lineno, 'no lock: ' + ast.unparse(s.items[0]), ap))
                    if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, ast.Constant):
                        def ap(s=s):
                            s.value = ast.Constant(None)
                        out.append((s.lineno, 'return None: ' + ast.unparse(s)[:70], ap))
                    if isinstance(s, ast.Try) and s.finalbody:
                        def ap(b=b, i=i):
                            t = b[i]
                            f = t.finalbody
                            t.finalbody = []
                            b[i:i + 1] = ([t] if t.handlers else t.body) + f
                        out.append((s.lineno, 'no finally', ap))
            if isinstance(node, (ast.If, ast.While, ast.IfExp)):
                for v in (True, False):
                    if isinstance(node, ast.While) and v or isinstance(node.test, ast.Constant):
                        continue

                    def ap(n=node, v=v):
                        n.test = ast.Constant(v)
                    out.append((node.lineno, 'test %s: %s' % (v, ast.unparse(node.test)[:80]), ap))
            if isinstance(node, ast.BoolOp):
                for k in range(len(node.values)):
                    def ap(n=node, k=k):
                        del n.values[k]
                    out.append((node.lineno, 'without %s: %s' % (ast.unparse(node.values[k])[:40], ast.unparse(node)[:80]), ap))
            if isinstance(node, ast.Compare) and type(node.ops[0]) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
                def ap(n=node):
                    n.ops[0] = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt}[type(n.ops[0])]()
                out.append((node.lineno, 'boundary: ' + ast.unparse(node)[:80], ap))
            if isinstance(node, ast.Call) and 'logger' not in ast.unparse(node.func):
                for k in range(len(node.keywords)):
                    def ap(n=node, k=k):
                        del n.keywords[k]
                    out.append((node.lineno, 'without keyword %s: %s' % (node.keywords[k].arg, ast.unparse(node)[:80]), ap))
            if isinstance(node, ast.Constant) and type(node.value) in (int, float):
                def ap(n=node):
                    n.value = n.value * 10 if n.value else 1
                out.append((node.lineno, 'constant %r' % node.value, ap))
            if isinstance(node, ast.Constant) and type(node.value) is bool:
                def ap(n=node):
                    n.value = not n.value
                out.append((node.lineno, 'constant %r' % node.value, ap))
            if isinstance(node, ast.ExceptHandler) and not (len(node.body) == 1 and isinstance(node.body[0], ast.Raise)):
                def ap(n=node):
                    n.body = [ast.Raise()]
                out.append((node.lineno, 'reraise: except ' + (ast.unparse(node.type) if node.type else ''), ap))
    out.sort(key=lambda x: x[0])
    return out


def run(file, k, jobs):
    text = open('/repo/teleprox/' + file).read()
    tree = ast.parse(text)
    line, what, ap = mutants(tree)[k]
    ap()
    d = '/tmp/am/%s_%d' % (file.replace('/', '_'), k)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    try:
        src = ast.unparse(ast.fix_missing_locations(tree))
        try:
            compile(src, file, 'exec')
        except SyntaxError:
            return line, what, 'syntax'
        open(d + '/teleprox/' + file, 'w').write(src)
        env = dict(os.environ, MC_REPO=d, MC_PROCS=str(max(1, 8 // jobs)), VERIF_SEED='1', VERIF_TIER='quick', MC_OUTDIR=d)
        for c in CHECKS[file].split():
            try:
                p = subprocess.run(['/opt/venv/bin/python', '-m', 'mc', c, 'quick'], cwd='/verif', env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
            except subprocess.TimeoutExpired:
                return line, what, 'TIMEOUT in ' + c
            if p.returncode == 1 and b'VIOLATION' in p.stdout:
                return line, what, 'caught ' + c
            if p.returncode:
                return line, what, 'BROKEN in %s: %s' % (c, p.stdout.decode()[-200:])
        return line, what, 'SURVIVED'
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    opt = dict(a[2:].split('=') for a in sys.argv[1:] if a.startswith('--') and '=' in a)
    jobs = int(opt.get('j', 4))
    for file in [a for a in sys.argv[1:] if not a.startswith('--')]:
        ms = mutants(ast.parse(open('/repo/teleprox/' + file).read()))
        ks = list(range(int(opt.get('offset', 0)), len(ms), int(opt.get('stride', 1))))
        print('==', file, len(ms), 'mutants,', len(ks), 'taken', flush=True)
        if '--list' in sys.argv:
            for k in ks:
                print(k, ms[k][:2])
            continue
        n = {}
        with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
            for k, r in zip(ks, ex.map(lambda k: run(file, k, jobs), ks)):
                n[r[2].split()[0]] = n.get(r[2].split()[0], 0) + 1
                if not r[2].startswith('caught'):
                    print('%s:%d [%d] %s -> %s' % (file, r[0], k, r[1], r[2]), flush=True)
        print('==', file, n, flush=True)
