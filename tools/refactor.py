"""Rewrites a copy of the package without changing what it does.

    refactor.py DEST MODE...      modes: temps, invert, locals, loops, helpers, private, all

The checks have to stay quiet on the result (MC_REPO=DEST python -m mc Cxx).
"""
import ast, os, re, shutil, sys

REPO = os.environ.get('MC_REPO', '/repo')


class Temps(ast.NodeTransformer):
    """return f(x)  ->  result_ = f(x); return result_"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        return n

    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        return [ast.Assign([ast.Name('result_', ast.Store())], n.value), ast.Return(ast.Name('result_', ast.Load()))]

    def visit_Lambda(self, n):
        return n


class Invert(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        elif len(n.orelse) == 0 and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and len(n.test.values) == 2:
            a, b = n.test.values
            n.test, n.body = a, [ast.If(b, n.body, [])]
        return n


class Loops(ast.NodeTransformer):
    """for x in xs: ...  ->  it_ = iter(xs) ... (only loops without else)"""
    k = 0
    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        Loops.k += 1
        it, end, v = 'it_%d' % Loops.k, 'end_%d' % Loops.k, 'item_%d' % Loops.k
        N = lambda s, c=ast.Load: ast.Name(s, c())
        return [ast.Assign([N(end, ast.Store)], ast.Call(N('object'), [], [])),
                ast.Assign([N(it, ast.Store)], ast.Call(N('iter'), [n.iter], [])),
                ast.While(ast.Constant(True), [
                    ast.Assign([N(v, ast.Store)], ast.Call(N('next'), [N(it), N(end)], [])),
                    ast.If(ast.Compare(N(v), [ast.Is()], [N(end)]), [ast.Break()], []),
                    ast.Assign([n.target], N(v))] + n.body, [])]

    def visit_While(self, n):
        self.generic_visit(n)
        if n.orelse or (isinstance(n.test, ast.Constant) and n.test.value is True):
            return n
        return ast.While(ast.Constant(True), [ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Break()], [])] + n.body, [])


class Locals(ast.NodeTransformer):
    """Renames local variables of functions without nested functions."""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        nested = [x for x in ast.walk(n) if x is not n and isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef))]
        if nested:
            return n
        args = {a.arg for a in n.args.args + n.args.kwonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]}
        gl = {x for g in ast.walk(n) if isinstance(g, (ast.Global, ast.Nonlocal)) for x in g.names}
        loc = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))} - args - gl
        loc = {x for x in loc if not x.startswith('__')}
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = x.id + '_v'
            if isinstance(x, ast.ExceptHandler) and x.name:
                pass
        ex = {x.name for x in ast.walk(n) if isinstance(x, ast.ExceptHandler) and x.name}
        for x in ast.walk(n):
            if isinstance(x, ast.ExceptHandler) and x.name and x.name in loc:
                x.name += '_v'
        return n


class Helpers(ast.NodeTransformer):
    """The body of each method goes to a helper that the method calls."""
    def visit_ClassDef(self, n):
        out = []
        for f in n.body:
            if isinstance(f, ast.FunctionDef) and self.ok(f):
                g = ast.FunctionDef('_%s_%s_body' % (n.name.lower(), f.name.rstrip('_')), f.args, f.body, [], None)
                a = f.args
                call = ast.Call(ast.Attribute(ast.Name(a.args[0].arg, ast.Load()), g.name, ast.Load()),
                                [ast.Name(x.arg, ast.Load()) for x in a.args[1:]] +
                                ([ast.Starred(ast.Name(a.vararg.arg, ast.Load()))] if a.vararg else []),
                                [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs] +
                                ([ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load()))] if a.kwarg else []))
                if n.name == 'ObjectProxy':   # its attributes are remote
                    call.func = ast.Attribute(ast.Name('ObjectProxy', ast.Load()), g.name, ast.Load())
                    call.args.insert(0, ast.Name(a.args[0].arg, ast.Load()))
                doc = [ast.Expr(ast.Constant(ast.get_docstring(f)))] if ast.get_docstring(f) else []
                import copy
                g.args = copy.deepcopy(a)
                g.args.defaults, g.args.kw_defaults = [], [None] * len(a.kwonlyargs)
                if a.posonlyargs:
                    out.append(f)
                    continue
                out += [ast.FunctionDef(f.name, a, doc + [ast.Return(call)], [], None), g]
            else:
                out.append(f)
        n.body = out
        return n

    def ok(self, f):
        if f.decorator_list or not f.args.args or f.args.args[0].arg != 'self':
            return False
        if f.name in ('__init__', '__new__', '__getattr__', '__setattr__', '__getattribute__'):
            return False
        src = ast.unparse(f)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f)):
            return False
        return 'super' not in src and '__class__' not in src and '_getframe' not in src


def private(trees, names):
    for t in trees:
        for x in ast.walk(t):
            if isinstance(x, ast.Attribute) and x.attr in names:
                x.attr += 'x'
            if isinstance(x, ast.keyword):
                pass


def main(dest, modes):
    if 'all' in modes:
        modes = ['temps', 'invert', 'loops', 'locals', 'helpers']
    if os.path.realpath(dest).startswith(('/repo', '/verif')):
        sys.exit('not there')
    if os.path.exists(dest):
        shutil.rmtree(dest)
    shutil.copytree(REPO, dest, symlinks=True)
    M = dict(temps=Temps, invert=Invert, loops=Loops, locals=Locals, helpers=Helpers)
    for d, _, fs in os.walk(dest + '/teleprox'):
        if 'tests' in d:
            continue
        for f in fs:
            if f.endswith('.py'):
                p = os.path.join(d, f)
                t = ast.parse(open(p).read())
                for m in modes:
                    if m in M:
                        t = ast.fix_missing_locations(M[m]().visit(t))
                ast.fix_missing_locations(t)
                open(p, 'w').write(ast.unparse(t) + '\n')


main(sys.argv[1], sys.argv[2:])
