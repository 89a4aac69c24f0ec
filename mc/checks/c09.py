"""C09: operating on a proxy gives the same result as on the object."""
import warnings

from ..harness import Sys, pick, serve, eq, true

ASSUMPTIONS = [
    'one client and one server; values from a fixed set with one or more representatives per code path',
    'operations that the plain left operand carries out alone (formatting with %, numpy arrays, in-place forms) '
    'are not operations on the proxy',
]
TECHNIQUE = ('exhaustive enumeration of operators, operand pairs, sides, attribute chains and call signatures, each '
             'executed through the real client and server and compared with the same operation on the object itself '
             '(result or exception type, and effect on the remote object)')

warnings.simplefilter('ignore')


class Cmp(Sys):
    opts = {'max_steps': 1000000, 'fairq': False}

    def up(self, w):
        self.w = w
        warnings.simplefilter('ignore')
        self.rec = serve(w)
        self.servers = {self.rec.addr: self.rec}
        self.rec.img.import_module('mct_ops')
        self.ops = self.rec.img.modules['mct_ops']
        self.c = w.tp.RPCClient(self.rec.addr)
        self.t = self.c._import('mct_ops')
        self.P = w.tp.ObjectProxy

    def real(self, r):
        """The object a result stands for."""
        if type(r) is self.P:
            return self.servers[r._rpc_addr].srv.unwrap_proxy(r)
        if type(r) is list:
            return [self.real(x) for x in r]
        return r

    def same_error(self, err, name, what):
        eq(err.type_str, name, '%s: exception type' % what)

    def both(self, what, remote, local, pairs=(), native=False):
        """remote() and local() must do the same."""
        self.w.cases += 1
        try:
            want, werr = local(), None
        except Exception as e:
            want, werr = None, e
        try:
            got, gerr = remote(), None
        except self.w.tp.RemoteCallException as e:
            got, gerr = None, e
        except Exception as e:
            if native and werr is not None and type(e).__name__ == type(werr).__name__:
                return              # an operation on a value that is here already
            true(False, '%s: raised %s: %s' % (what, type(e).__name__, str(e)[:150]))
        st = self.ops.state
        if werr is not None:
            true(gerr is not None, '%s: returned %r, but the object itself raises %s' % (
                what, got, type(werr).__name__))
            self.same_error(gerr, type(werr).__name__, what)
        else:
            true(gerr is None, '%s: raised %s, but on the object itself it returns %r' % (
                what, gerr and gerr.type_str + str(gerr)[-120:], want))
            eq(st(self.real(got)), st(want), '%s: result' % what)
        for p, o in pairs:
            eq(st(self.rec.srv.unwrap_proxy(p)), st(o), '%s: the object afterwards' % what)


class Operators(Cmp):
    name = 'operators'

    def main(self, w):
        w.img.import_module('mct_ops')
        O = w.img.modules['mct_ops']
        names = list(O.BINARY) + list(O.INPLACE)
        n = names[pick(w, len(names), 'operator')]
        i = pick(w, len(O.VALUES), 'left')
        self.up(w)
        op = O.BINARY.get(n) or O.INPLACE[n]
        new = self.ops.fresh
        t = self.t
        for j in range(len(O.VALUES)):
            p, o = t.fresh(i, _return_type='proxy'), new(i)
            what = '%s(%r, %r)' % (n, self.ops.VALUES[i], self.ops.VALUES[j])
            if i != j or n not in ('eq', 'ne', 'le', 'ge'):
                q, r = t.fresh(j, _return_type='proxy'), new(j)
                self.both(what + ' of two proxies', lambda: op(p, q), lambda: op(o, r), [(p, o), (q, r)])
            if j < O.N_PLAIN:
                p, o = t.fresh(i, _return_type='proxy'), new(i)
                self.both(what + ' of proxy and value', lambda: op(p, new(j)), lambda: op(o, new(j)), [(p, o)])
            if i < O.N_PLAIN and n in O.BINARY and not (n == 'mod' and isinstance(O.VALUES[i], (str, bytes))) \
                    and not hasattr(O.VALUES[i], 'dtype'):
                q, r = t.fresh(j, _return_type='proxy'), new(j)
                self.both(what + ' of value and proxy', lambda: op(new(i), q), lambda: op(new(i), r), [(q, r)])
        if n == 'pow':
            p, o = t.fresh(i, _return_type='proxy'), new(i)
            self.both('pow(%r, 3, 5)' % (O.VALUES[i],), lambda: pow(p, 3, 5), lambda: pow(o, 3, 5))
        w.note(n, i)


class Across(Cmp):
    """The operands belong to two servers."""
    name = 'across'

    def same_error(self, err, name, what):
        # (raised by the one server, or by the one and passed on by the other)
        true(err.type_str == name or err.type_str == 'RemoteCallException',
             '%s: raised %s, expected %s' % (what, err, name))
        true('RecursionError' not in str(err), '%s: ends in RecursionError' % what)

    def main(self, w):
        w.img.import_module('mct_ops')
        O = w.img.modules['mct_ops']
        n = list(O.BINARY)[pick(w, len(O.BINARY), 'operator')]
        self.up(w)
        op, new = O.BINARY[n], self.ops.fresh
        rec2 = serve(w, 'other')
        self.servers[rec2.addr] = rec2
        t2 = w.tp.RPCClient(rec2.addr)._import('mct_ops')
        for i, a in enumerate(O.VALUES):
            if hasattr(a, 'dtype') or n == 'mod' and isinstance(a, (str, bytes)):
                continue
            p, o = self.t.fresh(i, _return_type='proxy'), new(i)
            for j, b in enumerate(O.VALUES):
                q, r = t2.fresh(j, _return_type='proxy'), new(j)
                what = '%s(%r, %r) on two servers' % (n, a, b)
                if i < O.N_PLAIN:
                    # a value, so it can be brought to the other operand
                    self.both(what, lambda: op(p, q), lambda: op(o, r), [(p, o)])
                    continue
                if hasattr(b, 'dtype'):
                    continue            # (arrays take a proxy for a sequence)
                # the left operand sees an object of a type it does not know
                w.cases += 1
                try:
                    got = self.real(op(p, q))
                except w.tp.RemoteCallException as e:
                    self.same_error(e, 'TypeError', what)
                    true(n not in ('eq', 'ne'), '%s raised %s' % (what, e))
                    continue
                if type(a) is O.Num:
                    eq([got[0].strip('_'), got[1]], [n.strip('_'), a.v], '%s: result' % what)
                elif type(b) is O.Num and type(got) is list:
                    eq(got[1], b.v, '%s: result' % what)
                elif n in ('eq', 'ne'):
                    true(got is (n == 'ne') or got == op(o, r), '%s returned %r' % (what, got))
                else:
                    try:
                        want = op(o, r)
                    except TypeError:
                        true(False, '%s returned %r, but the objects cannot be combined' % (what, got))
                    eq(self.ops.state(got), self.ops.state(want), '%s: result' % what)
        w.note(n)


class Items(Cmp):
    name = 'items'

    def main(self, w):
        w.img.import_module('mct_ops')
        O = w.img.modules['mct_ops']
        i = pick(w, len(O.VALUES), 'value')
        self.up(w)
        t, new = self.t, self.ops.fresh
        for n, f in O.UNARY.items():
            p, o = t.fresh(i, _return_type='proxy'), new(i)
            p._set_proxy_options(safe_print=False)
            if n == 'str' and isinstance(o, self.ops.Bare):
                continue
            self.both('%s(%r)' % (n, O.VALUES[i]), lambda: f(p), lambda: f(o))
        for k in O.KEYS:
            p, o = t.fresh(i, _return_type='proxy'), new(i)
            what = '%r[%r]' % (O.VALUES[i], k)
            self.both(what, lambda: p[k], lambda: o[k])
            for v in (9, [4], 'z'):
                def rset():
                    p[k] = v

                def lset():
                    o[k] = v
                self.both('%s = %r' % (what, v,), rset, lset, [(p, o)])
            self.both(what + ' afterwards', lambda: p[k], lambda: o[k])
        w.note(i)


class Attributes(Cmp):
    name = 'attributes'

    def main(self, w):
        defer = pick(w, 2, 'defer')
        names = ('left', 'right', 'name', 'val', 'data', 'prop', 'bad', 'nothing', 'text', '__class__x', '__tag__')
        a = names[pick(w, len(names), 'first')]
        self.up(w)
        t = self.t
        for b in (None,) + names[:9]:
            for c in (None,) + (names[:9] if b is not None else ()):
                path = [x for x in (a, b, c) if x]
                o = self.ops.tree()
                p = t.tree()
                if not defer:
                    p._set_proxy_options(defer_getattr=False)
                    # (a proxy returned by an immediate lookup defers again)

                def walk(x):
                    for n in path:
                        x = getattr(x, n)
                    return x

                def get(x):
                    x = walk(x)
                    return x._get_value() if type(x) is self.P and x._attributes else x
                what = '.'.join(['tree'] + path)
                if 'text' in path or path[-1] in ('left', 'right'):
                    # not a value: only its existence can be compared
                    def ex(f, x):
                        f(x)
                        return True
                    self.both(what, lambda: ex(lambda x: x._undefer() if type(x) is self.P else x, walk(p)),
                              lambda: ex(walk, o), native=not defer)
                else:
                    self.both(what, lambda: get(p), lambda: walk(o), native=not defer)
                for v in (8, 'new', [1]):
                    def sets(x):
                        for n in path[:-1]:
                            x = getattr(x, n)
                        setattr(x, path[-1], v)
                    if not defer and len(path) > 1 and path[0] in ('name', 'val', 'data', 'prop'):
                        continue        # the value is here already
                    self.both('%s = %r' % (what, v,), lambda: sets(p), lambda: sets(o), [(p, o)], native=not defer)
        w.note(a, defer)


class Calls(Cmp):
    name = 'calls'
    KW = ('c', 'b', 'self', 'args', 'kwargs', 'obj', 'sync', 'timeout', 'return_type', 'opts', 'name', 'a')

    def main(self, w):
        w.img.import_module('mct_ops')
        O = w.img.modules['mct_ops']
        fns = list(O.FUNCS)
        fn = fns[pick(w, len(fns), 'function')]
        how = ('proxy', 'call_obj', 'async')[pick(w, 3, 'how')]
        self.up(w)
        f = self.t.get_func(fn, _return_type='proxy')
        g = self.ops.FUNCS[fn]
        vals = (3, 'q', [1, 2], None, {'d': (1, 2)})
        pos = [()] + [(v,) for v in vals] + [(3, v) for v in vals]
        kws = [{}] + [{k: v} for k in self.KW for v in (3, None, 0, False, '')] + [{k: 'w', l: [5]} for k in self.KW[:4] for l in self.KW[3:6] if k != l]
        for a in pos:
            for k in kws:
                what = '%s(*%r, **%r) by %s' % (fn, a, k, how)
                if how == 'proxy':
                    r = lambda: f(*a, **k)
                elif how == 'async':
                    r = lambda: f(*a, _sync='async', **k).result(5)
                elif k:
                    r = lambda: self.c.call_obj(f, a, k)
                elif a:
                    r = lambda: self.c.call_obj(f, a)
                else:
                    r = lambda: self.c.call_obj(f)
                self.both(what, r, lambda: g(*a, **k))
        w.note(fn, how)


SOURCES = {
    'value': lambda a, b: 11, 'list': lambda a, b: [5, 'u'], 'none': lambda a, b: None,
    'a': lambda a, b: a, 'b': lambda a, b: b,
    'a.left': lambda a, b: a.left, 'b.left': lambda a, b: b.left, 'b.right': lambda a, b: b.right,
    'a.val': lambda a, b: a.val, 'b.val': lambda a, b: b.val, 'a.data': lambda a, b: a.data, 'b.data': lambda a, b: b.data,
    'b.left.data': lambda a, b: b.left.data, 'b.left.val': lambda a, b: b.left.val, 'b.prop': lambda a, b: b.prop,
    'b.bad': lambda a, b: b.bad, 'b.nothing': lambda a, b: b.nothing, 'b.text': lambda a, b: b.text,
    'b.text()': lambda a, b: b.text('y', b=b.val), 'b.data[0]': lambda a, b: b.data[0], 'b.data[7]': lambda a, b: b.data[7],
    '[b.left]': lambda a, b: [b.left], "{'k': a.data}": lambda a, b: {'k': a.data}, '(b, [a.right])': lambda a, b: (b, [a.right]),
}
TARGETS = ('a.left', 'a.val', 'a.data', 'a.prop', 'a.new', 'a.left.val', 'a.left.left', 'b.left', 'b.left.data', 'b.nothing.val',
           'a.data[0]', 'a.data[:]', 'a.left.data[1:]', 'b.data[9]', 'a.left[0]', 'b.data[b.val]')


def assign(target, a, b, v):
    """target = v"""
    if target.endswith(']'):
        base, k = target[:-1].split('[')
        x = {'a': a, 'b': b}[base[0]]
        for n in base.split('.')[1:]:
            x = getattr(x, n)
        x[{'0': 0, ':': slice(None), '1:': slice(1, None), '9': 9}[k] if k != 'b.val' else b.val] = v
        return
    *path, last = target.split('.')
    x = {'a': a, 'b': b}[path[0]]
    for n in path[1:]:
        x = getattr(x, n)
    setattr(x, last, v)


def augment(k, a, b):
    if k == 'a.val += 2':
        a.val += 2
    elif k == 'a.val -= b.val':
        a.val -= b.val
    elif k == 'a.data += b.data':
        a.data += b.data
    elif k == 'a.data *= 2':
        a.data *= 2
    elif k == 'a.data[0] += b.data[1]':
        a.data[0] += b.data[1]
    elif k == 'a.left.name += b.name':
        a.left.name += b.name
    elif k == 'a.data[:1] += b.data':
        a.data[:1] += b.data
    elif k == 'a.prop += 1':
        a.prop += '1'
    elif k == 'a.nothing += 1':
        a.nothing += 1
    elif k == 'a.val += name':
        a.val += b.name
    elif k == 'a.val, b.val = b.val, a.val':
        # (deferred attributes are looked up when used)
        x, y = a.val + 0, b.val + 5
        a.val, b.val = y, x
    elif k == 'a.data[a.val] = b':
        a.data[a.val] = b
    elif k == 'a.data << 1':
        a.data <<= 1


AUGMENTED = ('a.val += 2', 'a.val -= b.val', 'a.data += b.data', 'a.data *= 2', 'a.data[0] += b.data[1]', 'a.left.name += b.name',
             'a.data[:1] += b.data', 'a.prop += 1', 'a.nothing += 1', 'a.val += name', 'a.val, b.val = b.val, a.val',
             'a.data[a.val] = b', 'a.data << 1')


class Mixed(Cmp):
    """Objects of the server as values, arguments and keys."""
    name = 'mixed'

    def main(self, w):
        w.img.import_module('mct_ops')
        kind = ('assign', 'call', 'augmented')[pick(w, 3, 'kind')]
        keys = {'assign': TARGETS, 'call': ('bag', 'b.text', 'a.left.text', 'keywords', 'dict'), 'augmented': AUGMENTED}[kind]
        k = keys[pick(w, len(keys), 'case')]
        self.up(w)
        t, ops = self.t, self.ops
        for sn, src in ([('', None)] if kind == 'augmented' else SOURCES.items()):
            if sn in ('b.bad', 'b.nothing') and k in ('b.nothing.val', 'b.data[9]', 'a.left[0]'):
                continue                # (either may be found out first)
            pa, pb = t.tree(), t.tree()
            a, b = ops.tree(), ops.tree()
            unwrap = self.rec.srv.unwrap_proxy
            res = []

            def run(x, y, far):
                if kind == 'assign':
                    return assign(k, x, y, src(x, y))
                if kind == 'augmented':
                    return augment(k, x, y)
                v = src(x, y)
                bag = t.bag if far else ops.bag
                if k == 'bag':
                    r = bag(v, x, v)
                elif k == 'keywords':
                    r = bag(x, p=v, q=[v])
                elif k == 'dict':
                    r = bag({'x': v, 'y': (v, x)})
                elif k == 'b.text':
                    r = y.text(v, v, b=v, z=x)
                else:
                    r = x.left.text(v)
                res.append((far, r))
            what = '%s with %s' % (k, sn or 'proxies')
            self.both(what, lambda: run(pa, pb, True), lambda: run(a, b, False))
            eq(ops.picture(unwrap(pa), unwrap(pb)), ops.picture(a, b), what + ': the objects afterwards')
            if len(res) == 2:
                d = {f: r for f, r in res}

                def back(x):
                    if type(x) is self.P:
                        return unwrap(x)
                    if type(x) in (list, tuple):
                        return type(x)(back(y) for y in x)
                    if type(x) is dict:
                        return {k: back(v) for k, v in x.items()}
                    return x
                eq(ops.state(back(d[True])), ops.state(d[False]), what + ': result')
        w.note(kind, k)


class Api(Cmp):
    """Direct use of the client."""
    name = 'api'

    def main(self, w):
        self.up(w)
        c = self.c
        import importlib
        for m in ('os', 'os.path', 'collections', 'collections.abc', 'concurrent.futures', 'mct_ops', 'json.decoder',
                  'concurrent.futures.thread', 'xml.etree.ElementTree'):
            r = c._import(m)
            got = self.rec.srv.unwrap_proxy(r)
            mod = self.rec.img.modules.get(m) or importlib.import_module(m)
            true(got is mod, '_import(%r) returned %r' % (m, got))
        for m in ('mct_nope', 'os.nope', 'mct_ops.VALUES'):
            try:
                c._import(m)
            except w.tp.RemoteCallException as e:
                true(e.type_str in ('ModuleNotFoundError', 'ImportError'), '_import(%r) raised %s' % (m, e.type_str))
            else:
                true(False, '_import(%r) does not fail' % m)
        st = self.ops.state
        for i, v in enumerate(self.ops.VALUES[:14]):
            p = c.transfer(v)
            true(type(p) is self.P, 'transfer(%r) returned %r' % (v, p))
            eq(st(self.rec.srv.unwrap_proxy(p)), st(v), 'transfer(%r)' % (v,))
            eq(st(c.get_obj(p)), st(v), 'get_obj(%r)' % (v,))
            eq(st(p._get_value()), st(v), 'value of %r' % (v,))
            c['it'] = v
            eq(st(c['it']), st(v), 'item %r' % (v,))
            eq(st(self.rec.srv['it']), st(v), 'item %r' % (v,))
            c['it'] = p
            eq(st(c['it']), st(v), 'item by proxy %r' % (v,))
        eq(c.ping(), 'pong', 'ping')


def scenarios(tier):
    return [(Items(), 0), (Mixed(), 0), (Attributes(), 0), (Api(), 0), (Calls(), 0), (Operators(), 0), (Across(), 0)]
