"""C10: values survive serialization unchanged."""
from ..harness import Sys, pick, serve, true, wait_for

ASSUMPTIONS = [
    'values of exactly the supported types (subclasses are transmitted as the type they are derived from)',
    'dictionaries do not use the reserved key ___type_name___ (known finding)',
]
TECHNIQUE = ('exhaustive enumeration of all values up to nesting depth 3 over a leaf alphabet, through the real '
             'serializers and through real clients and servers in every position of a request')


class Base(Sys):
    opts = {'max_steps': 1000000, 'fairq': False}

    def up(self, w):
        self.w = w
        w.img.import_module('mct_vals')
        self.V = w.img.modules['mct_vals']
        self.sr = w.img.import_module('teleprox.serializer')

    def trip(self, s, x, what, must=True):
        """Serialize and deserialize."""
        json = s.type == 'json'
        self.w.cases += 1
        try:
            m = s.dumps(x, None, None)
        except Exception as e:
            true(not must, '%s: %s is refused: %s: %s' % (s.type, what, type(e).__name__, str(e)[:100]))
            return
        try:
            y = s.loads(m, None, None)
        except Exception as e:
            true(False, '%s: %s is sent but cannot be received: %s: %s' % (s.type, what, type(e).__name__, str(e)[:100]))
        true(self.V.same(x, y, json), '%s: %s arrives as %s' % (s.type, what, self.V.short(y)))


class Nested(Base):
    name = 'nested'

    def __init__(self, depth, **kw):
        Base.__init__(self, **kw)
        self.depth = depth

    def main(self, w):
        self.up(w)
        V = self.V
        i = pick(w, 24, 'slice')
        t = ('msgpack', 'json')[pick(w, 2, 'serializer')]
        s = self.sr.all_serializers[t]()
        n = 0
        W = V.wraps(self.depth)
        for x in V.LEAVES[i::24]:
            for name, f in W:
                self.trip(s, f(x), name.replace('%s', V.short(x)))
                n += 1
        for x in V.LIMITS[i::24]:
            for name, f in W[:21]:
                self.trip(s, f(x), name.replace('%s', V.short(x)), must=False)
                n += 1
        w.note(i, t, n)


class Pairs(Base):
    """Two values side by side; every kind of key."""
    name = 'pairs'

    def main(self, w):
        self.up(w)
        V = self.V
        i = pick(w, 24, 'slice')
        t = ('msgpack', 'json')[pick(w, 2, 'serializer')]
        s = self.sr.all_serializers[t]()
        for x in V.LEAVES[i::24]:
            for y in V.LEAVES:
                if len(V.short(x)) + len(V.short(y)) > 180:
                    continue
                self.trip(s, [x, y], '[%s, %s]' % (V.short(x), V.short(y)))
                self.trip(s, {'a': x, 'b': (y, x)}, '{a: %s, b: (%s, ...)}' % (V.short(x), V.short(y)))
            for k in (V.KEYS if t == 'msgpack' else V.STRKEYS):
                self.trip(s, {k: x}, '{%s: %s}' % (V.short(k), V.short(x)))
                self.trip(s, [{'x': {k: x, 'more': 1}}], '[{x: {%s: %s}}]' % (V.short(k), V.short(x)))
        ks = V.KEYS if t == 'msgpack' else V.STRKEYS
        for k in ks[i::24]:
            for l in ks:
                self.trip(s, {k: 1, l: {l: k}}, '{%s: 1, %s: {...}}' % (V.short(k), V.short(l)))
        # one serializer used again and again, also after a refusal
        for x in V.LIMITS[i::24]:
            try:
                s.dumps([x], None, None)
            except Exception:
                pass
            for y in V.LEAVES[::7]:
                self.trip(s, {'v': y}, 'after %s: %s' % (V.short(x), V.short(y)))
        w.note(i, t)


class Triples(Base):
    name = 'triples'

    def main(self, w):
        self.up(w)
        V = self.V
        L = [x for x in V.LEAVES if len(V.short(x)) < 100]
        i = pick(w, len(L), 'first')
        t = ('msgpack', 'json')[pick(w, 2, 'serializer')]
        s = self.sr.all_serializers[t]()
        x = L[i]
        for y in L:
            for z in L:
                self.trip(s, [x, {'k': (y, [z])}], '[%s, {k: (%s, [%s])}]' % (V.short(x), V.short(y), V.short(z)))
        w.note(i, t)


class Echo(Base):
    """Through a client and a server, in every position of a request."""
    name = 'echo'

    def main(self, w):
        self.up(w)
        V = self.V
        i = pick(w, 16, 'slice')
        t = ('msgpack', 'json')[pick(w, 2, 'serializer')]
        rec = serve(w, mode=('forever', 'qt')[pick(w, 2, 'mode')] if i == 0 else 'forever')
        c = w.tp.RPCClient(rec.addr, serializer=t)
        tgt = c._import('mct_tgt')
        echo, add, obj = tgt.ret, tgt.keep, tgt.Obj(1, _return_type='proxy')
        raw = rec.srv.unwrap_proxy(obj)
        json = t == 'json'

        def ok(x, y, what):
            w.cases += 1
            true(V.same(x, y, json), '%s: %s %s arrives as %s' % (t, what, V.short(x), V.short(y)))

        for x in V.LEAVES[i::16]:
            for name, f in V.wraps(1) + [('{(%s)}', lambda x: {'a': (x, [x])})]:
                v = f(x)
                what = 'argument ' + name
                r = add(v, key=v)
                g = rec.tgt.KEPT
                ok(v, g[0][0], what)
                ok(v, g[1]['key'], 'keyword ' + what)
                ok(v, r[0], 'result for ' + what)
                ok(v, echo(v, _sync='async').result(9), 'asynchronous ' + what)
            c['item'] = x
            ok(x, rec.srv['item'], 'published item')
            ok(x, c['item'], 'item')
            rec.srv['back'] = x
            ok(x, c['back'], 'item of the server')
            obj.v = x
            ok(x, raw.v, 'attribute')
            ok(x, obj.v._get_value(), 'attribute value')
            ok(x, c.get_obj(c.transfer(x)), 'transferred value')
            ok(x, obj.get(), 'result')
        for x in V.LIMITS[i::16]:
            for v in (x, [x]):
                try:
                    r = echo(v)
                except Exception:
                    r = v               # refused
                if type(r) is not w.tp.ObjectProxy:
                    true(V.same(v, r, json), '%s: argument %s comes back as %s' % (t, V.short(v), V.short(r)))
                raw.v = v
                try:
                    r = obj.get()
                except Exception:
                    r = v
                r0 = r[0] if type(r) is list and len(r) == 1 else r
                if type(r0) is w.tp.ObjectProxy:
                    true(rec.srv.unwrap_proxy(r0) is x, '%s: result %s arrives as a proxy to something else' % (t, V.short(v)))
                else:
                    true(V.same(v, r, json), '%s: result %s arrives as %s' % (t, V.short(v), V.short(r)))
            true(echo([1, 'x']) == [1, 'x'], 'echo after %s' % V.short(x))
        true(rec.img.state == 'running' and not rec.img.unhandled, 'server process: %s' % rec.img.unhandled)
        w.note(i, t)


class Proxies(Base):
    """Proxies inside of values."""
    name = 'proxies'

    def main(self, w):
        self.up(w)
        V = self.V
        t = ('msgpack', 'json')[pick(w, 2, 'serializer')]
        rec = serve(w)
        c = w.tp.RPCClient(rec.addr, serializer=t)
        tgt = c._import('mct_tgt')
        o = tgt.Obj(3, _return_type='proxy')
        raw = rec.srv.unwrap_proxy(o)
        P = w.tp.ObjectProxy

        def rep(v, a, b):
            if type(v) in (list, tuple):
                return type(v)(rep(x, a, b) for x in v)
            if type(v) is dict:
                return {k: rep(x, a, b) for k, x in v.items()}
            return b if v is a else v

        marker = 'here'
        for name, f in V.wraps(3):
            for p, real in ((o, raw), (o.v, 3), (o.get, raw.get)):
                v = f(p)
                tgt.keep(v)
                got = rec.tgt.KEPT[0][0]
                true(V.same(rep(f(marker), marker, real), got, t == 'json'), '%s: %s arrives as %s' % (t, name % 'proxy', V.short(got)))
            rec.tgt.STATE['x'] = f(raw)
            back = tgt.state_of('x')
            plain = f(marker)

            def walk(a, b):
                if a is marker or a == marker:
                    true(type(b) is P and b == o, '%s: object in %s arrives as %r' % (t, name % 'x', b))
                    return
                true(type(a) is type(b) or (t == 'json' and type(a) is tuple and type(b) is list),
                     '%s: %s arrives as %s' % (t, name % 'x', V.short(back)))
                if type(a) not in (list, tuple, dict):
                    true(a == b, '%s: %s arrives as %s' % (t, name % 'x', V.short(back)))
                    return
                if type(a) is dict:
                    true(list(a) == list(b), '%s: %s: keys %r' % (t, name % 'x', list(b)))
                    a, b = list(a.values()), list(b.values())
                true(len(a) == len(b), '%s: %s: length' % (t, name % 'x'))
                for x, y in zip(a, b):
                    walk(x, y)
            walk(plain, back)
        w.note(t)


def qt_values():
    """Values of the Qt types that are transmitted by value."""
    from PyQt5 import QtCore as c, QtGui as g
    F = (0.0, 1.5, -2.25, 1e300)
    I = (0, 3, -7, 2147483647)
    t = g.QTransform(1, 2, 3, 4, 5, 6, 7, 8, 9)
    m = g.QMatrix4x4(*[float(i) for i in range(16)])
    return ([k(x, y) for k in (c.QPoint, c.QSize) for x in I for y in I[:2]] + [k(x, y) for k in (c.QPointF, c.QSizeF) for x in F for y in F[:2]] +
            [c.QRect(1, 2, 3, 4), c.QRect(), c.QRect(-1, -2, 0, 0), c.QRectF(1.5, 2, -3, 4), c.QRectF(), c.QLine(1, 2, 3, 4), c.QLine(),
             c.QLineF(1, 2.5, 3, 4), c.QLineF(), t, g.QTransform(), m, g.QMatrix4x4(), g.QVector3D(1, 2, 3), g.QVector3D(),
             g.QVector4D(1, 2, 3, 4.5), g.QVector4D(), g.QQuaternion(1, 2, 3, 4), g.QQuaternion()])


class QtValues(Base):
    """Types of Qt (real ones, from PyQt5), in a program that imports Qt first."""
    name = 'qt-values'

    def main(self, w):
        import importlib
        import PyQt5.QtCore, PyQt5.QtGui, PyQt5.QtWidgets, PyQt5.sip      # noqa
        t = ('msgpack', 'json')[pick(w, 2, 'serializer')]
        img = w.process('q')

        def real(name):
            m = img.modules[name] = importlib.import_module(name)
            return m
        img.finders['PyQt5'] = real
        st = {}

        def run():
            for n in ('QtCore', 'QtGui', 'QtWidgets'):
                img.import_module('PyQt5.' + n)
            vals = img.import_module('mct_vals')
            tgt = img.import_module('mct_tgt')
            tp = img.import_module('teleprox')
            w._guard(lambda: body(vals, tgt, tp))()
            st['done'] = True
        same = lambda x, y: type(x) is type(y) and x == y

        def body(V, tgt, tp):
            srv = tp.RPCServer()
            srv.run_in_thread()
            c = tp.RPCClient(srv.address, serializer=t)
            there = c._import('mct_tgt')
            for x in qt_values():
                for name, f, g in (('%s', lambda x: x, lambda y: y), ('[%s]', lambda x: [x], lambda y: y[0]),
                                   ('{a: (%s, 1)}', lambda x: {'a': (x, 1)}, lambda y: y['a'][0])):
                    what = '%s: %s' % (t, name % (x,))
                    r = there.keep(f(x), key=f(x))
                    a, k = tgt.KEPT
                    w.cases += 1
                    true(same(g(a[0]), x), '%s arrives as %r' % (what, a))
                    true(same(g(k['key']), x), '%s arrives as keyword %r' % (what, k))
                    true(same(g(r[0]), x), '%s is returned as %r' % (what, r))
                    c['x'] = f(x)
                    true(same(g(c['x']), x) and same(g(srv['x']), x), '%s as an item' % what)
            true(there.ret(5) == 5, 'afterwards')
        w.start(img, run, driver=False)
        wait_for(w, lambda: 'done' in st, 60, 'Qt values')
        w.note(t)


def scenarios(tier):
    from importlib.util import find_spec
    qt = [(QtValues(), 0)] if find_spec('PyQt5') else []
    if tier == 'quick':
        return qt + [(Nested(4), 0), (Pairs(), 0), (Echo(), 0), (Proxies(), 0)]
    return qt + [(Nested(5), 0), (Pairs(), 0), (Echo(), 0), (Proxies(), 0), (Triples(), 0)]
