"""C08: proxies keep object identity through every hop."""
from ..harness import Sys, pick, serve, eq, true

ASSUMPTIONS = [
    'three server processes and a client process with a server of its own; object trees of depth 2',
]
TECHNIQUE = ('exhaustive enumeration of routes over the processes x objects x attribute paths x containers x '
             'serializers, executed by the real clients and servers and compared with a reference model at every hop')

WRAP = {
    'plain': lambda x: x, 'list': lambda x: [x], 'dict': lambda x: {'k': x}, 'tuple': lambda x: (x,),
    'deep': lambda x: {'k': [(x, 1)]}, 'two': lambda x: [x, x],
}
PORTS = ({'a': 2345, 'b': 23456, 'c': 345, 'p': 234}, {'a': 345, 'b': 34, 'c': 2345, 'p': 3456})
ATTRS = ((), ('v',), ('child',), ('child', 'v'))


def shaped(x, json):
    if isinstance(x, dict):
        return {'k': shaped(x['k'], json)}
    if isinstance(x, (list, tuple)):
        return [('list' if json else type(x).__name__)] + [shaped(y, json) for y in x]
    return 'x'


class Net(Sys):
    """p (this process, lazy server) and the servers a, b, c."""

    def up(self, w, ser='msgpack', ports=None):
        self.w = w
        ad = {n: {'address': 'tcp://127.0.0.1:%d' % p} for n, p in (ports or {}).items()}
        self.rec = {n: serve(w, n, mode=m, **ad.get(n, {}))
                    for n, m in (('a', 'forever'), ('b', 'qt'), ('c', 'forever'))}
        self.s = w.tp.RPCServer(**ad.get('p', {}))
        self.s.run_lazy()
        self.cl = {n: w.tp.RPCClient(r.addr, serializer=ser) for n, r in self.rec.items()}
        self.t = {n: c._import('mct_tgt') for n, c in self.cl.items()}
        self.tgt = {n: r.tgt for n, r in self.rec.items()}
        self.tgt['p'] = w.tgt
        # proxies to the relay function of every process, here too
        self.relay = {n: t.relay for n, t in self.t.items()}
        self.relay['p'] = self.s.get_proxy(w.tgt.relay)

    def root(self, own):
        """The object of process `own`, as seen here."""
        if own == 'p':
            return self.w.tgt.node('p0')
        return self.t[own].node(own + '0')

    def real(self, own, attrs):
        o = self.tgt[own].STATE[own + '0']
        for a in attrs:
            o = getattr(o, a)
        return o


class Route(Net):
    def __init__(self, n, owners=('a', 'b', 'p'), **kw):
        Sys.__init__(self, **kw)
        self.n, self.owners = n, owners
        self.name = 'route-%d-%s' % (n, ''.join(owners))

    def nm(self, own, attrs):
        o = self.real(own, attrs)
        return o if isinstance(o, str) else o.name

    def main(self, w):
        ser = ('msgpack', 'json')[pick(w, 2, 'serializer')]
        own = self.owners[pick(w, len(self.owners), 'owner')]
        path = []
        at = 'p'
        for i in range(1 + pick(w, self.n, 'length')):
            nxt = [x for x in 'abcp' if x != at]
            at = nxt[pick(w, len(nxt), 'next')]
            path.append(at)
        if path[0] == 'p':
            return
        # (addresses that look alike)
        self.up(w, ser, PORTS[pick(w, len(PORTS), 'ports')])
        o = self.root(own)
        for attrs in ATTRS:
            for wn, wrap in WRAP.items():
                x = o
                if own == 'p' and attrs:
                    x = self.s.get_proxy(o)
                for a in attrs:
                    x = getattr(x, a)
                sent = wrap(x)
                what = '%s of %s%s by %s along p-%s' % (wn, own, ''.join('.' + a for a in attrs), ser, '-'.join(path))
                for t in self.tgt.values():
                    t.TRAIL.clear()
                got = self.relay[path[0]]([self.relay[k] for k in path[1:]], sent)
                self.judge(own, attrs, path, sent, got, ser, what)
        w.note(own, tuple(path), ser)

    def judge(self, own, attrs, path, sent, got, ser, what):
        """At every hop: the object itself (or the attribute's value) at its
        owner, a proxy elsewhere -- once resolved at the owner, a value stays one."""
        seen = {k: 0 for k in 'abcp'}
        cur = (own, attrs)          # owner, path; None once it is a plain value
        js = ser == 'json'
        first = True
        want = self.real(own, attrs)
        nm = self.nm(own, attrs)
        plain = False
        for k in path + [None]:
            back = k is None
            if back:
                break
            i = seen[k]
            seen[k] += 1
            arr = self.tgt[k].TRAIL[i]
            eq(self.tgt[k].shape_of(arr), shaped(sent, js), 'shape at %s: %s' % (k, what))
            x = self.tgt[k].inner(arr)
            if plain:
                eq(x, want, 'value at %s: %s' % (k, what))
            elif k == own:
                true(x is want, 'at its owner %s: got %r, expected the object itself: %s' % (k, x, what))
                plain = isinstance(want, str)
            else:
                true(type(x).__name__ == 'ObjectProxy', 'at %s: got %r instead of a proxy: %s' % (k, x, what))
                eq(self.t[k].probe(i) if k != 'p' else self.w.tgt.probe(i), nm, 'proxy at %s: %s' % (k, what))
        # and all the way back
        eq(self.w.tgt.shape_of(got), shaped(sent, js), 'shape of the result: ' + what)
        x = self.w.tgt.inner(got)
        visited = own in path or own == 'p'
        if isinstance(want, str) and (own in path):
            eq(x, want, 'result: ' + what)
        elif own == 'p':
            true(x is want, 'result: got %r, expected the object itself: %s' % (x, what))
        else:
            true(type(x).__name__ == 'ObjectProxy', 'result: got %r instead of a proxy: %s' % (x, what))
            v = x._get_value()
            eq(v if isinstance(v, str) else x.name._get_value(), nm, 'result: ' + what)


class Equal(Net):
    """Proxies obtained in many ways, compared pairwise, here and elsewhere."""
    name = 'equality'

    def main(self, w):
        self.up(w)
        t, tb = self.t['a'], self.t['b']
        roots = {}
        ps = []             # (proxy, denotation, how)
        for k in ('a0', 'a1'):
            t.node(k)
            st = t.STATE
            ps.append((t.STATE.get(k, _return_type='proxy'), (k,), 'call'))
            ps.append((self.cl['a'].transfer(ps[-1][0]), (k,), 'transfer'))
            self.cl['a'][k] = ps[-1][0]
            ps.append((self.cl['a'][k], (k,), 'item'))
            ps.append((tb.relay([], ps[-1][0]), (k,), 'via b'))
            ps.append((t.relay([], ps[-1][0]), (k,), 'via a'))
            ps.append((ps[-1][0]._copy(), (k,), 'copy'))
        alias = []
        jc = []

        def other():
            c = w.tp.RPCClient(self.rec['a'].addr.decode(), serializer='json')
            x = c['a0']
            jc.append(x._copy())
        th = w.th.Thread(target=w._guard(other), daemon=True)
        th.start()
        th.join()
        ps.append((jc[0], ('a0',), 'json client'))
        for p, d, how in list(ps):
            if how in ('call', 'via b', 'copy', 'json client'):
                ps.append((p.v, d + ('v',), how + '.v'))
                ps.append((p.name, d + ('name',), how + '.name'))
                ps.append((p.child, d + ('child',), how + '.child'))
                # the same object by another path
                alias.append((p.child, p.child._undefer(return_type='proxy'), how))
                alias.append((p.child.child, p.child._undefer(return_type='proxy').child, how))
                ps.append((p.child.v, d + ('child', 'v'), how + '.child.v'))
                ps.append((tb.relay([], p.child), d + ('child',), how + '.child via b'))
        # objects of another server, which may have the same numbers there
        for k in ('b0', 'b1'):
            tb.node(k)
            ps.append((tb.STATE.get(k, _return_type='proxy'), ('of b', k), 'call'))
        ps.append((t, ('module of a',), 'import'))
        ps.append((tb, ('module of b',), 'import'))
        ps.append((self.cl['a']._import('mct_tgt'), ('module of a',), 'import again'))
        n = len(ps)
        sent = []
        w.net.monitor = lambda s, c, fr: sent.append(fr)
        i = pick(w, n, 'first')
        p, d, how = ps[i]
        for q, e, how2 in ps:
            what = 'proxies to %s (%s) and %s (%s)' % ('.'.join(d), how, '.'.join(e), how2)
            if d == e:
                sent.clear()
                eq(p == q, True, what + ': ==')
                true(not sent, what + ': the server was asked')
                eq(hash(p), hash(q), what + ': hash')
                eq(len({p, q}), 1, what + ': in a set')
                eq(p != q, False, what + ': !=')
                eq(list(tb.same_there(p, q)), [True, True, 1], what + ': compared in another process')
            elif d[0] != e[0] or d[1:] != e[1:]:
                r = p == q
                eq(r, False, what + ': ==')
        w.net.monitor = None
        for p, q, how in alias:
            if i == 0:
                eq([p == q, q == p, p != q], [True, True, False], 'one object by two paths (%s)' % how)
        w.note(i)


class Kinds(Net):
    """All kinds of objects."""
    name = 'kinds'

    def main(self, w):
        from ..targets import mct_tgt as T
        ser = ('msgpack', 'json')[pick(w, 2, 'serializer')]
        ks = sorted(T.KINDS)
        k = ks[pick(w, len(ks), 'kind')]
        self.up(w, ser)
        t, tb, ta = self.t['a'], self.t['b'], self.tgt['a']
        what = '%s by %s' % (k, ser)
        x = t.kind(k, _return_type='proxy')
        y = t.kind(k, _return_type='proxy')
        z = tb.relay([], x)
        d = t.KINDS.get(k, _return_type='proxy')
        all_ = [x, y, z, d, x._copy()]
        for i, p in enumerate(all_):
            true(type(p).__name__ == 'ObjectProxy', '%s: %d is %r' % (what, i, p))
            eq(t.is_kind(k, p), True, '%s: %d is sent back' % (what, i))
            eq(t.is_kind(k, tb.relay([], p)), True, '%s: %d is sent back by way of b' % (what, i))
            eq(tb.relay([t.relay], [p])[0] == p, True, '%s: %d' % (what, i)) if k not in ('int', 'str', 'bytes', 'empty', 'none', 'list') else None
            for q in all_:
                sent = []
                w.net.monitor = lambda s, c, fr: sent.append(fr)
                r = p == q
                w.net.monitor = None
                eq(r, True, what + ': equal')
                true(not sent, what + ': the server was asked')
                eq(hash(p), hash(q), what + ': hash')
        # the others are different
        for k2 in ('class', 'instance', 'function', 'module', 'builtin'):
            if k2 != k and k != 'greedy':
                q = t.kind(k2, _return_type='proxy')
                eq(bool(q == x), False, '%s: equal to %s' % (what, k2))
                eq(t.is_kind(k2, x), False, '%s: taken for %s' % (what, k2))
        w.note(k, ser)


def scenarios(tier):
    if tier == 'quick':
        return [(Route(3), 0), (Equal(), 0), (Kinds(), 0)]
    return [(Route(4), 0), (Route(5, owners=('a',)), 0), (Equal(), 0), (Kinds(), 0)]
