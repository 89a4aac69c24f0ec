"""C06: mutually calling processes do not deadlock."""
from ..harness import Sys, pick, serve, threads, eq, true

ASSUMPTIONS = [
    'the transport delivers messages in order per connection',
    'chains of up to 5 calls over 3 processes, recursion up to depth 6',
]
TECHNIQUE = ('stateless model checking of the real clients and servers: every call chain over three participants is '
             'enumerated, concurrent chains are run under all schedules and message delays up to a deviation bound')


def local(w, kind):
    if kind == 'lazy':
        s = w.tp.RPCServer()
        s.run_lazy()
    else:
        if not hasattr(w, 'app'):
            w.app = w.img.import_module('teleprox.qt').QApplication([])
        s = w.tp.QtRPCServer(quit_on_close=False)
        s.run_forever()
    return s


class Chain(Sys):
    """One chain of nested calls at a time."""

    def __init__(self, kinds, depth, **kw):
        Sys.__init__(self, **kw)
        self.kinds, self.depth = kinds, depth
        self.name = 'chain-%s-%d' % ('-'.join(kinds), depth)

    def main(self, w):
        recs = [None, serve(w, 'b', mode=self.kinds[1]), serve(w, 'c', mode=self.kinds[2])]
        s = local(w, self.kinds[0])
        hops = [s.get_proxy(w.tgt.hop)]
        for r in recs[1:]:
            hops.append(w.tp.RPCClient(r.addr)._import('mct_tgt').hop)
        at, path = 0, []
        n = 1 + pick(w, self.depth, 'length')
        for i in range(n):
            at = [x for x in range(3) if x != at][pick(w, 2, 'next')]
            path.append(at)
        k = 1 + pick(w, 2, 'calls')
        if k == 2 and n > 3:
            return
        wait = ('sync', 'async')[pick(w, 2, 'wait')]
        t0 = w.sched.now
        what = 'chain %s, %d calls at a time, waiting %s' % (path, k, wait)
        want = sum(k ** i for i in range(n))
        f = hops[path[0]]
        rest = [hops[x] for x in path[1:]]
        if wait == 'sync':
            got = f(rest, k, wait, _timeout=60)
        else:
            got = f(rest, k, wait, _sync='async').result(60)
        eq(got, want, what)
        dt = w.sched.now - t0
        lim = 0.12 * 2 * want if 'qt' in self.kinds else 0.05 + 0.01 * want
        true(dt <= lim, '%s took %.2f s' % (what, dt))
        w.note(tuple(path), k, wait)


class Recursion(Sys):
    """The caller is called back many levels deep."""

    def __init__(self, kinds, **kw):
        Sys.__init__(self, **kw)
        self.kinds = kinds
        self.name = 'recursion-' + '-'.join(kinds)

    def main(self, w):
        rec = serve(w, 'b', mode=self.kinds[1])
        n = (1, 2, 3, 4, 5, 6, 13, 30)[pick(w, 8, 'depth')]
        start = pick(w, 2, 'start_local_server') if self.kinds[0] == 'lazy' else 0
        if start:
            c = w.tp.RPCClient(rec.addr, start_local_server=True)
        else:
            s = local(w, self.kinds[0])
            c = w.tp.RPCClient(rec.addr)
        t = c._import('mct_tgt')
        # own functions as arguments: sent by proxy, called back
        t0 = w.sched.now
        eq(t.deep(w.tgt.deep, t.deep, n), n, 'recursion of depth %d' % n)
        true(w.sched.now - t0 < 0.2 * (n + 1), 'recursion took %.2f s' % (w.sched.now - t0))
        eq(len(w.tgt.LOG), (n + 1) // 2, 'calls made here')
        w.note(n)


class Pair(Sys):
    """Two chains at once, started from outside."""
    opts = {'delays': (0.02,)}

    def __init__(self, kinds, paths, **kw):
        Sys.__init__(self, **kw)
        self.kinds, self.paths = kinds, paths
        self.name = 'pair-%s-%s' % ('-'.join(kinds), '+'.join(paths))

    def main(self, w):
        recs = {}
        for k, n in zip(self.kinds, 'abc'):
            recs[n] = serve(w, n, mode=k)

        def run(path):
            def f(sync):
                hops = [w.tp.RPCClient.get_client(recs[x].addr)._import('mct_tgt').hop for x in path]
                sync()
                t0 = w.sched.now
                eq(hops[0](hops[1:], _timeout=9), len(path), 'chain ' + path)
                true(w.sched.now - t0 < 3, 'chain %s took %.2f s' % (path, w.sched.now - t0))
            return f
        threads(w, [run(p) for p in self.paths], 30)
        w.note(tuple(len(r.tgt.LOG) for r in recs.values()))


class Mutual(Sys):
    """Two parties call each other at the same time."""
    opts = {'delays': (0.02,)}

    def __init__(self, kinds, n, **kw):
        Sys.__init__(self, **kw)
        self.kinds, self.n = kinds, n
        self.name = 'mutual-%s-%d' % ('-'.join(kinds), n)

    def main(self, w):
        other = serve(w, 'b', mode=self.kinds[1])
        s = local(w, self.kinds[0])
        c = w.tp.RPCClient(other.addr)
        t = c._import('mct_tgt')
        mine = s.get_proxy(w.tgt.deep)
        res = []

        def there():
            # an event in the other process: it calls here, by itself
            f = other.tp.RPCClient.get_client(s.address)
            tt = f._import('mct_tgt')
            w.sched.block(lambda: 'go' in res, None, 'harness-wait')
            x = tt.deep(tt.deep, tt.deep, 2)
            res.append(x)
        th = other.img.modules['threading'].Thread(target=w._guard(there), daemon=True)
        th.start()
        t.slow(0, 0.3)
        res.append('go')
        w.free_on()
        eq(t.deep(mine, t.deep, self.n), self.n, 'recursion from here')
        for i in range(20):
            if len(res) > 1:
                break
            t.slow(0, 0.1)
        w.free_off()
        eq(res, ['go', 2], 'recursion from there')


class Crowd(Sys):
    """Others call the server of a waiting thread, so that requests and the awaited reply pile up."""
    opts = {'delays': (0.02,)}

    def __init__(self, kind, free=False, **kw):
        Sys.__init__(self, **kw)
        self.kind = kind
        self.free = free
        self.name = 'crowd-%s%s' % (kind, '-free' if free else '')

    def main(self, w):
        b = serve(w, 'b')
        n = 1 + pick(w, 3, 'requests')
        d = (0.0, 0.02, 0.05)[pick(w, 3, 'length')]
        D = (0.0, 0.03, 0.06)[pick(w, 3, 'wait')]
        calls = 1 + pick(w, 2, 'calls')
        what = '%d+%d requests of %g s during %d calls of %g s' % (n, n, d, calls, D)
        if self.kind in ('lazy', 'qt'):
            s = local(w, self.kind)
            addr = s.address
        else:
            a = serve(w, 'a', mode=self.kind)
            addr = a.addr
        st = {'left': 2, 'go': False}

        def run(k):
            def g():
                t = w.tp.RPCClient(addr)._import('mct_tgt')
                st['left'] -= 1
                w.sched.block(lambda: st['go'], None, 'harness-wait')
                t0 = w.sched.now
                fs = [t.step(10 * k + i, d, _sync='async') for i in range(n)]
                for i, f in enumerate(fs):
                    eq(f.result(9), ('r', 10 * k + i), what)
                dt = w.sched.now - t0
                true(dt < 2 * n * d + calls * (D + 0.1) + 0.15, '%s took %.2f s' % (what, dt))
                st['left'] -= 1
            return g
        t = w.tp.RPCClient(b.addr)._import('mct_tgt')
        for k in (1, 2):
            w.th.Thread(target=w._guard(run(k)), daemon=True).start()
        if self.kind in ('lazy', 'qt'):
            while st['left'] > 0 and not w.violations:
                t.slow(0, 0.05)
            st['go'] = True
            if self.free:
                w.free_on()
            for i in range(calls):
                t0 = w.sched.now
                eq(t.slow(i, D, _timeout=9), ('r', i), what)
                true(w.sched.now - t0 < 2 * n * d + D + 0.15, '%s: call took %.2f s' % (what, w.sched.now - t0))
            while st['left'] > -2 and not w.violations:
                t.slow(0, 0.05)
        else:
            ta = w.tp.RPCClient(addr)._import('mct_tgt')
            w.sched.block(lambda: st['left'] <= 0 or w.violations, None, 'harness-wait')
            st['go'] = True
            if self.free:
                w.free_on()
            fs = [ta.through_d(i, t.slow, D, _sync='async') for i in range(calls)]
            for i, f in enumerate(fs):
                eq(f.result(9), ('r', i), what)
            w.sched.block(lambda: st['left'] <= -2 or w.violations, None, 'harness-wait')


class Replaced(Sys):
    """The server of the waiting thread is replaced by another one."""

    def __init__(self, n, **kw):
        Sys.__init__(self, **kw)
        self.n = n
        self.name = 'replaced-%d' % n

    def main(self, w):
        rec = serve(w, 'b', mode=('forever', 'qt')[pick(w, 2, 'other')])
        c = w.tp.RPCClient(rec.addr)
        t = c._import('mct_tgt')
        hist = []
        for i in range(self.n):
            kind = ('none', 'lazy', 'qt')[pick(w, 3, 'kind')]
            hist.append(kind)
            s = None
            if kind != 'none':
                s = local(w, kind)
                n = 1 + pick(w, 2, 'depth') * 2
                t0 = w.sched.now
                eq(t.deep(w.tgt.deep, t.deep, n), n, 'callback with servers %s' % hist)
                true(w.sched.now - t0 < 1.0, 'callback with servers %s took %.2f s' % (hist, w.sched.now - t0))
            else:
                eq(t.echo(i), ('r', i), 'call with servers %s' % hist)
            if s is not None and pick(w, 2, 'close by'):
                cl = w.th.Thread(target=w._guard(lambda: w.tp.RPCClient(s.address).close_server()), daemon=True)
                cl.start()
                for k in range(50):
                    t.slow(0, 0.05)
                    if not cl.is_alive():
                        break
            elif s is not None:
                try:
                    s.close()
                except RuntimeError:
                    pass
            if s is not None:
                true(not s.running(), 'server not closed in %s' % hist)
        eq(t.echo(9), ('r', 9), 'call with servers %s' % hist)
        w.note(tuple(hist))


def scenarios(tier):
    q = [(Chain(('lazy', 'forever', 'forever'), 5), 0), (Chain(('lazy', 'qt', 'forever'), 4), 0),
         (Chain(('qt', 'qt', 'forever'), 3), 0), (Recursion(('lazy', 'forever')), 0), (Recursion(('lazy', 'qt')), 0),
         (Recursion(('qt', 'forever')), 0), (Replaced(2), 0),
         (Chain(('lazy', 'thread', 'thread'), 3), 0), (Recursion(('lazy', 'thread')), 0)]
    q += [(Crowd(k), 0) for k in ('lazy', 'qt', 'forever', 'thread')]
    FF, QF, QQ, FFF = ('forever', 'forever'), ('qt', 'forever'), ('qt', 'qt'), ('forever',) * 3
    if tier == 'quick':
        q += [(Pair(FF, ('aba', 'bab')), 1), (Pair(QF, ('aba', 'bab')), 1), (Pair(FFF, ('abc', 'cab')), 1),
              (Mutual(('lazy', 'forever'), 3), 1), (Mutual(('qt', 'forever'), 2), 1),
              (Pair(('thread', 'thread'), ('aba', 'bab')), 1), (Mutual(('lazy', 'thread'), 3), 1)]
    else:
        q[0] = (Chain(('lazy', 'forever', 'forever'), 7), 0)
        q[1] = (Chain(('lazy', 'qt', 'qt'), 5), 0)
        q[2] = (Chain(('qt', 'qt', 'forever'), 5), 0)
        q[6] = (Replaced(3), 0)
        q += [(Crowd(k, True), 1) for k in ('lazy', 'qt', 'forever')]
        q += [(Pair(k, p), 2) for k in (FF, QF, QQ, ('thread', 'thread')) for p in (('aba', 'bab'), ('abab', 'ab'))]
        q += [(Pair(FFF, p), 2) for p in (('abc', 'cab'), ('abcab', 'cba'), ('abc', 'bca', 'cab'))]
        q += [(Mutual((a, b), 3), 2) for a in ('lazy', 'qt') for b in ('forever', 'qt', 'thread')]
    return q
