"""C05: closing a server releases every client, and is final."""
from ..harness import Sys, pick, serve, threads, expect, eq, true

equal = eq

ASSUMPTIONS = [
    'the transport delivers messages in order per connection',
    'a request during which its own server is closed (nested close) counts as not answered',
]
TECHNIQUE = ('stateless model checking of the real client and servers: all programs of the closing and the closed-upon '
             'clients are enumerated, all schedules and message delays up to a deviation bound')

SOON = 0.15


class Close(Sys):
    """Closers and clients with requests before, during and after the close."""
    opts = {'delays': (0.02,)}

    def __init__(self, mode, closers=None, progs=None, free=True, depth=2, address=None, **kw):
        Sys.__init__(self, **kw)
        self.mode = mode
        self.closers = closers
        self.progs = progs
        self.freed = free
        self.depth = depth
        self.address = address
        self.name = 'close-%s-%s-%s' % (mode, '+'.join(closers or ('all',)), '-'.join(progs or ('all%d' % depth,)))
        if address:
            self.name += '-' + address

    KINDS = ('sync', 'async', 'off', 'server', 'exit', 'nested')

    def main(self, w):
        self.w = w
        kw = {'address': self.address} if self.address else {}
        rec = serve(w, mode=self.mode, leave=self.closers == ['exit'] and self.mode == 'qt', **kw)
        closers = self.closers
        progs = self.progs
        if closers is None:
            kinds = [k for k in self.KINDS if k != 'exit' or self.mode == 'thread']
            closers = [kinds[pick(w, len(kinds), 'closer')]]
            kinds = [k for k in ('none', 'sync', 'async', 'server') if k != 'server' or 'exit' not in closers]
            k2 = kinds[pick(w, len(kinds), 'closer2')]
            if k2 != 'none':
                closers.append(k2)
        if progs is None:
            progs = []
            for i in range(2):
                progs.append(''.join('ALS'[pick(w, 3, 'op')] for j in range(max(1, self.depth - i))))
            when = (0.0, 0.015, 0.055, 0.3)[pick(w, 4, 'when')]
        else:
            when = 0.0
        self.when = when
        self.closed_at = None
        self.len_at = None
        self.rec = rec
        self.what = 'closers %s, clients %s, close after %g' % (closers, progs, when)
        self.ends = []
        fns = [lambda sync, k=k, p=p: self.client(k, p, sync) for k, p in enumerate(progs)]
        fns += [lambda sync, k=k: self.closer(k, sync) for k in closers]
        threads(w, fns, 30, free=self.freed)
        w.sched.sleep(3.0, 'harness-wait')
        log = rec.tgt.LOG
        true(self.len_at is not None, 'nobody was told that the server closed: ' + self.what)
        # (time when the first closer was told) nothing runs after it
        eq(len(log), self.len_at, 'number of requests executed after the close; ' + self.what)
        true(not rec.srv.running(), 'server still running: ' + self.what)
        true(rec.addr.decode() not in w.net.bound, 'address still in use: ' + self.what)
        if self.mode == 'forever':
            true(rec.returned, 'run_forever() has not returned: ' + self.what)
        if self.mode == 'qt':
            true(rec.returned, 'application has not quit: ' + self.what)
        for n, res in self.ends:
            true((res == 'ok') == (n in log) or n < 0,
                 'request %d %s, and was %sexecuted: %s' % (n, res, '' if n in log else 'not ', self.what))
        un = [u for u in rec.img.unhandled + w.img.unhandled if u[0] != 'atexit']
        true(not un, 'reported %r: %s' % (un[:1], self.what))
        w.note(tuple(self.ends))

    def closer(self, kind, sync):
        w, rec = self.w, self.rec
        if kind in ('server', 'exit'):
            sync()
            w.time.sleep(self.when)
            if kind == 'exit':
                rec.leave = True
                if self.mode == 'qt':
                    rec.img.modules['threading'].Thread(target=rec.app.quit, daemon=True).start()
                w.sched.block(lambda: rec.img.state == 'dead', 10, 'harness-wait')
                true(rec.img.state == 'dead', 'process does not exit: ' + self.what)
                self.told()
                return
            done = []

            def run():
                try:
                    rec.srv.close()
                except (OSError, RuntimeError):
                    pass                # somebody else closed it before
                done.append(1)
            rec.img.modules['threading'].Thread(target=w._guard(run), daemon=True).start()
            w.sched.block(lambda: done or w.violations, 10, 'harness-wait')
            true(done, 'server.close() hangs: ' + self.what)
            self.told()
            return
        c = w.tp.RPCClient(rec.addr)
        if kind == 'nested':
            t = c._import('mct_tgt')
            me = c['self']
            me = me.close
        sync()
        w.time.sleep(self.when)
        t0 = w.sched.now
        if kind == 'nested':
            # the server closes while it runs this request
            expect(w, RuntimeError, lambda: me(_timeout=5), 'close from within a request')
            w.sched.sleep(0.05, 'harness-wait')
        elif kind == 'sync':
            eq(c.close_server(timeout=5), True, 'close_server(); ' + self.what)
        elif kind == 'async':
            r = c.close_server(sync='async')
            if r is not True:
                eq(r.result(5), True, 'close_server(sync=async); ' + self.what)
        elif kind == 'off':
            r = c.close_server(sync='off')
            true(r is None or r is True, 'close_server(sync=off) returned %r' % (r,))
            w.sched.sleep(1.0, 'harness-wait')
        self.told()
        true(w.sched.now - t0 < 4.9, 'closing took %.2f s: %s' % (w.sched.now - t0, self.what))
        if kind != 'off':
            true(c.disconnected(), 'closing client does not know that the server is gone: ' + self.what)
        eq(c.close_server(), True, 'closing again; ' + self.what)
        if kind != 'off':
            self.refused(c)

    def told(self):
        if self.len_at is None:
            self.closed_at = self.w.sched.now
            self.len_at = len(self.rec.tgt.LOG)

    def refused(self, c):
        w = self.w
        t0 = w.sched.now
        expect(w, RuntimeError, lambda: c.ping(timeout=5), 'request after the close; ' + self.what)
        expect(w, RuntimeError, lambda: c.ping(sync='async').result(5), 'request after the close; ' + self.what)
        expect(w, RuntimeError, lambda: c.ping(sync='off'), 'request without reply after the close; ' + self.what)
        true(w.sched.now - t0 < SOON, 'requests after the close took %.2f s to fail: %s' % (w.sched.now - t0, self.what))

    def client(self, k, prog, sync):
        w, rec = self.w, self.rec
        # (notices must be readable for every client)
        c = w.tp.RPCClient(rec.addr, serializer=('msgpack', 'json')[k % 2])
        t = c._import('mct_tgt')
        echo, slow = t.echo, t.slow
        eq = lambda got, want, what: equal(tuple(got), want, what)    # noqa (json has no tuples)
        sync()
        futs = []
        gone = False
        for i, op in enumerate(prog):
            n = (k + 1) * 100 + i
            try:
                if op == 'A':
                    futs.append((echo(n, _sync='async'), n))
                elif op == 'M':
                    for j in range(30):
                        futs.append((echo(n + 1000 * (j + 1), _sync='async'), n + 1000 * (j + 1)))
                elif op == 'C':
                    # closes it, too
                    f = c.close_server(sync='async')
                    if f is not True:
                        futs.append((f, None))
                elif op == 'L':
                    futs.append((slow(n, 0.05, _sync='async'), n))
                elif op == 'S':
                    eq(slow(n, 0.01, _timeout=None), ('r', n), 'call; ' + self.what)
                    self.ends.append((n, 'ok'))
            except RuntimeError:
                self.ends.append((n, 'gone'))
                gone = True
        for f, n in futs:
            t0 = w.sched.now
            try:
                if n is None:
                    equal(f.result(20), True, 'close_server(sync=async); ' + self.what)
                    gone = True
                    continue
                eq(f.result(20), ('r', n), 'result; ' + self.what)
                self.ends.append((n, 'ok'))
            except RuntimeError:
                self.ends.append((n, 'gone'))
                gone = True
            except TimeoutError:
                true(False, 'request %d hangs: %s' % (n, self.what))
            true(f.done(), 'request completed and not done: ' + self.what)
        # until it is noticed
        n = (k + 1) * 100 + 50
        if not gone:
            if k == 1:
                w.sched.block(lambda: self.closed_at is not None, 20, 'harness-wait')
                w.sched.sleep(0.05, 'harness-wait')
                true(c.disconnected(), 'client is not told of the close: ' + self.what)
            else:
                for i in range(400):
                    try:
                        eq(echo(n + i, _timeout=20), ('r', n + i), 'call; ' + self.what)
                        self.ends.append((n + i, 'ok'))
                    except RuntimeError:
                        self.ends.append((n + i, 'gone'))
                        break
                    w.time.sleep(0.02)
                else:
                    true(False, 'client never told of the close: ' + self.what)
        true(c.disconnected(), 'client is not told of the close: ' + self.what)
        self.refused(c)
        equal(c.close_server(), True, 'close_server() of a closed server; ' + self.what)


class Lazy(Sys):
    """The server of a thread that waits for another one is closed meanwhile."""
    opts = {'delays': (0.02,)}

    def __init__(self, n, **kw):
        Sys.__init__(self, **kw)
        self.n = n
        self.name = 'close-lazy-%d' % n

    def main(self, w):
        rec = serve(w)
        s = w.tp.RPCServer()
        s.run_lazy()
        c = w.tp.RPCClient(rec.addr)
        t = c._import('mct_tgt')
        ends = []
        left = [self.n + 1]

        def other(k):
            c2 = w.tp.RPCClient(s.address)
            t2 = c2._import('mct_tgt')
            w.free_on()
            f = [t2.echo(100 * k + i, _sync='async') for i in range(2)]
            if k == 1 or k == 3:
                eq(c2.close_server(timeout=5), True, 'close_server')
            for i, x in enumerate(f):
                try:
                    eq(x.result(5), ('r', 100 * k + i), 'result')
                    ends.append((100 * k + i, True))
                except RuntimeError:
                    ends.append((100 * k + i, False))
            expect(w, RuntimeError, lambda: (t2.echo(100 * k + 9), c2.ping(), w.time.sleep(0.5), c2.ping()),
                   'request after the close')
            left[0] -= 1
        for k in range(1, self.n + 1):
            w.th.Thread(target=w._guard(lambda k=k: other(k)), daemon=True).start()
        for i in range(20):
            eq(t.slow(i, 0.1), ('r', i), 'call of the waiting thread')
            if left[0] <= 1:
                break
        true(left[0] == 1 or w.violations, 'clients hang')
        w.free_off()
        true(s.address.decode() not in w.net.bound, 'address still in use')
        true(not s.running(), 'server still running')
        log = [n for n in w.tgt.LOG]
        for n, ok in ends:
            true(ok == (n in log), 'request %d executed %r, answered %r' % (n, n in log, ok))
        w.note(tuple(ends))


class During(Sys):
    """A server is closed while one of its requests waits for another server."""
    opts = {'delays': (0.02,)}

    def __init__(self, mode, **kw):
        Sys.__init__(self, **kw)
        self.mode = mode
        self.name = 'close-during-' + mode

    def main(self, w):
        a, b = serve(w, 'a', mode=self.mode), serve(w, 'b')

        def c0(sync):
            c = w.tp.RPCClient(a.addr)
            t = c._import('mct_tgt')
            tb = w.tp.RPCClient(b.addr)._import('mct_tgt')
            sync()
            f = t.through(1, tb.slow, _sync='async')
            try:
                eq(f.result(8), ('r', 1), 'nested call')
                w.note('ok')
            except RuntimeError:
                w.note('gone')
            expect(w, RuntimeError, lambda: (w.time.sleep(0.5), c.ping()), 'request after the close')

        def c1(sync):
            c = w.tp.RPCClient(a.addr)
            sync()
            w.time.sleep(0.02)
            eq(c.close_server(timeout=5), True, 'close_server')
        threads(w, [c0, c1], 30)
        w.sched.sleep(0.5, 'harness-wait')
        true(a.returned, 'server still runs after the close')
        true(a.addr.decode() not in w.net.bound, 'address still in use')
        eq(w.tp.RPCClient(b.addr)._import('mct_tgt').echo(1), ('r', 1), 'call of the other server')


def scenarios(tier):
    b = 1 if tier == 'quick' else 2
    q = [(Close(m, free=False, depth=b), 0) for m in ('forever', 'qt', 'thread')]
    q += [(Close(m, ['sync'], ('AL', 'S')), b) for m in ('forever', 'qt')]
    q += [(Close('forever', ['sync', 'sync'], ('A',)), b), (Close('thread', ['exit'], ('A', 'L')), b),
          (Close('thread', ['server', 'async'], ('A',)), b), (Lazy(2), b), (Close('forever', ['sync'], ('LCAL', 'MS')), b),
          (Close('qt', ['async'], ('MCA', 'ACL')), b), (During('forever'), b), (During('qt'), b),
          (Close('thread', ['exit'], ('A', 'L'), address='tcp://127.0.0.1:7100'), 0), (Close('qt', ['exit'], ('A', 'L')), b),
          (Close('qt', ['sync'], ('AL', 'S'), address='tcp://127.0.0.1:7100'), 0)]
    if tier != 'quick':
        q += [(Close('qt', ['sync', 'sync'], ('A', 'L')), b), (Close('thread', ['sync', 'exit'], ('L',)), b),
              (Close('forever', ['async'], ('AAA', 'LAS')), b), (Lazy(3), b)]
    return q
