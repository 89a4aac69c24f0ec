"""C13: at most one server per thread, in every run mode."""
from ..harness import Sys, Worker, pick, serve, threads, wait_for, eq, true

ASSUMPTIONS = [
    'requests are processed by the thread that runs the server',
    'thread ids are reused as soon as a thread has ended (as on Linux)',
]
TECHNIQUE = ('stateless model checking of the real servers: all histories of starting, using and closing servers in '
             'several threads up to a depth against a reference model, and all schedules of concurrent registrations '
             'up to a deviation bound with switches between the lines of the registry')

REG = ('teleprox.server#RPCServer.register_server', 'teleprox.server#RPCServer.unregister_server',
       'teleprox.server#RPCServer.get_server')


class Srv:
    def __init__(self, srv, kind, owner):
        self.srv, self.kind, self.owner, self.open = srv, kind, owner, True


class Histories(Sys):
    opts = {'max_steps': 100000, 'fairq': False}

    def __init__(self, depth, qt=False, **kw):
        Sys.__init__(self, **kw)
        self.depth, self.qt = depth, qt
        self.name = 'histories%s-%d' % ('-qt' if qt else '', depth)

    def main(self, w):
        self.w = w
        tp = w.tp
        self.helper = serve(w, 'helper')
        if self.qt:
            w.app = w.img.import_module('teleprox.qt').QApplication([])
        T = [None, Worker(w, 'W')]           # (None: the main thread)
        U = Worker(w, 'U')                   # uses the servers
        cur = [None, None]
        S = []
        hist = []

        def do(t, f):
            if T[t] is not None:
                return T[t].do(f)
            try:
                return f(), None
            except Exception as e:
                return None, e

        for step in range(self.depth):
            ops = [('lazy', 0), ('lazy', 1), ('forever', 1), ('bg', 0)] + ([('qt', 0)] if self.qt else [])
            for i, s in enumerate(S):
                if s.open:
                    ops += [('use', i), ('close', i), ('stop', i), ('stop-off', i)]
                    if s.kind == 'lazy':
                        ops += [('wait', i)]
                    if s is S[-1] and s.kind != 'qt':
                        ops += [('again', i)]
                elif s.kind != 'qt':
                    ops += [('process', i)]
            op, k = ops[pick(w, len(ops), 'op')]
            hist.append('%s%d' % (op, k))
            what = 'after %s' % hist
            if op in ('lazy', 'forever', 'qt'):
                if op == 'forever' and cur[k] is None:
                    return                  # (would not return)
                r, e = do(k, tp.RPCServer if op != 'qt' else lambda: tp.QtRPCServer(quit_on_close=False))
                true(e is None, '%s: creating a server raised %r' % (what, e))
                srv = r
                r, e = do(k, srv.run_lazy if op == 'lazy' else srv.run_forever)
                if cur[k] is None:
                    true(e is None, '%s: raised %r' % (what, e))
                    cur[k] = s = Srv(srv, op, k)
                    S.append(s)
                else:
                    true(isinstance(e, KeyError), '%s: a second server in the same thread: got %r' % (what, e))
            elif op == 'bg':
                srv = tp.RPCServer()
                srv.run_in_thread()
                w.sched.sleep(0.01, 'harness-wait')
                S.append(Srv(srv, 'bg', None))
            elif op in ('use', 'wait'):
                s = S[k]

                def ask():
                    c = tp.RPCClient.get_client(s.srv.address)
                    return c._import('mct_tgt').mark('%d.%d' % (k, step))
                self.serve_it(s, U, do, ask, op, what)
                r, e = U.result
                true(e is None and r == '%d.%d' % (k, step), '%s: request returned %r' % (what, e or r))
            elif op == 'close':
                s = S[k]
                if s.kind == 'bg':
                    r, e = do(0, s.srv.close)
                else:
                    r, e = do(s.owner, s.srv.close)
                    cur[s.owner] = None
                true(e is None, '%s: close() raised %r' % (what, e))
                s.open = False
                w.sched.sleep(0.2 if s.kind == 'qt' else 0.01, 'harness-wait')
            elif op in ('stop', 'stop-off'):
                # closed by a client
                s = S[k]

                def ask():
                    c = tp.RPCClient.get_client(s.srv.address)
                    c.close_server(sync={'stop': 'sync', 'stop-off': 'off'}[op])
                    c.close()
                self.serve_it(s, U, do, ask, 'use', what)
                true(U.result[1] is None, '%s: close_server() raised %r' % (what, U.result[1]))
                w.sched.sleep(0.2 if s.kind == 'qt' else 0.01, 'harness-wait')
                if s.kind == 'qt':
                    w.app.processEvents()
                if s.kind == 'lazy' and self.ready(s):
                    r, e = do(s.owner, s.srv._read_and_process_one)
                    true(e is None, '%s: processing raised %r' % (what, e))
                if s.owner is not None:
                    cur[s.owner] = None
                s.open = False
            elif op == 'again':
                # in another thread
                s = S[k]
                r, e = do(0 if s.owner is None else 1 - s.owner, s.srv.run_lazy)
                true(e is not None, '%s: the same server runs in two threads' % what)
            elif op == 'process':
                s = S[k]
                r, e = do(s.owner or 0, s.srv._read_and_process_one)
                true(isinstance(e, RuntimeError), '%s: got %r, expected RuntimeError' % (what, e or r))
            for t in 0, 1:
                r, e = do(t, tp.RPCServer.get_server)
                true(e is None and r is (cur[t].srv if cur[t] else None), '%s: get_server() in thread %d: %r' % (what, t, e or r))
            r, e = U.do(tp.RPCServer.get_server)
            true(r is None and e is None, '%s: get_server() in a thread without server: %r' % (what, r))
            for s in S:
                true(s.srv.running() == s.open, '%s: running() of server %d: %r' % (what, S.index(s), s.srv.running()))
        # every open server works
        for i, s in enumerate(S):
            if s.open:
                def ask():
                    return tp.RPCClient.get_client(s.srv.address)._import('mct_tgt').mark(i)
                self.serve_it(s, U, do, ask, 'use', 'in the end, after %s' % hist)
                eq(U.result, (i, None), 'in the end, after %s: server %d' % (hist, i))
        bad = [u for u in w.img.unhandled]
        true(not bad, 'reported %r after %s' % (bad[:1], hist))
        w.note(tuple(hist))

    def serve_it(self, s, U, do, ask, op, what):
        w = self.w
        U.start(ask)
        if s.kind == 'lazy' and op == 'use':
            while U.busy:
                w.sched.sleep(0.001, 'harness-wait')
                if U.busy and self.ready(s):
                    r, e = do(s.owner, s.srv._read_and_process_one)
                    true(e is None, '%s: processing raised %r' % (what, e))
        elif s.kind == 'lazy':
            r, e = do(s.owner, lambda: w.tp.RPCClient.get_client(self.helper.addr)._import('mct_tgt').slow(1, .2))
            true(e is None, '%s: waiting raised %r' % (what, e))
            true(not U.busy, '%s: request not served during a wait' % what)
        elif s.kind == 'qt':
            for i in range(20):
                w.sched.sleep(0.02, 'harness-wait')
                w.app.processEvents()
                if not U.busy:
                    break
        U.wait(12, '%s: request' % what)

    def ready(self, s):
        sock = self.w.net.bound.get(s.srv.address.decode())
        return sock is not None and sock._readable()


class Threads(Sys):
    """Servers registered, used and closed by several threads at once."""
    lines = REG
    opts = {'fairq': False}

    def __init__(self, progs, **kw):
        Sys.__init__(self, **kw)
        self.progs = progs
        self.name = 'threads-' + '+'.join(progs)

    def main(self, w):
        tp = w.tp
        h = serve(w, 'helper')

        def body(k, prog):
            def f(sync):
                mine = None
                closed = None
                t = tp.RPCClient.get_client(h.addr)._import('mct_tgt')
                sync()
                for o in prog:
                    if o == 'l':
                        mine = tp.RPCServer()
                        mine.run_lazy()
                    elif o == '2':
                        try:
                            tp.RPCServer().run_lazy()
                        except KeyError:
                            pass
                        else:
                            true(False, 'thread %d: two servers' % k)
                    elif o == 'u':
                        # own server called back during a wait
                        got = []
                        t.call(got.append, k, _timeout=5)
                        eq(got, [k], 'thread %d: callback' % k)
                    elif o == 'c':
                        mine.close()
                        mine, closed = None, mine
                        try:
                            closed._read_and_process_one()
                        except RuntimeError:
                            pass
                        else:
                            true(False, 'thread %d: closed server processes requests' % k)
                    elif o == 'b':
                        s = tp.RPCServer()
                        s.run_in_thread()
                        eq(tp.RPCClient.get_client(s.address).ping(timeout=5), 'pong', 'ping')
                        s.close()
                    true(tp.RPCServer.get_server() is mine, 'thread %d: get_server() returned %r' % (k, tp.RPCServer.get_server()))
            return f
        threads(w, [body(k, p) for k, p in enumerate(self.progs)], 30)
        bad = w.img.unhandled
        true(not bad, 'reported %r' % bad[:1])
        w.note('ok')


class Generations(Sys):
    """Threads that end without closing their server."""
    name = 'generations'
    opts = {'fairq': False}

    def main(self, w):
        tp = w.tp
        h = serve(w, 'helper')
        n = 3
        how = [pick(w, 4, 'leave') for i in range(n)]
        keep = []

        def run(i):
            def f():
                true(tp.RPCServer.get_server() is None, 'thread %d (%s): has a server from the start' % (i, how))
                if how[i] == 3:
                    # no server: a callback must be refused
                    try:
                        tp.RPCClient.get_client(h.addr)._import('mct_tgt').call(keep.append, 1)
                    except TypeError:
                        return
                    true(False, 'thread %d (%s): sends proxies without a server' % (i, how))
                s = tp.RPCServer()
                s.run_lazy()
                true(tp.RPCServer.get_server() is s, 'thread %d (%s): get_server()' % (i, how))
                got = []
                tp.RPCClient.get_client(h.addr)._import('mct_tgt').call(got.append, i, _timeout=5)
                eq(got, [i], 'thread %d (%s): callback' % (i, how))
                keep.append(s)
                if how[i] == 1:
                    s.close()
                    true(tp.RPCServer.get_server() is None, 'thread %d (%s): get_server() after close' % (i, how))
                elif how[i] == 2:
                    s.close()
                    s = tp.RPCServer()
                    s.run_lazy()
                    tp.RPCClient.get_client(h.addr)._import('mct_tgt').call(got.append, i, _timeout=5)
                    eq(got, [i, i], 'thread %d (%s): callback' % (i, how))
            return w._guard(f)
        for i in range(n):
            t = w.th.Thread(target=run(i))
            t.start()
            t.join()
        w.note(tuple(how))


def scenarios(tier):
    q = tier == 'quick'
    d = 1 if q else 2
    return [
        (Histories(4 if q else 5), 0),
        (Histories(3 if q else 4, qt=True), 0),
        (Generations(), 0),
        (Threads(('luc', 'luc')), d),
        (Threads(('l2uclu', 'lclc')), d),
        (Threads(('bl', 'lu')), d),
        (Threads(('l', 'luc', 'lc')), d),
    ]
