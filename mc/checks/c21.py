"""C21: a Qt server runs every request in the GUI thread and replies to it."""
from ..harness import Sys, pick, serve, threads, wait_for, eq, true

ASSUMPTIONS = [
    'a small simulated Qt (one event loop per thread, queued cross-thread signals, QThread, QApplication.quit)',
    'the event loop is entered once and left only by quit(); slots run to completion or process events themselves',
]
TECHNIQUE = ('stateless model checking of the real Qt server and its polling thread with two clients, event-loop '
             'activity and closing from either side: all request programs on the default schedule, all schedules up to '
             'a deviation bound with switches between any two lines of the polling thread and the server class')
SRC = ('teleprox.qt_poll_thread', 'teleprox.qt_server')


class Qt(Sys):
    opts = {'max_steps': 100000}

    def begin(self, w, **kw):
        self.w = w
        self.rec = rec = serve(w, 's', 'qt', **kw)
        self.clients = [w.tp.RPCClient(rec.addr)]
        self.clients[0]._import('mct_tgt')
        self.front = w.net.bound[rec.addr.decode()]
        del self.front.users[:]
        self.tasks = self.alive()
        self.errors = []
        rec.img.sys.excepthook = lambda t, v, tb: self.errors.append(v)

    def alive(self):
        return len([t for t in self.rec.img.tasks if not t.done and not t.dead])

    def gui(self, f):
        """Run f in the event loop."""
        self.rec.img.qtstate.post(self.rec.ident, self.w._guard(f), ())

    def busy(self, kind):
        rec, w = self.rec, self.w
        if kind == 'busy':
            for i in range(3):
                self.gui(lambda: rec.img.modules['time'].sleep(0.02))
        elif kind == 'events':
            # a slot that lets other events run
            def f():
                for i in range(3):
                    rec.img.modules['time'].sleep(0.01)
                    rec.app.processEvents()
            self.gui(f)

    def program(self, k, ops, t, out):
        """Issue requests; `out` gets (n, future or result)."""
        for j, o in enumerate(ops):
            n = 100 * k + j
            self.sent[k].append(n)
            try:
                if o == 'S':
                    out.append((n, t.step(n, _sync='sync')))
                elif o == 'A':
                    out.append((n, t.step(n, _sync='async')))
                elif o == 'N':
                    t.step(n, _sync='off')
                elif o == 'E':
                    out.append((n, t.fail(n, _sync='async')))
                elif o == 'G':
                    # processed like any other
                    self.sent[k].pop()
                    eq(self.cl[k].ping(), 'pong', 'ping; ' + self.what)
                    log = {e[1] if isinstance(e, tuple) else e for e in self.rec.tgt.LOG}
                    true(set(self.sent[k]) <= log, '%s: ping answered before %s' % (self.what, sorted(set(self.sent[k]) - log)))
                elif o == 'D':
                    self.w.time.sleep(0.012)
                    self.sent[k].pop()
                elif o == 'P':
                    # a proxy obtained and used
                    self.sent[k].pop()
                    p = t.make(n)
                    eq(p.get(), n, 'result of a method; ' + self.what)
                    p._delete()
            except (RuntimeError, self.w.tp.RemoteCallException) as e:
                if not self.closing:
                    raise
                out.append((n, e))

    def judge_log(self, complete=True):
        w, rec = self.w, self.rec
        true(set(rec.tgt.TH) <= {rec.ident}, '%s: executed in threads %s, GUI thread is %s' % (self.what, rec.tgt.TH, rec.ident))
        log = rec.tgt.LOG
        begun = [e[1] if isinstance(e, tuple) else e for e in log if not isinstance(e, tuple) or e[0] == 'b']
        true(len(set(begun)) == len(begun), '%s: executed twice: %s' % (self.what, begun))
        for k, s in enumerate(self.sent):
            mine = [n for n in begun if n // 100 == k]
            if complete:
                eq(mine, s, '%s: requests of client %d in order' % (self.what, k))
            else:
                eq(mine, s[:len(mine)], '%s: requests of client %d in order' % (self.what, k))
        if self.kind != 'events':
            for a, b in zip(log[::1], log[1:]):
                if isinstance(a, tuple) and a[0] == 'b':
                    eq(b, ('e', a[1]), '%s: requests overlap' % self.what)
        gui = [u for u in self.front.users if not u.startswith('s/')]
        true(not gui and len(self.front.users) <= 1 and 's/main' not in self.front.users,
             '%s: the socket is used by %s' % (self.what, self.front.users))
        true(not w.net.faults, '%s: %s' % (self.what, w.net.faults[:1]))
        return begun

    def reply(self, n, r, ops_kind):
        w = self.w
        if ops_kind == 'E':
            try:
                v = r.result(5)
            except w.tp.RemoteCallException as e:
                true('bad-%d' % n in str(e), '%s: error of request %d: %s' % (self.what, n, e))
                return 'error'
            true(False, '%s: request %d returned %r' % (self.what, n, v))
        v = r.result(5) if hasattr(r, 'result') else r
        eq(list(v), ['r', n], '%s: result of %d' % (self.what, n))
        return 'ok'


class Serve(Qt):
    """Nothing is lost or done elsewhere while the server is running."""

    def __init__(self, progs, kind='idle', lines=(), depth=0, two=False, **kw):
        Qt.__init__(self, **kw)
        self.progs, self.kind_, self.lines, self.depth, self.two = progs, kind, lines, depth, two
        self.name = 'serve-%s-%s%s' % ('+'.join(progs) if progs else 'all%d' % depth, kind, '-lines' if lines else '')

    def main(self, w):
        progs = self.progs
        self.closing = False
        if not progs:
            progs = [''.join('SANEDPG'[pick(w, 7, 'op')] for i in range(k)) for k in (self.depth, self.depth - 1)]
        self.kind = self.kind_ or ('idle', 'busy', 'events')[pick(w, 3, 'gui')]
        self.what = 'clients %s, %s' % (progs, self.kind)
        self.sent = [[] for p in progs]
        self.begin(w)
        outs = [[] for p in progs]
        self.cl = {}

        def body(k):
            def f(sync):
                c = w.tp.RPCClient(self.rec.addr)
                t = c._import('mct_tgt')
                self.cl[k] = c
                if k == 0:
                    self.busy(self.kind)
                sync()
                self.program(k, progs[k], t, outs[k])
                real = [o for o in progs[k] if o not in 'DPNG']
                for (n, r) in outs[k]:
                    self.reply(n, r, progs[k][n % 100])
                eq(len(outs[k]), len(real), 'replies')
                # everything sent before has been processed now
                eq(c.ping(), 'pong', self.what)
            return f
        threads(w, [body(k) for k in range(len(progs))], 20)
        w.sched.sleep(0.2, 'harness-wait')
        self.judge_log()
        true(not self.errors, '%s: reported %r' % (self.what, self.errors[:1]))
        eq(self.alive(), self.tasks, 'threads in the server process')
        w.note(tuple(e[1] if isinstance(e, tuple) else e for e in self.rec.tgt.LOG))


class Close(Qt):
    """Closing with requests queued at every stage."""

    def __init__(self, prog=None, how=None, kind=None, lines=(), **kw):
        Qt.__init__(self, **kw)
        self.prog, self.how_, self.kind_, self.lines = prog, how, kind, lines
        self.name = 'close-%s-%s-%s%s' % (prog or 'all', how or 'all', kind or 'all', '-lines' if lines else '')

    def main(self, w):
        HOW = ('sync', 'async', 'off', 'gui', 'shutdown')
        how = self.how_ or HOW[pick(w, 4, 'how')]
        quit_ = not pick(w, 2, 'keep the application')
        prog = self.prog
        if not prog:
            prog = ('A', 'AA', 'AN', 'NA', 'AAA', 'NNN', 'EA', 'SA', 'AP')[pick(w, 9, 'requests')]
            self.delay = (0.0, 0.005, 0.012, 0.05)[pick(w, 4, 'when')]
        else:
            self.delay = 0.0
        self.kind = self.kind_ or ('idle', 'busy', 'events')[pick(w, 3, 'gui')]
        self.what = 'closed by %s, after %s, %s, %s%s' % (how, prog, self.delay, self.kind, '' if quit_ else ', app stays')
        self.closing = True
        self.sent = [[]]
        self.begin(w, quit_on_close=quit_)
        rec = self.rec
        st = {'closed': False, 'len': None}
        out = []
        first = self.clients[0]

        def user(sync):
            c = w.tp.RPCClient(rec.addr)
            t = c._import('mct_tgt')
            sync()
            self.program(0, prog, t, out)
            t0 = w.sched.now
            res = []
            for n, r in out:
                if isinstance(r, Exception):
                    res.append((n, 'refused'))
                    continue
                if not hasattr(r, 'result'):
                    eq(list(r), ['r', n], self.what)
                    res.append((n, 'ok'))
                    continue
                try:
                    res.append((n, self.reply(n, r, prog[n % 100])))
                except RuntimeError as e:
                    res.append((n, 'refused'))
                except w.tp.RemoteCallException as e:
                    true(False, '%s: request %d: %s' % (self.what, n, e))
            true(w.sched.now - t0 < 1.5, '%s: it took %.2f s until the requests were answered' % (self.what, w.sched.now - t0))
            st['res'] = res
            # the notice arrives here, too
            wait_for(w, lambda: st['closed'], 5, self.what + ': close')
            w.time.sleep(0.5)
            true(c.disconnected(), '%s: the other client was not told' % self.what)

        def closer(sync):
            c = w.tp.RPCClient(rec.addr)
            sync()
            w.time.sleep(self.delay)
            if how == 'sync':
                eq(c.close_server(timeout=5), True, self.what)
            elif how == 'async':
                r = c.close_server(sync='async')
                if r is not True:
                    eq(r.result(5), True, self.what)
            elif how == 'off':
                c.close_server(sync='off')
                w.time.sleep(0.4)
            elif how == 'gui':
                self.gui(rec.srv.close)
                w.time.sleep(0.4)
            if how in ('sync', 'async'):
                true(c.disconnected(), '%s: the closing client does not know' % self.what)
            st['closed'] = True
            st['len'] = len(rec.tgt.LOG)
        threads(w, [user, closer], 20)
        w.sched.sleep(1.5, 'harness-wait')
        begun = self.judge_log(complete=False)
        eq(len(rec.tgt.LOG), st['len'], '%s: executed after the close' % self.what)
        for n, r in st['res']:
            true((r != 'refused') == (n in begun), '%s: request %d %s, but was%s executed' %
                 (self.what, n, r, '' if n in begun else ' not'))
        true(rec.addr.decode() not in w.net.bound, '%s: address still in use' % self.what)
        true(not self.errors, '%s: reported %r' % (self.what, self.errors[:1]))
        true(first.disconnected(), '%s: the idle client was not told' % self.what)
        true(rec.returned == quit_, '%s: application has %squit' % (self.what, '' if rec.returned else 'not '))
        if not quit_:
            # the application goes on, and may start another server
            got = []

            def again():
                srv = rec.tp.QtRPCServer(rec.addr.decode(), quit_on_close=False)
                srv.run_forever()
                got.append(srv)
            self.gui(again)
            wait_for(w, lambda: got, 2, self.what + ': application does not go on')
            c = w.tp.RPCClient(rec.addr)
            t = c._import('mct_tgt')
            eq(list(t.echo(7)), ['r', 7], self.what + ': second server')
            eq(rec.tgt.TH[-1], rec.ident, self.what + ': second server')
            eq(self.alive(), self.tasks, self.what + ': threads of the server process')
        else:
            eq(self.alive(), self.tasks - 1, self.what + ': threads of the server process')
        w.note(tuple(st['res']), quit_)


def scenarios(tier):
    q = tier == 'quick'
    d = 1 if q else 2
    L = [(Serve(None, None, depth=2 if q else 3), 0), (Close(), 0)]
    L += [(Serve(p, k), d) for p, k in ((('SA', 'AN'), 'idle'), (('AAS', 'ES'), 'busy'), (('SN', 'PA'), 'events'))]
    L += [(Serve(('SA', 'NS'), 'idle', SRC), 1 if q else 2)]
    L += [(Close(p, h, k, ln), d + (p == 'AN')) for p, h, k, ln in (
        ('AN', 'sync', 'idle', ()), ('AAA', 'gui', 'idle', ()), ('NA', 'off', 'busy', ()), ('EA', 'async', 'events', ()))]
    L += [(Close('AA', 'sync', 'idle', SRC), 1 if q else 2), (Close('SA', 'gui', 'idle', SRC), 1 if q else 2)]
    return L
