"""C12: one working connection per thread and server."""
from ..harness import Sys, pick, serve, threads, other, wait_for, eq, true

ASSUMPTIONS = [
    'thread ids are reused as soon as a thread has ended (as on Linux)',
    'a client whose server has closed may be replaced by a new one without closing it first, or not',
]
TECHNIQUE = ('stateless model checking of the real clients and servers: all histories of connecting, closing and '
             'restarting up to a depth against a reference model, and all schedules of concurrent connections up to '
             'a deviation bound, including late teardown of old connections')

ADDR = 'tcp://127.0.0.1:6000'


def socks(img):
    c = img.ctx_instance
    return len(c.socks) if c is not None else 0


class Mute:
    """A process that listens but never answers."""

    def __init__(self, w, n):
        self.rec = other(w, 'mute%d' % n, self.run)
        wait_for(w, lambda: self.rec.done, 3, 'start of a mute server')

    def run(self, rec):
        rec.s = rec.img.import_module('zmq').Context.instance().socket(6)
        rec.s.linger = 0
        rec.s.bind(ADDR)

    def close(self, w):
        self.rec.s.close()


class Histories(Sys):
    opts = {'max_steps': 100000, 'fairq': False}

    def __init__(self, depth, **kw):
        Sys.__init__(self, **kw)
        self.depth = depth
        self.name = 'histories-%d' % depth

    def main(self, w):
        self.w = w
        server = None           # None, 'mute', or the record of a server
        client = None           # the client in use
        alive = False           # its server has not been closed
        made = []
        hist = []
        n = 0
        RPC = w.tp.RPCClient
        for i in range(self.depth):
            ops = ['get', 'create']
            if client is not None:
                ops += ['close', 'use']
            ops += ['down'] if server is not None else ['up', 'mute']
            if i == self.depth - 1:
                ops = [o for o in ops if o not in ('down', 'up', 'mute')]
            op = ops[pick(w, len(ops), 'op')]
            hist.append(op)
            what = 'after %s' % hist
            if op in ('get', 'create'):
                t0 = w.sched.now
                try:
                    c = RPC.get_client(ADDR) if op == 'get' else RPC(ADDR)
                    err = None
                except Exception as e:
                    c, err = None, e
                dt = w.sched.now - t0
                true(dt < 2.5, '%s: took %.2f s' % (what, dt))
                fresh = server is not None and server != 'mute'
                if client is not None and op == 'get':
                    true(c is client, '%s: got %r instead of the same client (%r)' % (what, c or err, client))
                elif client is not None and (alive or isinstance(err, KeyError)):
                    true(isinstance(err, KeyError), '%s: got %r, expected KeyError' % (what, c or err))
                elif server is None:
                    true(isinstance(err, ConnectionRefusedError), '%s: got %r, expected ConnectionRefusedError' % (what, c or err))
                elif not fresh:
                    true(isinstance(err, TimeoutError), '%s: got %r, expected TimeoutError' % (what, c or err))
                else:
                    true(err is None and all(c is not x for x in made), '%s: got %r, expected a new client' % (what, c or err))
                    if client is not None:
                        client.close()          # (replaced)
                        true(RPC.get_client(ADDR) is c, '%s: closing a replaced client affects the new one' % what)
                    client, alive = c, True
                    made.append(c)
            elif op == 'close':
                client.close()
                client = None
            elif op == 'use':
                n += 1
                try:
                    r = client.call_obj(self.echo(client), (n,)) if alive else client.ping()
                    err = None
                except Exception as e:
                    r, err = None, e
                if alive:
                    true(err is None and r == ('r', n), '%s: got %r' % (what, err or r))
                else:
                    true(isinstance(err, RuntimeError), '%s: got %r, expected RuntimeError' % (what, err or r))
            elif op == 'up':
                server = serve(w, 's%d' % i, address=ADDR)
            elif op == 'mute':
                server = 'mute'
                self.mute = Mute(w, i)
            elif op == 'down':
                if server == 'mute':
                    self.mute.close(w)
                else:
                    res = []

                    def down():
                        # a new thread asks the server to close, with a client of its own
                        c = RPC.get_client(ADDR)
                        res.append(c is not client)
                        res.append(c.close_server())
                        c.close()
                    t = w.th.Thread(target=down)
                    t.start()
                    t.join()
                    eq(res, [True, True], '%s: another thread closing the server' % what)
                    server.leave = True
                server, alive = None, False
                w.sched.sleep(0.05, 'harness-wait')
            eq(socks(w.img), 0 if client is None else 1, '%s: open sockets' % what)
            eq(w.open_tcp, 0, '%s: open probes' % what)
            true(w.tp.RPCServer.get_server() is None, '%s: a server is registered' % what)
        w.note(tuple(hist))

    def echo(self, c):
        return c._import('mct_tgt').echo


class Failures(Sys):
    """Attempts that fail at different points, and the next attempt."""
    name = 'failures'
    opts = {'fairq': False}

    def main(self, w):
        RPC = w.tp.RPCClient
        kind = ('refused', 'mute', 'serializer', 'reentrant', 'late')[pick(w, 5, 'failure')]
        local = pick(w, 2, 'start_local_server')
        via = pick(w, 2, 'get_client') if kind in ('refused', 'mute', 'late') and not local else 0
        rounds = 1 + pick(w, 2, 'rounds')
        have = pick(w, 2, 'old_client')
        what = '%s, start_local_server=%d, get_client=%d, %d times' % (kind, local, via, rounds)
        kw = {'start_local_server': bool(local)}
        if kind == 'serializer':
            kw['serializer'] = 'nope'
        if kind == 'reentrant':
            kw['reentrant'] = 'maybe'
        old = None
        if have:
            # a connection whose server has gone
            s0 = serve(w, 's0', address=ADDR)
            old = RPC(ADDR)
            eq(old.close_server(), True, 'close')
            w.sched.sleep(0.05, 'harness-wait')
            if via:
                return
        n0 = socks(w.img)
        mute = srv = None
        if kind in ('mute', 'late'):
            mute = Mute(w, 0)
        if kind in ('serializer', 'reentrant'):
            srv = serve(w, 's1', address=ADDR)
        for i in range(rounds):
            try:
                c = RPC.get_client(ADDR) if via else RPC(ADDR, **kw)
            except Exception as e:
                want = {'refused': ConnectionRefusedError, 'serializer': ValueError, 'reentrant': AssertionError}.get(kind, TimeoutError)
                true(isinstance(e, want), '%s: got %r, expected %s' % (what, e, want.__name__))
            else:
                true(False, '%s: got %r' % (what, c))
            eq(socks(w.img), n0, '%s: open sockets' % what)
            eq(w.open_tcp, 0, '%s: open probes' % what)
            true(w.tp.RPCServer.get_server() is None, '%s: left a local server behind' % what)
            eq(len([t for t in w.img.tasks if not t.done]), 1, '%s: threads' % what)
        if mute:
            mute.close(w)
        if srv is None:
            srv = serve(w, 's1', address=ADDR)
        kw.pop('serializer', None)
        kw.pop('reentrant', None)
        try:
            c = RPC.get_client(ADDR) if via else RPC(ADDR, **kw)
        except Exception as e:
            true(False, '%s: a later attempt raised %r' % (what, e))
        true(c is not old, '%s: got the old client' % what)
        eq(c._import('mct_tgt').echo(7), ('r', 7), '%s: call' % what)
        true(RPC.get_client(ADDR) is c, '%s: not the same client' % what)
        true((w.tp.RPCServer.get_server() is not None) == bool(local), '%s: local server' % what)
        if local:
            eq(c._import('mct_tgt').hop([], 1), 1, 'hop')
            r = []
            c._import('mct_tgt').call(r.append, 5)
            eq(r, [5], '%s: callback' % what)
        w.note(kind, local, via, rounds)


class Slow(Sys):
    """A server that answers late."""
    name = 'slow'
    opts = {'fairq': False}

    def main(self, w):
        at = (0.05, 0.15, 0.95, 1.05, 1.5, 2.5)[pick(w, 6, 'answers_at')]
        RPC = w.tp.RPCClient
        st = {}

        def run(rec):
            s = rec.tp.RPCServer(address=ADDR)
            st['bound'] = True
            w.sched.sleep(at, 'harness-wait')
            st['srv'] = s
            rec.done = True
            s.run_forever()
        rec = other(w, 's', run)
        wait_for(w, lambda: st.get('bound'), 3, 'server')
        t0 = w.sched.now
        try:
            c = RPC.get_client(ADDR)
            err = None
        except TimeoutError as e:
            err = e
        dt = w.sched.now - t0
        if at < 1:
            true(err is None, 'TimeoutError although the server answered after %g s' % at)
        elif at > 1.2:
            true(err is not None and dt < 1.3, 'no TimeoutError after %g s' % dt)
            eq(socks(w.img), 0, 'open sockets')
        w.sched.sleep(max(0, at + 0.1 - dt), 'harness-wait')
        c = RPC.get_client(ADDR)
        for i in range(3):
            eq(c._import('mct_tgt').echo(i), ('r', i), 'call after a late answer')
        true(RPC.get_client(ADDR) is c, 'not the same client')
        w.note(at, err is None)


class Concurrent(Sys):
    """Threads and processes of the same name connect, use, close and connect again."""
    opts = {'delays': (0.02,), 'ghost': True}

    def __init__(self, nthreads, nprocs, prog, nsrv=1, proc_name='same', **kw):
        Sys.__init__(self, **kw)
        self.proc_name = proc_name
        self.nthreads, self.nprocs, self.prog, self.nsrv = nthreads, nprocs, prog, nsrv
        self.name = 'concurrent-%dthreads-%dprocs-%s-%dsrv' % (nthreads, nprocs, prog, nsrv)
        if proc_name != 'same':
            self.name += '-%d' % len(proc_name)

    def body(self, w, tp, th, log, k, sync):
        log.set_thread_name('worker')
        th.current_thread().name = 'worker'
        sync()
        seen = []
        c = None
        closed = False
        for j, o in enumerate(self.prog):
            rec = self.recs[(k + j) % self.nsrv if o == 'g' else 0]
            if o == 'g':
                d = tp.RPCClient.get_client(rec.addr)
                if c is not None and self.nsrv == 1 and not closed:
                    true(d is c, 'thread %d: get_client() returned another client' % k)
                c, closed = d, False
                true(tp.RPCClient.get_client(rec.addr) is c, 'thread %d: get_client() returned another client' % k)
                for kk, d in self.clients:
                    true(kk == k or d is not c, 'threads %d and %d got the same client' % (k, kk))
                self.clients.append((k, c))
            elif o == 'c':
                c.close()
                closed = True
            elif o == 'e':
                n = k * 100 + j
                eq(c._import('mct_tgt', timeout=5).echo(n, _timeout=5), ('r', n), 'thread %d: call' % k)
            elif o == 'a':
                n = k * 100 + j
                p = c._import('mct_tgt', timeout=5)
                f, g = p.echo(n, _sync='async'), p.echo(n + 1, _sync='async')
                eq(g.result(5), ('r', n + 1), 'thread %d: call' % k)
                eq(f.result(5), ('r', n), 'thread %d: call' % k)

    def main(self, w):
        self.clients = []
        self.recs = [serve(w, 's%d' % i) for i in range(self.nsrv)]
        log = w.img.import_module('teleprox.log')
        log.set_process_name(self.proc_name)
        others = []
        st = {'go': False, 'n': 0}

        def run(rec):
            rec.img.import_module('teleprox.log').set_process_name(self.proc_name)

            def sync():
                st['n'] += 1
                w.sched.block(lambda: st['go'], None, 'harness-sync')
            self.body(w, rec.tp, rec.th, rec.img.modules['teleprox.log'], self.nthreads + len(others), sync)
        for i in range(self.nprocs - 1):
            others.append(other(w, 'q%d' % i, run))
            wait_for(w, lambda: st['n'] == len(others), 3, 'process')

        def go(sync):
            sync()
            st['go'] = True
        fns = [lambda sync, k=k: self.body(w, w.tp, w.th, log, k, sync) for k in range(self.nthreads)]
        threads(w, fns + ([go] if others else []), 30)
        wait_for(w, lambda: all(r.done for r in others), 30, 'end of the other processes')
        w.sched.sleep(0.1, 'harness-wait')
        for r in self.recs:
            true(r.img.state == 'running' and not r.img.unhandled, 'server: %s' % r.img.unhandled)
            true(len(r.tgt.LOG) == len(set(r.tgt.LOG)), 'executed twice: %s' % r.tgt.LOG)
        w.note(tuple(tuple(r.tgt.LOG) for r in self.recs))


class Generations(Sys):
    """Threads that come and go, with and without closing their clients."""
    name = 'generations'
    opts = {'ghost': True}

    def main(self, w):
        rec = serve(w)
        n = 3
        how = [pick(w, 3, 'leave') for i in range(n)]
        over = pick(w, 2, 'overlap')
        keep = []
        RPC = w.tp.RPCClient

        def run(i):
            def f():
                c = RPC.get_client(rec.addr)
                true(all(c is not d for d in keep), 'thread %d got the client of an earlier thread' % i)
                keep.append(c)
                eq(c._import('mct_tgt').echo(i), ('r', i), 'call')
                try:
                    RPC(rec.addr)
                except KeyError:
                    pass
                else:
                    true(False, 'a second client was created')
                if how[i] == 1:
                    c.close()
                    d = RPC.get_client(rec.addr)
                    true(d is not c, 'a closed client is used again')
                    eq(d._import('mct_tgt').echo(i + 10), ('r', i + 10), 'call')
                    keep.append(d)
                    if not over:
                        d.close()
                elif how[i] == 2:
                    # left to a collection at any time
                    keep.pop()
            return w._guard(f)
        ts = []
        for i in range(n):
            t = w.th.Thread(target=run(i))
            t.start()
            if over:
                ts.append(t)
            else:
                t.join()
        for t in ts:
            t.join()
        # closing the client of a thread that ended must not affect others
        c = RPC.get_client(rec.addr)
        for d in keep:
            d.close()
        true(RPC.get_client(rec.addr) is c, 'closing old clients made this one disappear')
        eq(c._import('mct_tgt').echo(99), ('r', 99), 'call')
        w.note(tuple(how), over)


def scenarios(tier):
    q = tier == 'quick'
    d = 1 if q else 2
    return [
        (Histories(5 if q else 7), 0),
        (Failures(), 0),
        (Slow(), 1),
        (Generations(), 0 if q else 1),
        (Concurrent(2, 1, 'gege'), d),
        (Concurrent(2, 1, 'gecge'), d),
        (Concurrent(3, 1, 'ge'), d),
        (Concurrent(2, 1, 'ge'), d),
        (Concurrent(1, 2, 'gecga'), d),
        (Concurrent(1, 3, 'ge'), d),
        (Concurrent(2, 1, 'gege', 2), d),
        (Concurrent(2, 2, 'ge', proc_name='x' * 400), 0 if q else 1),
        (Concurrent(2, 2, 'ge', proc_name='\u20ac' * 200), 0 if q else 1),
    ]
