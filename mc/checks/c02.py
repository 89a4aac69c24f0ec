"""C02: requests run once, in send order per client, one at a time."""
from ..harness import Sys, pick, serve, server, threads, eq, true
from ..world import Violation

ASSUMPTIONS = [
    'the transport delivers messages in order per connection (as ZeroMQ does)',
    'two clients (threads of one process) with up to 4 requests each',
]
TECHNIQUE = ('stateless model checking of the real client, server and Qt server: every mix of reply modes is '
             'enumerated, and every schedule and message delay up to a deviation bound is executed')


class Order(Sys):
    """Two clients with programs over S(ync), A(sync), O(ff), T(imed out), calls that
    F(ail) or whose result can not be sent (K), attributes G(ot) and P(ut), items (I, J),
    calls of an object whose reference is deleted next (D, E); pings, imports and transfers
    (B, M, X) as barriers."""
    opts = {'delays': (0.03,)}

    def __init__(self, mode, progs=None, depth=3, **kw):
        Sys.__init__(self, **kw)
        self.mode = mode
        self.progs = progs
        self.depth = depth
        self.name = 'order-%s-%s' % (mode, '-'.join(progs) if progs else 'all%d' % depth)

    def main(self, w):
        if self.mode == 'lazy':
            return self.lazy(w)
        rec = serve(w, mode=self.mode)
        progs = self.progs
        if progs is None:
            progs = [''.join('SAOTF'[pick(w, 5)] for i in range(self.depth)),
                     ''.join('SAO'[pick(w, 3)] for i in range(self.depth - 1))]
        sent = [[], []]
        threads(w, [lambda sync, k=k: self.client(w, rec, k, progs[k], sent[k], sync) for k in range(2)])
        w.sched.sleep(2.0, 'harness-wait')
        self.judge(w, rec.tgt, sent, progs, rec.ident if self.mode != 'thread' else None)

    def client(self, w, rec, k, prog, sent, sync, addr=None):
        c = w.tp.RPCClient(addr or rec.addr)
        t = c._import('mct_tgt')
        log = rec.tgt.LOG if rec else w.tgt.LOG
        held = [t.Stepper(_return_type='proxy') for op in prog if op in 'DE']
        sync()
        futs = []
        for i, op in enumerate(prog):
            if op in 'BMX':
                # the reply of a request that runs nothing follows those of all that were sent before
                if op == 'B':
                    c.ping()
                elif op == 'M':
                    c._import('mct_vals')
                else:
                    c.transfer([i])
                true(all(('e', n) in log for n in sent), 'a request was overtaken by %s: %r of %r' % (op, log, sent))
                continue
            n = (k + 1) * 100 + i
            sent.append(n)
            if op == 'S':
                eq(t.step(n), ('r', n), 'blocking call')
            elif op == 'A':
                futs.append((t.step(n, _sync='async'), n))
            elif op == 'O':
                t.step(n, _sync='off')
            elif op in 'DE':
                q = held.pop()
                futs.append((q.step(n, _sync='async'), n))
                q._delete(sync={'D': 'off', 'E': 'sync'}[op])
                if op == 'E':
                    true(all(('e', n) in log for n in sent), 'a request was overtaken by delete: %r of %r' % (log, sent))
            elif op == 'T':
                try:
                    t.step(n, 0.1, _timeout=0.02)
                except TimeoutError:
                    pass
            elif op in 'FK':
                for sync in ('sync', 'off', 'async'):
                    m = n + {'sync': 0, 'off': 20, 'async': 40}[sync]
                    if m != n:
                        sent.append(m)
                    f = (lambda: t.step_fail(m, x=1, _sync=sync)) if op == 'F' else (lambda: t.step_odd(m, _sync=sync))
                    try:
                        r = f()
                        if sync == 'async':
                            r.result(5)
                        if sync != 'off':
                            raise Violation('call %d did not fail' % m)
                    except w.tp.RemoteCallException:
                        true(sync != 'off', 'failure of a call without reply raised')
            elif op == 'G':
                futs.append((c.get_obj(t.SPY.__getattr__('p%d' % n), sync='async'), n))
            elif op == 'P':
                t.SPY._deferred_attr('__setattr__')('p%d' % n, 0, _sync='off')
            elif op == 'I':
                eq(t.SPY[n], ('r', n), 'item access')
            elif op == 'J':
                t.SPY[n] = 0
        for f, n in futs:
            eq(f.result(5), ('r', n), 'asynchronous call')

    def judge(self, w, tgt, sent, progs, ident):
        log = tgt.LOG
        order = [n for e, n in log if e == 'b']
        for k, s in enumerate(sent):
            got = [n for n in order if n // 100 == k + 1]
            eq(got, s, 'requests of client %d with modes %s executed' % (k, progs[k]))
        true(len(log) == 2 * len(order), 'requests left unfinished: %r' % (log,))
        for i in range(0, len(log), 2):
            true(log[i][1] == log[i + 1][1] and log[i][0] == 'b',
                 'two requests ran at the same time: %r' % (log,))
        th = set(tgt.TH)
        true(len(th) <= 1, 'requests executed in several threads: %r' % (th,))
        if ident is not None and th:
            true(th == {ident}, 'requests not executed in the thread running the server')
        w.note(tuple(order))

    def lazy(self, w):
        """The server's thread waits for another server meanwhile."""
        rec = serve(w)
        s = w.tp.RPCServer()
        s.run_lazy()
        me = w.img._get_ident()
        c = w.tp.RPCClient(rec.addr)
        t = c._import('mct_tgt')
        progs = self.progs
        sent = [[], []]
        st = {'left': 2}

        def run(k):
            def sync():
                w.free_on()
            self.client(w, None, k, progs[k], sent[k], sync, addr=s.address)
            st['left'] -= 1
        for k in range(2):
            w.th.Thread(target=w._guard(lambda k=k: run(k)), daemon=True).start()
        n = 0
        while st['left'] and not w.violations:
            n += 1
            true(n < 40, 'clients of the waiting thread were not served')
            eq(t.slow(n, 0.2), ('r', n), 'call made by the server thread')
        w.free_off()
        for i in range(3):
            eq(t.slow(n, 0.2), ('r', n), 'call made by the server thread')
        if not w.violations:
            self.judge(w, w.tgt, sent, progs, me)


class Nested(Sys):
    """While a request waits on a remote call, others may run; after it, order holds again."""
    opts = {'delays': (0.03,)}

    def __init__(self, mode, **kw):
        Sys.__init__(self, **kw)
        self.mode = mode
        self.name = 'nested-' + mode

    def main(self, w):
        a = serve(w, 'a', mode=self.mode)
        b = serve(w, 'b')

        def c0(sync):
            c = w.tp.RPCClient(a.addr)
            t = c._import('mct_tgt')
            cb = w.tp.RPCClient(b.addr)
            tb = cb._import('mct_tgt')
            sync()
            # a calls b; the calls of the second client may run inside, never half-way
            eq(t.through(1, tb.slow), ('r', 1), 'nested call')
            eq(t.step(102), ('r', 102), 'later call')

        def c1(sync):
            c = w.tp.RPCClient(a.addr)
            t = c._import('mct_tgt')
            sync()
            fs = [t.step(200 + i, _sync='async') for i in range(2)]
            t.step(202, _sync='off')
            for i, f in enumerate(fs):
                eq(f.result(5), ('r', 200 + i), 'call during the nested one')
        threads(w, [c0, c1])
        w.sched.sleep(1.0, 'harness-wait')
        log = a.tgt.LOG
        order = [n for e, n in log if e == 'b']
        eq([n for n in order if n >= 200], [200, 201, 202], 'order of the second client')
        eq([n for n in order if n < 200], [1, 102], 'order of the first client')
        depth = []
        for e, n in log:
            if e == 'b':
                true(not depth or depth == [1], 'request %d started within %r: %r' % (n, depth, log))
                depth.append(n)
            else:
                true(depth and depth[-1] == n, 'request %d ended out of turn: %r' % (n, log))
                depth.pop()
        w.note(tuple(log))


class Leaves(Sys):
    """The client is gone directly after its last request."""
    opts = {'fairq': False, 'latency': 0.02, 'delays': (0.03,)}

    def __init__(self, mode, **kw):
        Sys.__init__(self, **kw)
        self.mode = mode
        self.name = 'leaves-' + mode

    def main(self, w):
        how = ('close', 'exit', 'close, exit', 'thread ends')[pick(w, 4, 'how')]
        prog = ''.join('OAP'[pick(w, 3)] for i in range(2 + pick(w, 2)))
        rec = serve(w, mode=self.mode)
        q = w.process('q')
        what = '%s, then %s' % (prog, how)

        def requests():
            c = q.import_module('teleprox').RPCClient(rec.addr)
            t = c._import('mct_tgt')
            t._set_proxy_options(sync='off')
            w.free_on()
            for i, o in enumerate(prog):
                if o == 'P':
                    t.SPY._deferred_attr('__setattr__')('p%d' % i, 0, _sync='off')
                elif o == 'A':
                    t.step(i, _sync='async')
                else:
                    t.step(i)
            if 'close' in how:
                c.close()

        def run():
            if how == 'thread ends':
                th = q.import_module('threading').Thread(target=w._guard(requests))
                th.start()
                th.join()
            else:
                requests()
            if 'exit' not in how:
                w.sched.block(lambda: False, 3.0, 'harness-idle')
        w.start(q, lambda: w._guard(run)(), driver=False)
        w.sched.sleep(2.5, 'harness-wait')
        w.free_off()
        got = [n for e, n in rec.tgt.LOG if e == 'b']
        want = list(range(len(prog)))
        eq(got, want, '%s: executed' % what)
        w.cases += 1
        w.note(what)


def scenarios(tier):
    q = [(Order(m, depth=3), 0) for m in ('forever', 'qt', 'thread')]
    q += [(Order(m, p), 1) for m in ('forever', 'qt') for p in (('SAO', 'OAS'), ('AOT', 'AAO'))]
    q += [(Order(m, p), 1) for m in ('forever', 'qt', 'thread') for p in (('AFOA', 'OAK'), ('GAP', 'OGSG'), ('AIOG', 'PJA'), ('ODBA', 'AEOM'), ('ADX', 'OBDM'))]
    q += [(Order('lazy', p), 1) for p in (('SAO', 'OAS'), ('AAA', 'OOS'), ('AFO', 'GPS'))]
    q += [(Nested('forever'), 1), (Nested('qt'), 1)]
    q += [(Leaves(m), 1) for m in ('forever', 'thread', 'qt')]
    if tier == 'thorough':
        q = [(Order(m, depth=4), 0) for m in ('forever', 'qt', 'thread')]
        q += [(Order(m, p), 2) for m in ('forever', 'qt') for p in (('SAO', 'OAS'), ('AOT', 'AAO'))]
        q += [(Order(m, p), 2) for m in ('forever', 'qt', 'thread') for p in (('AFOA', 'OAK'), ('GAP', 'OGSG'), ('AIOG', 'PJA'), ('ODBA', 'AEOM'), ('ADX', 'OBDM'))]
        q += [(Order('lazy', ('AFO', 'GPS')), 2)]
        q += [(Order('lazy', ('SAO', 'OAS')), 2), (Order('lazy', ('AAA', 'OOS')), 2)]
        q += [(Nested('forever'), 2), (Nested('qt'), 2)] + [(Leaves(m), 2) for m in ('forever', 'thread', 'qt')]
    return q
