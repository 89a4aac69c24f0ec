"""C01: every reply reaches exactly the call that asked for it."""
from ..harness import Sys, pick, serve, server, threads, expect, eq, true

ASSUMPTIONS = [
    'the transport delivers messages in order per connection, without loss except at its high-water marks',
    'one server process (two for nested calls) and one or two client threads; at most 5 requests per client program',
]

SYNC, ASYNC, OFF, TMO, ASLOW, DROP, LAST, FIRST, FAIL, AFAIL, DONE, OFFS = range(12)


class Program(Sys):
    """One client runs every program of `depth` operations."""
    opts = {'fairq': False}

    def __init__(self, depth, ops, **kw):
        Sys.__init__(self, **kw)
        self.depth = depth
        self.ops = ops
        self.name = 'program-%d' % depth

    def main(self, w):
        s = server(w)
        c = w.tp.RPCClient(s.address)
        t = c._import('mct_tgt')
        n = 0
        futs = []       # (future, kind, token)
        prog = []
        for i in range(self.depth):
            ops = [o for o in self.ops if o not in (DROP, LAST, FIRST, DONE) or futs]
            op = ops[pick(w, len(ops))]
            prog.append(op)
            n += 1
            if op == SYNC:
                eq(t.echo(n), ('r', n), 'blocking call %d of %s' % (n, prog))
            elif op == ASYNC:
                futs.append((t.echo(n, _sync='async'), 'ok', n))
            elif op == OFF:
                eq(t.echo(n, _sync='off'), None, 'call without reply in %s' % prog)
            elif op == OFFS:
                eq(c.ping(sync='off'), None, 'ping without reply in %s' % prog)
                eq(c._import('mct_tgt', sync='off'), None, 'import without reply in %s' % prog)
                eq(c.send('get_item', {'name': 'self'}, sync='off'), None, 'item without reply in %s' % prog)
                eq(c.transfer(n, sync='off'), None, 'transfer without reply in %s' % prog)
            elif op == TMO:
                expect(w, TimeoutError, lambda: t.slow(n, 0.3, _timeout=0.1), 'slow call %d of %s' % (n, prog))
            elif op == ASLOW:
                futs.append((t.slow(n, 0.2, _sync='async'), 'ok', n))
            elif op == FAIL:
                self.failed(w, lambda: t.fail(n), n, prog)
            elif op == AFAIL:
                futs.append((t.fail(n, _sync='async'), 'err', n))
            elif op == DROP:
                futs.pop(0)
            elif op in (LAST, FIRST):
                self.collect(w, futs.pop(-1 if op == LAST else 0), prog)
            elif op == DONE:
                self.poll(w, futs[-1], prog)
        order = pick(w, 3, 'order') if len(futs) > 1 else 0
        if order:
            futs.reverse()
        if order == 2:
            # all replies have arrived
            w.time.sleep(1.0)
            for f, k, n in futs:
                true(f.done(), 'done() of request %d of %s is false after its reply has arrived' % (n, prog))
        while futs:
            self.collect(w, futs.pop(0), prog)
        eq(t.echo(99), ('r', 99), 'call after %s' % prog)
        w.note(tuple(prog))

    def failed(self, w, f, n, prog):
        e = expect(w, w.tp.RemoteCallException, f, 'failing call %d of %s' % (n, prog))
        true(e.type_str == 'ValueError' and ('bad-%d\n' % n) in str(e),
             'failing call %d of %s got another error: %s' % (n, prog, str(e)[-200:]))

    def collect(self, w, fkn, prog):
        f, k, n = fkn
        if k == 'ok':
            eq(f.result(timeout=5), ('r', n), 'result of request %d of %s' % (n, prog))
        else:
            self.failed(w, lambda: f.result(timeout=5), n, prog)
        true(f.done(), 'completed request %d of %s is not done' % (n, prog))

    def poll(self, w, fkn, prog):
        end = w.sched.now + 5
        while not fkn[0].done():
            true(w.sched.now < end, 'done() of request %d never became true in %s' % (fkn[2], prog))
            w.time.sleep(0.01)


class Unreadable(Sys):
    """Values that the receiving side fails to decode, among other requests."""
    opts = {'fairq': False}
    OPS = ('sync', 'async', 'off', 'bad sync', 'bad async', 'bad off', 'bad arg', 'bad arg async', 'poll', 'last', 'first', 'drop')

    def __init__(self, depth, forms=True, **kw):
        Sys.__init__(self, **kw)
        self.depth, self.forms = depth, forms
        self.name = 'unreadable-%d' % depth

    def main(self, w):
        ser, kind, form = 'msgpack', 0, 1
        if self.forms:
            ser = ('msgpack', 'json')[pick(w, 2, 'serializer')]
            kind = pick(w, 4, 'kind')
            form = pick(w, 3, 'form')
        st = w.img.import_module('teleprox.serializer')
        types = tuple(st.default_serialize_types) + (w.tgt.Unreadable,)
        s = server(w, serialize_types=types)
        c = w.tp.RPCClient(s.address, serializer=ser, serialize_types=types)
        t = c._import('mct_tgt')
        futs = []
        prog = []
        for n in range(1, self.depth + 1):
            ops = [o for o in self.OPS if o not in ('poll', 'last', 'first', 'drop') or futs]
            op = ops[pick(w, len(ops))]
            prog.append(op)
            what = '%s of %s (%s, %d, %d)' % (n, prog, ser, kind, form)
            if op == 'sync':
                self.good(t.echo(n), n, what)
            elif op == 'off':
                eq(t.echo(n, _sync='off'), None, what)
            elif op == 'async':
                futs.append((t.echo(n, _sync='async'), n))
            elif op == 'bad sync':
                self.bad(w, lambda: t.unreadable(kind, form), what)
            elif op == 'bad off':
                eq(t.unreadable(kind, form, _sync='off'), None, what)
            elif op == 'bad async':
                futs.append((t.unreadable(kind, form, _sync='async'), None))
            elif op == 'bad arg':
                expect(w, w.tp.RemoteCallException, lambda: t.echo(w.tgt.unreadable(kind, form)), what)
            elif op == 'bad arg async':
                futs.append((t.echo(w.tgt.unreadable(kind, form), _sync='async'), None))
            elif op == 'poll':
                end = w.sched.now + 5
                while not futs[-1][0].done():
                    true(w.sched.now < end, 'done() never became true: %s' % what)
                    w.time.sleep(0.01)
            elif op == 'drop':
                futs.pop(0)
            else:
                self.collect(w, futs.pop(-1 if op == 'last' else 0), what)
        while futs:
            self.collect(w, futs.pop(0), 'in the end of %s (%s, %d, %d)' % (prog, ser, kind, form))
        self.good(t.echo(99), 99, 'call after %s' % prog)
        w.cases += 1
        w.note(tuple(prog))

    def good(self, r, n, what):
        true(list(r) == ['r', n], '%s: got %r' % (what, r))

    def bad(self, w, f, what):
        t0 = w.sched.now
        try:
            r = f()
        except TimeoutError:
            true(False, '%s: the failure is not reported to the call' % what)
        except Exception as e:
            true(w.sched.now < t0 + 1, '%s: took %.1f s' % (what, w.sched.now - t0))
        else:
            true(False, '%s: returned %r' % (what, r))

    def collect(self, w, fn, what):
        f, n = fn
        if n is None:
            self.bad(w, lambda: f.result(timeout=5), what)
        else:
            self.good(f.result(timeout=5), n, what)
        true(f.done(), '%s: completed request is not done' % what)


class TwoClients(Sys):
    """Two threads with clients of one server, under every schedule."""
    name = 'two-clients'
    opts = {'delays': (0.05,)}

    def __init__(self, prog, **kw):
        Sys.__init__(self, **kw)
        self.prog = prog
        self.name = 'two-clients-' + ''.join(prog)

    def main(self, w):
        s = server(w)
        w.left = 2
        w.ready = 0
        for k in range(2):
            w.th.Thread(target=lambda k=k: w._guard(lambda: self.client(w, s, k))(), daemon=True).start()
        w.sched.block(lambda: w.left == 0 or w.violations, None, 'harness-wait')

    def client(self, w, s, k):
        c = w.tp.RPCClient(s.address)
        t = c._import('mct_tgt')
        w.ready += 1
        w.sched.block(lambda: w.ready == 2, None, 'harness-sync')
        w.free_on()
        futs = []
        n = 100 * (k + 1)
        for op in self.prog[k]:
            n += 1
            if op == 'S':
                eq(t.echo(n), ('r', n), 'client %d call %d' % (k, n))
            elif op == 'A':
                futs.append((t.echo(n, _sync='async'), n))
            elif op == 'O':
                eq(t.echo(n, _sync='off'), None, 'no-reply call')
            elif op == 'T':
                try:
                    eq(t.echo(n, _timeout=0.02), ('r', n), 'client %d call %d' % (k, n))
                except TimeoutError:
                    w.note('timeout')
            elif op == 'R':
                f, m = futs.pop()
                eq(f.result(5), ('r', m), 'client %d result %d' % (k, m))
        for f, m in futs:
            eq(f.result(5), ('r', m), 'client %d result %d' % (k, m))
        w.note(tuple(w.tgt.LOG))
        w.left -= 1


class Nested(Sys):
    """Requests of two clients whose processing calls another server, and lets others in meanwhile."""
    opts = {'delays': (0.03,)}

    def __init__(self, mode, progs=None, depth=2, **kw):
        Sys.__init__(self, **kw)
        self.mode, self.progs, self.depth = mode, progs, depth
        self.name = 'nested-%s-%s' % (mode, '+'.join(progs) if progs else 'all%d' % depth)

    def main(self, w):
        a = serve(w, 'a', mode=self.mode)
        b = serve(w, 'b')
        progs = self.progs or [''.join('NSATFO'[pick(w, 6)] for i in range(self.depth)),
                               ''.join('NSA'[pick(w, 3)] for i in range(self.depth))]
        if 'N' not in ''.join(progs):
            return

        def client(k):
            def f(sync):
                c = w.tp.RPCClient(a.addr)
                t = c._import('mct_tgt')
                tb = w.tp.RPCClient(b.addr)._import('mct_tgt')
                sync()
                futs = []
                for i, op in enumerate(progs[k]):
                    n = 100 * (k + 1) + i
                    what = 'request %d (%s) of client %d of %s' % (i, op, k, progs)
                    if op == 'N':
                        eq(t.through(n, tb.slow, _timeout=9), ('r', n), what)
                    elif op == 'S':
                        eq(t.echo(n, _timeout=9), ('r', n), what)
                    elif op == 'A':
                        futs.append((t.through(n, tb.slow, _sync='async'), n, what))
                    elif op == 'T':
                        try:
                            eq(t.through(n, tb.slow, _timeout=0.02), ('r', n), what)
                        except TimeoutError:
                            pass
                    elif op == 'F':
                        e = expect(w, w.tp.RemoteCallException, lambda: t.through_fail(n, tb.slow), what)
                        true('bad-%d' % n in str(e), '%s got another error: %s' % (what, str(e)[-200:]))
                    elif op == 'O':
                        eq(t.through(n, tb.slow, _sync='off'), None, what)
                for f, n, what in futs:
                    eq(f.result(9), ('r', n), what)
            return f
        threads(w, [client(0), client(1)], 60)
        w.note(tuple(progs))


class Long(Sys):
    """Very many requests of one client: outstanding, timed out, abandoned."""
    name = 'long'

    def __init__(self, n, **kw):
        Sys.__init__(self, **kw)
        self.n = n
        self.name = 'long-%d' % n

    def main(self, w):
        s = server(w)
        c = w.tp.RPCClient(s.address)
        t = c._import('mct_tgt')
        how = pick(w, 3)
        keep = []
        for i in range(self.n):
            f = t.echo(i, _sync='async')
            if how == 0 or i % 3 != 1:
                keep.append((f, i))
            del f
            if how == 2 and i % 50 == 49:
                expect(w, TimeoutError, lambda: t.slow(-i, 0.2, _timeout=0.05), 'slow call')
        eq(t.echo('x'), ('r', 'x'), 'call after %d requests' % self.n)
        if pick(w, 2, 'order'):
            keep.reverse()
        for f, i in keep:
            eq(f.result(5), ('r', i), 'request %d of %d' % (i, self.n))
        w.note(len(w.tgt.LOG))


class Backlog(Sys):
    """More outstanding requests than the transport's default queue sizes
    (scaled down from 1000 to 3)."""
    name = 'backlog'
    opts = {'hwm': 3}

    def __init__(self, n, busy, **kw):
        Sys.__init__(self, **kw)
        self.n = n
        self.busy = busy
        self.name = 'backlog-%d%s' % (n, '-busy' if busy else '')

    def main(self, w):
        s = server(w)
        c = w.tp.RPCClient(s.address)
        t = c._import('mct_tgt')
        w.free_on()
        fs = []
        if self.busy:
            fs.append((t.slow(0, 0.5, _sync='async'), 0))
        for i in range(1, self.n + 1):
            fs.append((t.echo(i, _sync='async'), i))
        w.sched.sleep(1.0)
        if pick(w, 2, 'order'):
            fs.reverse()
        for f, i in fs:
            eq(f.result(5), ('r', i), 'request %d of %d' % (i, self.n))
        w.note(tuple(w.tgt.LOG))


def scenarios(tier):
    allops = [SYNC, ASYNC, OFF, TMO, AFAIL, FAIL, ASLOW, DROP, LAST, FIRST, DONE, OFFS]
    core = [SYNC, ASYNC, OFF, TMO, DROP, FIRST, DONE]
    q = [
        (Program(3, allops), 0),
        (Program(4, core), 0),
        (Unreadable(2), 0),
        (Unreadable(3, False), 0),
        (Long(1100), 0),
        (Backlog(12, False), 1),
        (Backlog(12, True), 1),
        (Nested('forever'), 0),
        (Nested('qt', ('NS', 'SA')), 1),
        (Nested('forever', ('NSA', 'FTN')), 1),
        (TwoClients(('AS', 'AS')), 2),
        (TwoClients(('TS', 'OA')), 2),
    ]
    if tier == 'thorough':
        q = [
            (Program(4, allops), 0),
            (Program(5, core), 0),
            (Unreadable(3), 0),
            (Unreadable(4, False), 0),
            (Long(1500), 0),
            (Backlog(30, False), 2),
            (Backlog(30, True), 2),
            (Nested('forever', depth=3), 0),
            (Nested('qt'), 1),
            (Nested('thread'), 1),
            (Nested('forever', ('NSA', 'FTN')), 2),
            (TwoClients(('AS', 'AS')), 2),
            (TwoClients(('TS', 'OA')), 2),
            (TwoClients(('AATR', 'SOAS')), 2),
            (TwoClients(('TTS', 'TTS')), 2),
        ]
    return q
