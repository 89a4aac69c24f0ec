"""C03: remote failures reach their caller only and never harm the server."""
from ..harness import Sys, pick, serve, threads, eq, true, expect, healthy

ASSUMPTIONS = [
    'the transport delivers messages in order per connection',
    'failure kinds are the listed ones; two clients in one process, the server in another',
]
TECHNIQUE = ('exhaustive enumeration of failure kinds x reply modes x serializers x positions, executed by the real '
             'client and server under a controlled scheduler; schedules up to a deviation bound for the concurrent '
             'scenarios')

# kind: (what is called, expected type name or None)
CALLS = {
    'value': ('ValueError', 'bad-1'), 'exit': ('SystemExit', ''), 'kbd': ('KeyboardInterrupt', ''),
    'stop': ('StopIteration', ''), 'gen': ('GeneratorExit', ''), 'base': ('OddBase', ''), 'badstr': ('BadStr', ''),
    'surr': ('ValueError', ''), 'chain': ('KeyError', 'inner-cause'), 'rec': ('RecursionError', ''),
    'os': ('FileNotFoundError', ''), 'assert': ('AssertionError', ''), 'syntax': ('SyntaxError', ''),
    'timeout': ('TimeoutError', ''), 'zmq': ('Again', ''), 'runtime': ('RuntimeError', 'Cannot'),
    'group': ('ExceptionGroup', ''), 'nomsg': ('ValueError', ''), 'attr': ('AttributeError', ''),
    'inner class': ('Inner', 'of a function'),
}
ACTIONS = ('call_obj', 'get_obj', 'get_item', 'set_item', 'delete', 'import', 'ping')
OTHER = ['args', 'kwargs', 'noattr', 'deepattr', 'callint', 'noname', 'badname', 'nomodule', 'nosub', 'action',
         'released', 'nodelete', 'surrres', 'cyclic', 'lockres', 'badlen', 'setattr', 'badkey',
         'res:value', 'res:exit', 'res:kbd', 'res:own', 'arg:0', 'arg:1', 'arg:2', 'arg:3']
OTHER += ['undecodable:' + a for a in ACTIONS] + ['no options:' + a for a in ACTIONS[:6]]
BAD = {'value': 'ValueError', 'exit': 'SystemExit', 'kbd': 'KeyboardInterrupt', 'own': 'OddBase',
       '0': 'ValueError', '1': 'SystemExit', '2': 'KeyboardInterrupt', '3': 'GeneratorExit'}
KINDS = ['call:' + k for k in CALLS] + OTHER


class Fail:
    """Provokes failures of every kind through one client."""

    def __init__(self, w, c, t):
        self.w, self.c, self.t = w, c, t
        self.spare = t.make(1)
        self.spare._delete()

    def go(self, kind, **kw):
        """Make the failing request; returns (result or future, expected type, text)."""
        w, c, t = self.w, self.c, self.t
        if kind.startswith('call:'):
            k = kind[5:]
            return t.trouble(k, **self.u(kw)), CALLS[k][0], CALLS[k][1]
        if kind == 'args':
            return t.fail(**self.u(kw)), 'TypeError', 'fail()'
        if kind == 'kwargs':
            return t.fail(1, nope=2, **self.u(kw)), 'TypeError', 'nope'
        if kind == 'noattr':
            return t.nothing_here(**self.u(kw)), 'AttributeError', 'nothing_here'
        if kind == 'deepattr':
            return t.echo.a.b(**self.u(kw)), 'AttributeError', ''
        if kind == 'callint':
            return t.SEVEN(**self.u(kw)), 'TypeError', ''
        if kind == 'noname':
            return c.send('get_item', opts={'name': 'no-such-name'}, **kw), 'KeyError', 'no-such-name'
        if kind == 'badname':
            return c.send('get_item', opts={'name': ['x']}, **kw), 'TypeError', ''
        if kind == 'nomodule':
            return c._import('mct_missing_module', **kw), 'ModuleNotFoundError', 'mct_missing_module'
        if kind == 'nosub':
            return c._import('mct_tgt.nosub', **kw), 'ModuleNotFoundError', ''
        if kind == 'action':
            return c.send('no_such_action', opts={}, **kw), None, ''
        if kind == 'released':
            return self.spare.get(**self.u(kw)), 'KeyError', ''
        if kind == 'nodelete':
            return c.delete(self.spare, **kw), 'KeyError', ''
        if kind == 'surrres':
            return t.odd('surrogate', **self.u(kw)), 'UnicodeEncodeError', ''
        if kind == 'cyclic':
            return t.odd('cyclic', **self.u(kw)), None, ''
        if kind == 'lockres':
            return t.odd('nopickle', **self.u(kw)), None, ''
        if kind == 'badlen':
            return t.trouble('badlen', **self.u(kw)), 'TypeError', ''
        if kind == 'setattr':
            return t.trouble('setattr', **self.u(kw)), 'AttributeError', ''
        if kind == 'badkey':
            return c.send('set_item', opts={'name': ['x'], 'obj': 1}, **kw), 'TypeError', ''
        if kind.startswith('res:'):     # fails while the result is written
            return t.odd('stubborn-' + kind[4:], **self.u(kw)), BAD[kind[4:]], 'not to be sent'
        if kind.startswith('arg:'):     # fails while the request is read
            return t.echo(w.tgt.Bomb(int(kind[4:])), **self.u(kw)), BAD[kind[4:]], 'not to be read'
        if kind.startswith('undecodable:'):
            b = w.tgt.Bomb(0)
            return c.send(kind[12:], opts={'obj': b, 'name': b, 'obj_id': b, 'ref_id': b, 'module': b, 'args': (), 'kwargs': {}}, **kw), 'ValueError', ''
        if kind.startswith('no options:'):
            return c.send(kind[11:], opts={}, **kw), None, ''
        raise KeyError(kind)

    @staticmethod
    def u(kw):
        return {'_' + k: v for k, v in kw.items()}


RESULT = ('surrres', 'cyclic', 'lockres', 'res:value', 'res:exit', 'res:kbd', 'res:own')     # the request itself succeeds


class History(Sys):
    """Failures, each followed by good requests of both clients."""

    def __init__(self, mode, n, kinds, sers=('msgpack', 'json'), **kw):
        Sys.__init__(self, **kw)
        self.mode, self.n, self.kinds, self.sers = mode, n, kinds, sers
        self.name = 'history-%s-%d-%s' % (mode, n, '+'.join(sers))

    def main(self, w):
        ser = self.sers[pick(w, len(self.sers), 'serializer')]
        rec = serve(w, mode=self.mode)
        c = w.tp.RPCClient(rec.addr, serializer=ser)
        t = c._import('mct_tgt')
        f = Fail(w, c, t)
        other = []
        stop = []

        def second():
            c2 = w.tp.RPCClient(rec.addr)
            t2 = c2._import('mct_tgt')
            k = 0
            other.append(('up', 0))
            while not stop:
                w.sched.block(lambda: len(other) < 2 and other[0][0] == 'go' or stop, None, 'harness-wait')
                if stop:
                    break
                k += 1
                eq(t2.echo(k), ('r', k), 'call of the second client after a failure')
                other[0] = ('done', k)
        w.th.Thread(target=w._guard(second), daemon=True).start()
        w.sched.block(lambda: other, None, 'harness-wait')
        hist = []
        for i in range(self.n):
            kind = self.kinds[pick(w, len(self.kinds), 'kind')]
            mode = ('sync', 'async', 'off')[pick(w, 3, 'mode')]
            hist.append((kind, mode))
            if ser == 'json' and kind in ('surrres', 'lockres'):
                kind = 'call:value'     # json transmits these
            self.one(w, rec, f, kind, mode, hist)
            # everybody goes on as before
            eq(t.echo(50 + i), self.lst(ser, 50 + i), 'call after %s' % hist)
            other[0] = ('go', 0)
            w.sched.block(lambda: other[0][0] == 'done' or w.violations, 5, 'harness-wait')
            true(other[0][0] == 'done', 'second client hangs after %s' % hist)
        stop.append(1)
        true(rec.img.state == 'running', 'server process ended after %s' % hist)
        true(not rec.img.unhandled, 'server process reported %r after %s' % (rec.img.unhandled[:1], hist))
        w.note(tuple(hist))

    def lst(self, ser, n):
        return ('r', n) if ser == 'msgpack' else ['r', n]

    def one(self, w, rec, f, kind, mode, hist):
        R = w.tp.RemoteCallException
        sent = []
        what = '%s (%s) in %s' % (kind, mode, hist)
        if mode == 'off':
            w.net.monitor = lambda s, c, fr: sent.append(fr) if s.image is rec.img and s._type == 6 else None
        if mode == 'sync':
            got = []
            e = expect(w, R, lambda: got.extend(f.go(kind, sync='sync')[:1]) or got[0], what)
            typ, text = self.info(kind)
        else:
            r, typ, text = f.go(kind, sync=mode)
            if mode == 'async':
                e = expect(w, R, lambda: r.result(5), what)
            else:
                true(r is None, 'request without reply returned %r: %s' % (r, what))
                w.sched.sleep(0.5, 'harness-wait')
                true(not sent, 'a reply was sent for %s' % what)
                w.net.monitor = None
                hk = [u for u in rec.img.unhandled if u[0] == 'default']
                n = 0 if kind in RESULT else 1
                true(len(hk) == n, '%s was reported %d times through the exception hook' % (what, len(hk)))
                if n and typ:
                    eq(hk[0][1].__name__, typ, 'exception type reported for %s' % what)
                if n:
                    true(hk[0][3], 'no traceback reported for %s' % what)
                rec.img.unhandled.clear()
                return
        if typ is not None:
            eq(e.type_str, typ, 'exception type of %s' % what)
        s = str(e)
        true('Traceback' in s, 'no traceback text for %s: %r' % (what, s[-100:]))
        if text:
            true(text in s, 'traceback text of %s does not show %r: %r' % (what, text, s[-200:]))
        true(not rec.img.unhandled, '%s was reported in the server process: %r' % (what, rec.img.unhandled[:1]))

    @staticmethod
    def info(kind):
        if kind.startswith('call:'):
            return CALLS[kind[5:]]
        if kind[:12] == 'undecodable:':
            return 'ValueError', 'not to be read'
        if kind[:4] == 'res:':
            return BAD[kind[4:]], 'not to be sent'
        if kind[:4] == 'arg:':
            return BAD[kind[4:]], 'not to be read'
        return {'args': ('TypeError', 'fail()'), 'kwargs': ('TypeError', 'nope'),
                'noattr': ('AttributeError', 'nothing_here'), 'deepattr': ('AttributeError', ''),
                'callint': ('TypeError', ''), 'noname': ('KeyError', 'no-such-name'), 'badname': ('TypeError', ''),
                'nomodule': ('ModuleNotFoundError', 'mct_missing_module'), 'nosub': ('ModuleNotFoundError', ''),
                'released': ('KeyError', ''), 'nodelete': ('KeyError', ''),
                'surrres': ('UnicodeEncodeError', ''), 'badlen': ('TypeError', ''),
                'setattr': ('AttributeError', ''), 'badkey': ('TypeError', '')}.get(kind, (None, ''))


class Concurrent(Sys):
    """Failing and good requests of two clients at once."""
    opts = {'delays': (0.03,)}

    def __init__(self, mode, kinds, **kw):
        Sys.__init__(self, **kw)
        self.mode, self.kinds = mode, kinds
        self.name = 'concurrent-%s-%s' % (mode, '+'.join(kinds))

    def main(self, w):
        rec = serve(w, mode=self.mode)
        R = w.tp.RemoteCallException

        def bad(sync):
            c = w.tp.RPCClient(rec.addr)
            f = Fail(w, c, c._import('mct_tgt'))
            sync()
            f.go(self.kinds[0], sync='off')
            r, typ, text = f.go(self.kinds[1], sync='async')
            e = expect(w, R, lambda: r.result(5), self.kinds[1])
            true(typ is None or e.type_str == typ, 'got the error of another request: %s' % e.type_str)
            eq(f.t.echo(1), ('r', 1), 'call after failures')

        def good(sync):
            c = w.tp.RPCClient(rec.addr)
            t = c._import('mct_tgt')
            sync()
            fs = [t.echo(100 + i, _sync='async') for i in range(3)]
            for i, f in enumerate(fs):
                eq(f.result(5), ('r', 100 + i), 'call of the other client')
        threads(w, [bad, good])
        w.sched.sleep(0.2, 'harness-wait')
        hk = [u for u in rec.img.unhandled]
        true(len(hk) == 1, 'failure without reply was reported %d times' % len(hk))
        true(rec.img.state == 'running', 'server process ended')
        w.note(tuple(x for x in rec.tgt.LOG if not isinstance(x, tuple)))


class Inner(Sys):
    """A thread waits for a remote result while requests to its own (lazy) server fail."""

    def __init__(self, kinds, **kw):
        Sys.__init__(self, **kw)
        self.kinds = kinds
        self.name = 'inner-%d' % len(kinds)

    def main(self, w):
        rec = serve(w)
        s = w.tp.RPCServer()
        s.run_lazy()
        c = w.tp.RPCClient(rec.addr)
        t = c._import('mct_tgt')
        kind = self.kinds[pick(w, len(self.kinds), 'kind')]
        mode = ('sync', 'async', 'off')[pick(w, 3, 'mode')]
        res = []

        def other():
            c2 = w.tp.RPCClient(s.address)
            f = Fail(w, c2, c2._import('mct_tgt'))
            R = w.tp.RemoteCallException
            if mode == 'sync':
                e = expect(w, R, lambda: f.go(kind, sync='sync'), kind)
            else:
                r, typ, text = f.go(kind, sync=mode)
                if mode == 'async':
                    e = expect(w, R, lambda: r.result(5), kind)
            eq(f.t.echo(7), ('r', 7), 'call after the failure')
            res.append(1)
        w.th.Thread(target=w._guard(other), daemon=True).start()
        for i in range(2):
            eq(t.slow(i, 0.5), ('r', i), 'the call during which %s (%s) failed' % (kind, mode))
        true(res or w.violations, 'requests to the waiting thread were not served after %s (%s)' % (kind, mode))
        un = w.img.unhandled
        n = 1 if mode == 'off' and kind not in RESULT else 0
        true(len(un) == n, '%s (%s) was reported %d times' % (kind, mode, len(un)))
        w.note(kind, mode)


def scenarios(tier):
    core = ['call:value', 'call:exit', 'call:badstr', 'noattr', 'noname', 'nomodule', 'action', 'released',
            'lockres', 'res:exit', 'arg:1']
    q = [(History('forever', 1, KINDS), 0), (History('qt', 1, KINDS, ('msgpack',)), 0),
         (History('forever', 2, core, ('msgpack',)), 0), (Inner(KINDS), 0),
         (Concurrent('forever', ('call:value', 'noattr')), 1), (Concurrent('qt', ('call:exit', 'surrres')), 1)]
    if tier == 'thorough':
        q = [(History('forever', 2, KINDS), 0), (History('qt', 2, KINDS, ('msgpack',)), 0),
             (History('thread', 1, KINDS), 0),
             (History('forever', 3, core[:6], ('msgpack',)), 0), (Inner(KINDS), 0)]
        q += [(Concurrent(m, k), 2) for m in ('forever', 'qt')
              for k in (('call:value', 'noattr'), ('call:exit', 'surrres'), ('nomodule', 'lockres'))]
    return q
