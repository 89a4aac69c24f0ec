"""C15: stopping, killing and waiting are reliable; only daemons survive."""
from .. import sched as S
from ..harness import Sys, eq, expect, other, pick, serve, threads, true, wait_for

ASSUMPTIONS = [
    'the server of a child that is to be stopped is not occupied by a call that lasts longer than the timeout',
    'processes started by a process that is killed or crashes are left open',
    'a process is gone at most a second after the call that ends it (plus the time its own exit handlers take)',
]
TECHNIQUE = ('exhaustive enumeration of histories (stop, kill, wait, poll, crash, end of the parent, closing by others) up to a '
             'length on one and two levels of processes, compared with a model of who is alive and which codes are returned; '
             'of every step of the child at which it dies while it is stopped; systematic exploration of the schedules of '
             'concurrent stop/kill/wait/crash/exit up to a deviation bound')

KINDS = ({}, {'qt': True}, {'log_stdio': True}, {'stdout': -1, 'stderr': -1}, {'daemon': True}, {'stdout': -3, 'serializer': 'json'})


def image_of(w, pid):
    return [p for p in w.procs.values() if p.pid == pid][0].image


def gone(w, img, timeout, what):
    if not w.sched.block(lambda: img.state == 'dead', timeout, 'harness-wait'):
        true(False, '%s: still running' % what)


def timed(w, f):
    """(result, exception, duration)"""
    t = w.sched.now
    try:
        r, e = f(), None
    except Exception as x:
        r, e = None, x
    return r, e, w.sched.now - t


def no_error(e, what):
    true(e is None, '%s: %s: %s' % (what, type(e).__name__, str(e)[-200:]))


OPS = ('stop', 'kill', 'poll', 'wait 0', 'wait 0.05', 'wait', 'crash', 'exit code', 'other closes', 'close_server', 'client closes', 'stop 0.5')


class Ops(Sys):
    """Histories on one process."""
    opts = {'fairq': False, 'max_steps': 100000, 'horizon': 3000.0}

    def __init__(self, n, kinds=KINDS, ops=OPS, settle=1.0, **kw):
        Sys.__init__(self, **kw)
        self.n, self.kinds, self.ops, self.settle = n, kinds, ops, settle
        self.name = 'ops-%dof%d-%s-%s' % (n, len(ops), len(kinds), settle)

    def main(self, w):
        kw = dict(self.kinds[pick(w, len(self.kinds), 'kind')])
        daemon = kw.get('daemon', False)
        hist = []
        p = w.tp.start_process('kid', **kw)
        kid = image_of(w, p.pid)
        x = p.client._import('mct_boot')
        x.at_exit()
        addr = p.client.address
        code = None         # of the process once it is gone
        ended = None        # by what
        shut = False
        for i in range(self.n):
            op = self.ops[pick(w, len(self.ops), 'op')]
            hist.append(op)
            what = '%s: %s' % ('+'.join(sorted(kw)) or 'child', ', '.join(hist))
            name, _, arg = op.partition(' ')
            if daemon and name in ('poll', 'wait'):
                continue
            alive = code is None
            if op == 'crash' or op == 'exit code':
                if alive:
                    code = -11 if op == 'crash' else 5
                    ended = 'crash'
                    kid.die(code)
                    w.sched.sleep(0.01, 'harness-wait')
            elif op == 'other closes':
                if alive:
                    o = other(w, 'o%d' % i, lambda r: r.tp.RPCClient(addr).close_server())
                    wait_for(w, lambda: o.done, 12, what)
                    code, ended = 0, 'exit'
                    w.sched.sleep(self.settle, 'harness-wait')
            elif op == 'close_server':
                if alive and not shut:
                    eq(p.client.close_server(), True, what)
                    code, ended = 0, 'exit'
                    w.sched.sleep(self.settle, 'harness-wait')
            elif op == 'client closes':
                p.client.close()
                shut = True
            elif name in ('stop', 'kill'):
                if False:
                    # nothing to ask it with
                    r, e, t = timed(w, lambda: p.stop())
                    if e is not None:
                        eq(kid.state, 'running', what)
                        continue
                else:
                    r, e, t = timed(w, lambda: p.stop(timeout=float(arg)) if arg and not daemon else getattr(p, name)())
                if daemon:
                    # (whether stopping a daemon that is gone succeeds is left open)
                    true(e is None or not alive, '%s: %r' % (what, e))
                    if alive:
                        gone(w, kid, 1.0, what)
                else:
                    no_error(e, what)
                    if alive:
                        eq(kid.state, 'dead', what + ': state')
                        true(t < 1.0, '%s: took %.3f s' % (what, t))
                if alive:
                    code, ended = {'stop': (0, 'exit'), 'kill': (-9, 'kill')}[name]
                if not daemon:
                    eq(r, code, what + ': code')
                    if not alive:
                        true(t < 0.5, '%s: took %.3f s' % (what, t))
            elif name == 'poll':
                r, e, t = timed(w, p.poll)
                no_error(e, what)
                eq(r, code, what)
            elif name == 'wait':
                limit = float(arg) if arg else 10.0
                r, e, t = timed(w, lambda: p.wait(timeout=limit) if arg else p.wait())
                if alive:
                    true(isinstance(e, TimeoutError), '%s: %r instead of TimeoutError' % (what, e if e else r))
                    true(limit - 1e-6 <= t <= limit + 0.2, '%s: TimeoutError after %.3f s' % (what, t))
                    true('kid' in str(e), '%s: which process?' % what)
                else:
                    no_error(e, what)
                    eq(r, code, what)
                    true(t < 0.5, '%s: took %.3f s' % (what, t))
            self.state(w, p, kid, code, ended, what, addr)
        what = '%s: %s' % ('+'.join(sorted(kw)) or 'child', ', '.join(hist))
        if code is None:
            # it is as good as new
            if not shut:
                eq(p.client._import('mct_boot').slow(0), 0, what)
        w.cases += 1

    def state(self, w, p, kid, code, ended, what, addr):
        if code is None:
            eq(kid.state, 'running', what + ': state')
            return
        eq(kid.state, 'dead', what + ': state')
        if ended != 'kill' or True:
            eq(kid.exit_code, code, what + ': exit code')
        eq(len(kid.modules['mct_boot'].RAN), 1 if ended == 'exit' else 0, what + ': exit handlers run')
        if ended == 'exit':
            eq(kid.unhandled, [], what + ': reported in the process')


class Reaped(Sys):
    """The end of a process is noticed by any of the calls, and leaves no zombie."""
    opts = {'fairq': False}

    def __init__(self, **kw):
        Sys.__init__(self, **kw)
        self.name = 'reaped'

    def main(self, w):
        kw = dict(KINDS[pick(w, len(KINDS), 'kind')])
        end = ('stop', 'kill', 'crash', 'close')[pick(w, 4, 'end')]
        call = ('poll', 'wait', 'stop', 'kill')[pick(w, 4, 'call')]
        what = '%s, %s, %s' % (sorted(kw), end, call)
        p = w.tp.start_process('kid', **kw)
        proc = [q for q in w.procs.values() if q.pid == p.pid][0]
        kid = proc.image
        if end == 'crash':
            kid.die(-11)
        elif end == 'close':
            p.client.close_server()
        else:
            getattr(p, end)()
        gone(w, kid, 1.0, what)
        if not kw.get('daemon'):
            eq(getattr(p, call)(), {'stop': 0, 'kill': -9, 'crash': -11, 'close': 0}[end], what)
        true(proc.reaped, '%s: zombie' % what)
        w.cases += 1


class Busy(Sys):
    """What the child does, has done or has lying around does not keep it from ending."""
    opts = {'fairq': False, 'max_steps': 100000, 'horizon': 3000.0}
    FACTORS = ('nothing', 'output', 'output at exit', 'writes on', 'dead client', 'dead clients', 'dead server', 'held proxy', 'closed client',
               'busy', 'busy async', 'slow exit', 'failing exit', 'thread', 'daemon thread', 'undelivered', 'log server gone', 'busy too long',
               'local server', 'client left')

    def __init__(self, **kw):
        Sys.__init__(self, **kw)
        self.name = 'busy'

    def main(self, w):
        f = self.FACTORS[pick(w, len(self.FACTORS), 'factor')]
        kw = dict(KINDS[pick(w, len(KINDS), 'kind')])
        end = ('stop', 'kill', 'close+wait', 'parent', 'remote')[pick(w, 5, 'end')]
        daemon = kw.get('daemon', False)
        what = '%s, %s, %s' % (f, '+'.join(sorted(kw)) or 'child', end)
        st = {}
        extra = 0.0

        if f == 'log server gone' and not daemon:
            log = w.img.import_module('teleprox.log')
            srv = log.LogServer(w.img.modules['logging'].getLogger('target'))
            kw['log_addr'] = srv.address
        if f == 'local server':
            kw['start_local_server'] = True
        # the process that starts it
        if end == 'parent':
            q = w.process('q')

            def run():
                q.import_module('mct_tgt')
                st['p'] = q.import_module('teleprox').start_process('kid', **kw)
                w.sched.block(lambda: st.get('leave'), None, 'harness-idle')
            w.start(q, run, driver=False)
            wait_for(w, lambda: 'p' in st, 12, what)
            p = st['p']
            c = w.tp.RPCClient(p.client.address)
        else:
            q = None
            p = w.tp.start_process('kid', **kw)
            c = p.client
        kid = image_of(w, p.pid)
        x = c._import('mct_boot')
        x.at_exit()
        pipes = kw.get('stdout') == -1
        if f == 'output':
            # (as much as fits, or more if somebody reads it)
            x.write(60000 if pipes else 200000)
            x.write(60000 if pipes else 200000, 2)
        elif f == 'output at exit':
            x.at_exit(out=200000)
            if pipes and end == 'remote':
                w.note('skipped')
                return                      # nobody reads it
        elif f == 'writes on':
            if kw.get('log_stdio'):
                w.note('skipped')
                return                      # (never ends in virtual time)
            x.keep_writing(30000 if pipes else 1) if pipes else None
        elif f in ('dead client', 'dead clients', 'closed client', 'client left'):
            os = []
            for i in range(3 if f == 'dead clients' else 1):
                def g(r):
                    r.c = r.tp.RPCClient(p.client.address)
                    r.x = r.c._import('mct_tgt')
                    r.o = r.x.Obj(1)
                    r.f = r.x.slow(1, 0.05, _sync='async') if f == 'dead clients' else None
                    if f == 'closed client':
                        r.c.close()
                os.append(other(w, 'o%d' % i, g))
            wait_for(w, lambda: all(o.done for o in os), 12, what)
            for o in os:
                if f == 'client left':
                    o.leave = True
                elif f != 'closed client':
                    o.img.die(-9)
        elif f == 'dead server':
            s = serve(w, 's')
            x.connect(s.addr)
            s.img.die(-9)
        elif f == 'held proxy':
            # of an object in a process that is gone
            s = serve(w, 's')
            sc = w.tp.RPCClient(s.addr)
            x.hold(sc._import('mct_tgt').Obj(1))
            s.img.die(-9)
        elif f == 'busy':
            o = other(w, 'o', lambda r: r.tp.RPCClient(p.client.address)._import('mct_boot').slow(0.5))
            w.sched.sleep(0.1, 'harness-wait')
            extra = 0.5
        elif f == 'busy async':
            for i in range(3):
                x.slow(0.1, _sync='off')
            extra = 0.5
        elif f == 'busy too long':
            x.slow(60.0, _sync='off')
            w.sched.sleep(0.1, 'harness-wait')
            return self.too_long(w, p, kid, end, daemon, what)
        elif f == 'slow exit':
            x.at_exit(0.5)
            extra = 0.5
        elif f == 'failing exit':
            x.at_exit(0.0, True)
        elif f == 'thread':
            x.thread(0.5, False)
            extra = 0.5
        elif f == 'daemon thread':
            x.thread(500.0)
        elif f == 'undelivered':
            # replies that nobody will get
            o = other(w, 'o', lambda r: [b.slow(0.01, _sync='off') for b in [r.tp.RPCClient(p.client.address)._import('mct_boot')] for i in range(5)])
            wait_for(w, lambda: o.done, 12, what)
            o.img.die(-9)
        elif f == 'log server gone' and not daemon:
            x.log('hello')
            srv.stop()
        elif f == 'local server':
            if end != 'parent':
                x.hold(lambda: 1)
        t0 = w.sched.now
        code = 0
        if end == 'stop':
            r, e, t = timed(w, p.stop)
        elif end == 'kill':
            r, e, t = timed(w, p.kill)
            code = -9
        elif end == 'close+wait':
            r, e, t = timed(w, lambda: (p.client.close_server(), None if daemon else p.wait())[1])
        elif end == 'remote':
            o2 = other(w, 'o2', lambda r: r.tp.RPCClient(p.client.address).close_server())
            wait_for(w, lambda: o2.done, 12, what)
            w.sched.sleep(1.0 + extra, 'harness-wait')
            r, e, t = (None if daemon else p.poll()), None, 0.0
        else:
            st['leave'] = True
            gone(w, q, 3.0 + extra, what + ': parent')
            eq(q.unhandled, [], what + ': reported in the parent')
            eq(q.exit_code, 0, what + ': code of the parent')
            r, e, t = code, None, 0.0
        no_error(e, what)
        if end == 'parent' and daemon:
            w.sched.sleep(3.0, 'harness-wait')
            eq(kid.state, 'running', what + ': daemon')
            eq(c._import('mct_boot').slow(0), 0, what)
            w.cases += 1
            return
        gone(w, kid, 1.5 + extra if daemon or end in ('parent', 'remote') else 0.0, what)
        if not daemon:
            eq(r, code, what + ': code')
        eq(kid.exit_code, code, what + ': code')
        # (a process that has something to say waits for somebody to hear it, for a second)
        true(t <= 2.5 + extra, '%s: took %.2f s' % (what, t))
        if end != 'kill':
            eq(len(kid.modules['mct_boot'].RAN), 2 if 'exit' in f else 1, what + ': exit handlers run')
        w.cases += 1

    def too_long(self, w, p, kid, end, daemon, what):
        """It cannot be stopped, only killed."""
        if end == 'stop' and not daemon:
            for t in (0.3, 2.0):
                r, e, d = timed(w, lambda: p.stop(timeout=t))
                true(isinstance(e, TimeoutError), '%s: %r' % (what, e or r))
                true(t - 1e-6 <= d <= 2 * t + 0.3, '%s: TimeoutError after %.3f s' % (what, d))
        if end in ('stop', 'kill'):
            r, e, d = timed(w, p.kill)
            no_error(e, what)
            gone(w, kid, 0.5 if daemon else 0.0, what)
            if not daemon:
                eq(r, -9, what)
            true(d < 0.5, '%s: took %.3f s' % (what, d))
        w.cases += 1


class StopSlow(Sys):
    """Timeouts of stop and wait while the process takes its time to end."""
    opts = {'fairq': False}

    def __init__(self, **kw):
        Sys.__init__(self, **kw)
        self.name = 'stop-slow'

    def main(self, w):
        kw = dict(KINDS[pick(w, 4, 'kind')])
        call = ('stop', 'wait')[pick(w, 2, 'call')]
        t = (0.1, 0.5, 1.0, 3.0)[pick(w, 4, 'timeout')]
        d = (0.05, 0.3, 0.7, 2.0)[pick(w, 4, 'duration')]
        out = (0, 200000)[pick(w, 2, 'output')]
        what = '%s(%g) of a process that takes %g s to end (%s)' % (call, t, d, sorted(kw))
        p = w.tp.start_process('kid', **kw)
        kid = image_of(w, p.pid)
        x = p.client._import('mct_boot')
        x.at_exit(d, out=out)
        if call == 'wait':
            eq(p.client.close_server(), True, what)
        r, e, dt = timed(w, lambda: getattr(p, call)(timeout=t))
        if d < t - 0.15:
            no_error(e, what)
            eq(r, 0, what)
            true(dt <= d + 0.3, '%s: took %g s' % (what, dt))
        elif d > 2 * t or (call == 'wait' and d > t + 0.02):
            true(isinstance(e, TimeoutError), '%s: %r' % (what, e or r))
            true(t - 1e-6 <= dt <= t * (2 if call == 'stop' else 1) + 0.2, '%s: TimeoutError after %g s' % (what, dt))
            # it works out later
            eq(p.wait(), 0, what)
        eq(p.wait(), 0, what)
        eq(kid.exit_code, 0, what)
        w.cases += 1


class DiesAt(Sys):
    """The process dies at its n-th step while it is being ended."""
    opts = {'fairq': False, 'max_steps': 100000, 'horizon': 3000.0}

    def __init__(self, steps, kinds=KINDS, codes=(-11, 7), **kw):
        Sys.__init__(self, **kw)
        self.steps, self.kinds, self.codes = steps, kinds, codes
        self.name = 'dies-at-%d-%d' % (steps, len(kinds))

    def main(self, w):
        kw = dict(self.kinds[pick(w, len(self.kinds), 'kind')])
        daemon = kw.get('daemon', False)
        end = ('stop', 'wait', 'parent')[pick(w, 3, 'end')]
        code = self.codes[pick(w, len(self.codes), 'code')]
        at = pick(w, self.steps, 'step')
        what = '%s; the process (%s) dies at step %d' % (end, '+'.join(sorted(kw)) or 'child', at)
        st = {}
        if end == 'parent':
            q = w.process('q')

            def run():
                q.import_module('mct_tgt')
                st['p'] = q.import_module('teleprox').start_process('kid', **kw)
                w.sched.block(lambda: st.get('leave'), None, 'harness-idle')
            w.start(q, run, driver=False)
            wait_for(w, lambda: 'p' in st, 12, what)
            p = st['p']
        else:
            p = w.tp.start_process('kid', **kw)
        kid = image_of(w, p.pid)
        n = {'n': 0}
        op, ob = w.sched.point, w.sched.block

        def step():
            t = w.sched.current
            if t is None or t.image is not kid or kid.state == 'dead':
                return
            n['n'] += 1
            if n['n'] == at + 1:
                kid.die(code)
                ob(lambda: False, None, 'dead')
        w.sched.point = lambda l: (step(), op(l))[1]
        w.sched.block = lambda c, timeout=None, label='block': (step(), ob(c, timeout, label))[1]
        try:
            if end == 'parent':
                st['leave'] = True
                ok = ob(lambda: q.state == 'dead', 40, 'harness-wait')
                true(ok, what + ': the parent did not end')
                eq(q.exit_code, 0, what + ': code of the parent')
                eq(q.unhandled, [], what + ': reported in the parent')
                w.sched.sleep(1.0, 'harness-wait')
                if not daemon:
                    eq(kid.state, 'dead', what)
                w.cases += 1
                return
            if end == 'stop':
                r, e, t = timed(w, p.stop)
            else:
                if not daemon:
                    p.client.close_server(sync='off')
                    r, e, t = timed(w, p.wait)
                else:
                    r, e, t = None, None, 0
        finally:
            w.sched.point, w.sched.block = op, ob
        if daemon:
            w.sched.sleep(1.0, 'harness-wait')
            if end == 'stop':
                true(e is None or kid.exit_code == code, '%s: %r' % (what, e))
                eq(kid.state, 'dead', what)
        else:
            no_error(e, what)
            eq(kid.state, 'dead', what)
            eq(r, kid.exit_code, what)
            true(r in (0, code), '%s: code %r' % (what, r))
        w.note(end, r, daemon)
        w.cases += 1


SHAPES = {
    # name -> [(process, parent, daemon)]
    'c': [('c', 'q', 0)], 'cd': [('c', 'q', 0), ('d', 'q', 1)], 'cc': [('c', 'q', 0), ('b', 'q', 0)],
    'cg': [('c', 'q', 0), ('g', 'c', 0)], 'cge': [('c', 'q', 0), ('g', 'c', 0), ('e', 'c', 1)],
    'dg': [('d', 'q', 1), ('g', 'd', 0)], 'cgh': [('c', 'q', 0), ('g', 'c', 0), ('h', 'g', 0)],
    'cgcd': [('c', 'q', 0), ('b', 'q', 0), ('g', 'c', 0), ('f', 'b', 0), ('d', 'q', 1), ('e', 'd', 1)],
}


class Tree(Sys):
    """Histories on a family of processes, ending with the end of the first."""
    opts = {'fairq': False, 'max_steps': 100000, 'horizon': 3000.0}
    EXITS = ('return', 'sys.exit', 'exception')
    OPS = ('stop', 'kill', 'crash', 'other closes', 'forget')

    def __init__(self, n, shapes=tuple(SHAPES), ops=OPS, kw=None, exits=EXITS, **k):
        Sys.__init__(self, **k)
        self.n, self.shapes, self.ops, self.kw, self.exits = n, shapes, ops, dict(kw or {}), exits
        self.name = 'tree-%d-%s-%d-%s-%d' % (n, '+'.join(shapes), len(ops), '+'.join(sorted(self.kw)), len(exits))

    def main(self, w):
        shape = self.shapes[pick(w, len(self.shapes), 'shape')]
        how = self.exits[pick(w, len(self.exits), 'exit')]
        nodes = SHAPES[shape]
        q = w.process('q')
        st = {'job': None}
        logged = self.kw.get('logged')

        def run():
            q.import_module('mct_boot')
            q.import_module('teleprox')
            st['b'] = q.modules['mct_boot']
            while True:
                w.sched.block(lambda: st['job'] is not None, None, 'harness-idle')
                f, st['job'] = st['job'], None
                if f == 'return':
                    return
                if f == 'sys.exit':
                    q.sys.exit(3)
                if f == 'exception':
                    raise ValueError('q fails')
                st['r'] = f()
                st['done'] = True
        w.start(q, run, driver=False)
        wait_for(w, lambda: 'b' in st, 5, 'q')

        def inq(f):
            st['done'] = False
            st['job'] = f
            wait_for(w, lambda: st['done'], 60, 'q')
            return st['r']
        addr, pid, idx, par, dm = {}, {}, {}, {}, {}
        clients = {}
        count = {}

        def there(who, f, *a, **k):
            """In that process."""
            if who == 'q':
                return inq(lambda: getattr(st['b'], f)(*a, **k))
            return getattr(clients[who]._import('mct_boot'), f)(*a, _timeout=60, _return_type='value', **k)
        for name, parent, daemon in nodes:
            kw = dict(self.kw)
            kw.pop('logged', None)
            r = there(parent, 'start', name=name, daemon=bool(daemon), **({} if daemon else kw))
            pid[name], addr[name] = r
            par[name], dm[name] = parent, daemon
            idx[name] = count.get(parent, 0)
            count[parent] = idx[name] + 1
            clients[name] = w.tp.RPCClient(addr[name])
            clients[name]._import('mct_boot').at_exit()
        img = {n: image_of(w, pid[n]) for n in pid}
        img['q'] = q
        state = dict.fromkeys(img, 'alive')     # alive | exited | killed | open

        def ends(n, as_):
            if state[n] in ('exited', 'killed'):
                return
            if state[n] == 'open' and as_ != 'exited':
                state[n] = as_
                return
            state[n] = as_
            for m in par:
                if par[m] == n and state[m] in ('alive', 'open') and not dm[m]:
                    if as_ == 'exited':
                        ends(m, 'exited')
                    else:
                        lose(m)

        def lose(m):
            if state[m] == 'alive':
                state[m] = 'open'
        hist = []

        def settle(what):
            t = w.sched.now
            w.sched.block(lambda: all((img[n].state == 'dead') == (state[n] != 'alive') for n in img if state[n] != 'open'), 4.0, 'harness-wait')
            w.sched.sleep(0.5, 'harness-wait')
            for n in sorted(img):
                if state[n] == 'alive':
                    eq(img[n].state, 'running', '%s: %s' % (what, n))
                    if n != 'q':
                        eq(clients[n]._import('mct_boot').slow(0, _timeout=5), 0, '%s: %s' % (what, n))
                elif state[n] != 'open':
                    eq(img[n].state, 'dead', '%s: %s' % (what, n))
                if state[n] == 'exited' and n != 'q':
                    eq(img[n].exit_code, 0, '%s: code of %s' % (what, n))
                    eq(len(img[n].modules['mct_boot'].RAN), 1, '%s: exit handlers of %s' % (what, n))
                    eq(img[n].unhandled, [], '%s: reported in %s' % (what, n))
        names = [n for n, p, d in nodes]
        for i in range(self.n):
            k = pick(w, 1 + len(names) * len(self.ops), 'op')
            if not k:
                break
            name, op = names[(k - 1) // len(self.ops)], self.ops[(k - 1) % len(self.ops)]
            hist.append('%s %s' % (op, name))
            what = '%s: %s' % (shape, ', '.join(hist))
            if op in ('stop', 'kill'):
                if state[par[name]] != 'alive':
                    continue
                r = there(par[name], 'do', idx[name], op)
                if state[name] == 'alive':
                    ends(name, 'exited' if op == 'stop' else 'killed')
                    if not dm[name]:
                        eq(r, 0 if op == 'stop' else -9, what)
                elif not dm[name] and state[name] != 'open':
                    eq(r, img[name].exit_code, what)
            elif op == 'crash':
                if state[name] != 'alive':
                    continue
                img[name].die(-11)
                ends(name, 'killed')
            elif op == 'other closes':
                if state[name] != 'alive':
                    continue
                eq(clients[name].close_server(), True, what)
                ends(name, 'exited')
            elif op == 'forget':
                # nobody has the object any more (its exit handler has)
                if par[name] == 'q':
                    inq(lambda: st['b'].KIDS.__setitem__(idx[name], None))
                    names = [n for n in names if n != name]
                    if not names:
                        break
            settle(what)
        what = '%s: %s, %s of q' % (shape, ', '.join(hist), how)
        st['job'] = how
        ends('q', 'exited')
        gone(w, q, 10.0, what)
        eq(q.exit_code, {'return': 0, 'sys.exit': 3, 'exception': 1}[how], what + ': code of q')
        bad = [u for u in q.unhandled if u[0] != 'default']
        eq(bad, [], what + ': reported in q')
        settle(what)
        w.cases += 1


class Race(Sys):
    """Concurrent calls and events; each returns the code of the process."""

    def __init__(self, acts, kw=None, lines=(), time_dev=False, delays=(), latency=0.0, **k):
        Sys.__init__(self, **k)
        self.acts, self.kw, self.lines = acts, dict(kw or {}), lines
        self.opts = {'fairq': False, 'time_dev': time_dev, 'horizon': 2000.0, 'delays': delays, 'latency': latency}
        self.name = 'race-%s-%s%s%s%s' % ('+'.join(acts), '+'.join(sorted(self.kw)), '-lines' if lines else '',
                                        '-time' if time_dev else '', '-%s-%s' % (delays, latency) if delays or latency else '')

    def main(self, w):
        daemon = self.kw.get('daemon', False)
        p = w.tp.start_process('kid', **self.kw)
        kid = image_of(w, p.pid)
        addr = p.client.address
        p.client._import('mct_boot').at_exit()
        got = {}

        def act(i, a):
            def run(sync):
                if a == 'crash':
                    sync()
                    w.sched.point('crash')
                    kid.die(-11)
                    return
                if a == 'other':
                    sync()
                    got['other'] = None
                    o = other(w, 'o', lambda r: self.close(r, addr, got))
                    w.sched.block(lambda: o.done, 30, 'harness-wait')
                    return
                sync()
                name, _, arg = a.partition(' ')
                got[i] = timed(w, lambda: getattr(p, name)(*([float(arg)] if arg else [])))
            return run
        threads(w, [act(i, a) for i, a in enumerate(self.acts)], 60)
        gone(w, kid, 2.0, 'end')
        code = kid.exit_code
        ok = {0: ('stop', 'other'), -9: ('kill',), -11: ('crash',)}
        true(code in ok and any(a.partition(' ')[0] in ok[code] for a in self.acts), 'exit code %r' % code)
        if not daemon:
            for i, a in enumerate(self.acts):
                if i not in got:
                    continue
                r, e, t = got[i]
                if a == 'poll':
                    no_error(e, a)
                    true(r in (None, code), 'poll: %r' % (r,))
                elif a == 'wait 0.01' and isinstance(e, TimeoutError):
                    true(0.01 - 1e-6 <= t, 'wait: %g' % t)
                else:
                    no_error(e, a)
                    eq(r, code, a)
            eq(p.poll(), code, 'poll afterwards')
            eq(p.wait(), code, 'wait afterwards')
            eq(p.stop(), code, 'stop afterwards')
        if code == 0:
            eq(len(kid.modules['mct_boot'].RAN), 1, 'exit handlers run')
        w.note(code, [(got[i][0], type(got[i][1]).__name__) for i in sorted(x for x in got if x != 'other')])
        w.cases += 1

    def close(self, r, addr, got):
        try:
            r.tp.RPCClient(addr).close_server()
        except Exception as e:
            got['other'] = e


class Exit(Sys):
    """The parent ends while something else happens to its child."""

    def __init__(self, act, kw=None, n=1, thread=False, **k):
        Sys.__init__(self, **k)
        self.act, self.kw, self.n, self.thread = act, dict(kw or {}), n, thread
        self.opts = {'fairq': False, 'horizon': 2000.0}
        self.name = 'exit-%s-%d-%s%s' % (act, n, '+'.join(sorted(self.kw)), '-thread' if thread else '')

    def main(self, w):
        q = w.process('q')
        st = {}
        daemon = self.kw.get('daemon', False)

        def run():
            q.import_module('mct_tgt')
            tp = q.import_module('teleprox')
            ps = [tp.start_process('kid%d' % i, **self.kw) for i in range(self.n)]
            d = tp.start_process('d', daemon=True)
            th = q.import_module('threading')
            if self.act == 'call':
                # another thread is using it
                x = ps[0].client._import('mct_boot')

                def use():
                    x.slow(0.05)
                t = th.Thread(target=use, daemon=not self.thread)
            elif self.act == 'stop':
                t = th.Thread(target=ps[0].stop, daemon=not self.thread)
            elif self.act == 'start':
                t = th.Thread(target=lambda: tp.start_process('late', **self.kw), daemon=False)
            else:
                t = None
            st['ps'] = ps
            st['d'] = d
            w.sched.block(lambda: st.get('leave'), None, 'harness-idle')
            w.free_on()
            if t is not None:
                t.start()
        w.start(q, run, driver=False)
        wait_for(w, lambda: 'ps' in st, 12, 'start')
        kids = [image_of(w, p.pid) for p in st['ps']]
        d = image_of(w, st['d'].pid)
        if self.act == 'other':
            c = w.tp.RPCClient(st['ps'][0].client.address)
        st['leave'] = True
        if self.act == 'crash':
            w.free_on()
            w.sched.point('crash')
            kids[0].die(-11)
        elif self.act == 'other':
            w.free_on()
            try:
                c.close_server()
            except Exception:
                pass
        gone(w, q, 30.0, 'parent')
        w.free_off()
        eq(q.exit_code, 0, 'code of the parent')
        w.sched.sleep(1.0, 'harness-wait')
        if not daemon:
            left = [p.cmd for p in w.procs.values() if not p.dead and p.image not in (w.img, d) ]
            true(not left, 'left running: %s' % left)
            for i, k in enumerate(kids):
                if i or self.act != 'crash':
                    eq(k.exit_code, 0, 'code of child %d' % i)
        eq(d.state, 'running', 'daemon')
        eq(w.tp.RPCClient(st['d'].client.address)._import('mct_boot').slow(0), 0, 'daemon')
        w.cases += 1
        w.note(kids[0].exit_code, [u[0] for u in q.unhandled])


def scenarios(tier):
    q = tier == 'quick'
    P = ('teleprox.process#ChildProcess',)
    few = ('stop', 'kill', 'poll', 'wait 0.05', 'crash', 'other closes', 'client closes')
    L = [(Ops(2), 0), (Ops(3, KINDS[:1], few), 0), (Reaped(), 0), (StopSlow(), 0), (Busy(), 0), (DiesAt(30, KINDS[:4], (-11,)) if q else DiesAt(80), 0),
         (Tree(2, ('cge', 'dg') if q else ('cd', 'cge', 'dg', 'cgh'), exits=('return',)), 0), (Tree(1, ('c', 'cge'), kw={'qt': True}), 0),
         (Tree(1, ('c', 'cge'), kw={'log_stdio': True}), 0),
         ]
    for acts in (('stop', 'stop'), ('stop', 'kill'), ('kill', 'stop'), ('crash', 'stop'), ('kill', 'kill'), ('stop', 'wait'), ('wait', 'kill'), ('stop', 'crash'), ('stop', 'other'),
                 ('crash', 'wait'), ('kill', 'crash'), ('stop', 'wait 0.01'), ('stop', 'poll'), ('kill', 'poll', 'wait')):
        L.append((Race(acts), 1 if q and 'other' in acts else 2 if q else 3))
        if not q:
            L.append((Race(acts, lines=P), 2))
            L.append((Race(acts, {'log_stdio': True}), 2))
            L.append((Race(acts, {'qt': True}), 2))
    L += [(Race(('stop', 'crash'), {'log_stdio': True}), 1 if q else 2), (Race(('stop', 'kill'), {'daemon': True}), 1 if q else 2),
          (Race(('stop', 'crash'), latency=0.002), 1 if q else 2)]
    for act in ('none', 'call', 'stop', 'start', 'crash', 'other'):
        L.append((Exit(act, n=2 if act == 'none' else 1), (1 if act in ('call', 'start') else 2) if q else 3))
        if not q:
            L.append((Exit(act, n=2), 2))
            L.append((Exit(act, {'log_stdio': True}), 2))
            L.append((Exit(act, thread=True), 2))
    L += [(Tree(1), 0)]
    if not q:
        L += [(Ops(3), 0), (Ops(4, KINDS[:1], few), 0), (Tree(2), 0), (Tree(3, ('cd', 'cge'), exits=('return',)), 0),
              (Tree(2, ('c', 'cge'), kw={'qt': True}), 0)]
    return L
