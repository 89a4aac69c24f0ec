"""C04: timeouts are honoured and leave the client usable."""
from ..harness import Sys, pick, serve, expect, eq, true

ASSUMPTIONS = [
    'the transport delivers at once; delays are those of the called functions and of the modelled messages',
    'polling granularity: 25 ms, and 75 ms in a thread that runs a Qt event loop',
]
TECHNIQUE = ('exhaustive enumeration of timeouts x reply delays x ways of waiting x local server x other traffic, '
             'executed by the real client and servers in virtual time, with schedule deviations for the boundary cases')

DELAYS = (0.0, 0.02, 0.08, 0.3, 1.2)
TIMES = (0, 0.05, 0.1, 0.5, None)
WAITS = ('call', 'option', 'future', 'get', 'default')
TRAFFIC = ('none', 'replies', 'requests')


class Wait(Sys):
    """One wait with every combination of timeout, delay and traffic."""
    opts = {'fairq': False}

    def __init__(self, local, times=TIMES, delays=DELAYS, waits=WAITS, traffic=TRAFFIC, phases=(0.0, 0.013), **kw):
        suffix = kw.pop('suffix', '')
        Sys.__init__(self, **kw)
        self.local = local
        self.times, self.delays, self.waits, self.traffic, self.phases = times, delays, waits, traffic, phases
        self.name = 'wait-' + (local or 'plain') + suffix

    def main(self, w):
        rec = serve(w)
        gran = 0.025
        srv = None
        if self.local == 'lazy':
            srv = w.tp.RPCServer()
            srv.run_lazy()
        elif self.local == 'qt':
            gran = 0.075
            qt = w.img.import_module('teleprox.qt')
            w.app = qt.QApplication([])
            srv = w.tp.QtRPCServer(quit_on_close=False)
            srv.run_forever()
        T = self.times[pick(w, len(self.times), 'timeout')]
        D = self.delays[pick(w, len(self.delays), 'delay')]
        how = self.waits[pick(w, len(self.waits), 'how')]
        tr = [x for x in self.traffic if x != 'requests' or srv is not None]
        traffic = tr[pick(w, len(tr), 'traffic')]
        phase = self.phases[pick(w, len(self.phases), 'phase')] if traffic != 'none' else 0.0
        if how == 'default':
            if T not in (None, 0.5):
                return
            T, D = (10.0, D * 8 + (1.2 if D > 1 else 0)) if T is None else (10.0, D)
        c = w.tp.RPCClient(rec.addr)
        t = c._import('mct_tgt')
        what = 'timeout %r, reply after %g, %s, %s traffic (phase %g), local server %s' % (
            T, D, how, traffic, phase, self.local)
        early = []
        stop = []
        if traffic == 'requests':
            def other():
                c2 = w.tp.RPCClient(srv.address)
                t2 = c2._import('mct_tgt')
                stop.append('up')
                w.sched.block(lambda: 'go' in stop, None, 'harness-wait')
                w.time.sleep(phase)
                n = 0
                while 'end' not in stop and n < 200:
                    n += 1
                    eq(t2.echo(n, _timeout=None), ('r', n), 'request to the waiting thread')
                    w.time.sleep(0.02)
            w.th.Thread(target=w._guard(other), daemon=True).start()
            # it can connect only while this thread waits for something
            while not stop and not w.violations:
                t.slow(0, 0.1)
            stop.append('go')
        if traffic == 'replies':
            early = [(t.slow(10 + i, 0.02 + phase, _sync='async'), 10 + i) for i in range(4)]
        extra = 4 * (0.02 + phase) if traffic == 'replies' else 0.0
        total = D + extra
        if T is not None and abs(total - T) < 0.002:
            return               # undecided: both at the same time
        now = w.sched
        t0 = now.now
        fut = None
        got = err = None
        try:
            if how == 'call':
                got = t.slow(1, D, _timeout=T)
            elif how == 'default':
                got = t.slow(1, D)
            elif how == 'option':
                f = t.slow
                f._set_proxy_options(timeout=T)
                got = f(1, D)
            elif how == 'get':
                got = c.call_obj(t.slow, (1, D), timeout=T)
            else:
                fut = t.slow(1, D, _sync='async')
                got = fut.result(T)
        except TimeoutError as e:
            err = e
        dt = now.now - t0
        if err is None:
            eq(got, ('r', 1), what)
            true(T is None or total <= T + gran, 'result after the timeout (%.3f s): %s' % (dt, what))
            true(total - 0.001 <= dt <= total + gran, 'result after %.3f s: %s' % (dt, what))
        else:
            true(T is not None, 'TimeoutError without a timeout: ' + what)
            true(total > T - 0.005, 'TimeoutError after %.3f s, although the reply came at %.3f: %s' % (dt, total, what))
            true(T - 0.005 <= dt <= T + gran, 'TimeoutError after %.3f s: %s' % (dt, what))
        if fut is not None and err is not None:
            # it can still be waited for
            eq(fut.result(5 + total), ('r', 1), 'second wait; ' + what)
            true(now.now - t0 <= total + gran, 'second wait took until %.3f: %s' % (now.now - t0, what))
        eq(t.echo(5, _timeout=total + 8), ('r', 5), 'call afterwards; ' + what)
        for f, n in early:
            eq(f.result(1), ('r', n), 'earlier request; ' + what)
        eq(t.echo(6), ('r', 6), 'second call afterwards; ' + what)
        stop.append('end')
        w.note(T, D, how, traffic, err is None)


class Race(Sys):
    """The reply arrives about when the time is up: either, then everything works."""
    opts = {'delays': (0.03, 0.2), 'time_dev': True, 'time_dev_max': 0.2}

    def __init__(self, local, T, D, **kw):
        Sys.__init__(self, **kw)
        self.local, self.T, self.D = local, T, D
        self.name = 'race-%s-%g-%g' % (local or 'plain', T, D)

    def main(self, w):
        rec = serve(w)
        if self.local == 'lazy':
            srv = w.tp.RPCServer()
            srv.run_lazy()
        c = w.tp.RPCClient(rec.addr)
        t = c._import('mct_tgt')
        early = t.slow(3, 0.01, _sync='async')
        w.free_on()
        t0 = w.sched.now
        try:
            eq(t.slow(1, self.D, _timeout=self.T), ('r', 1), 'result')
            w.note('result')
        except TimeoutError:
            true(w.sched.now - t0 >= self.T - 0.005, 'TimeoutError after %.3f s' % (w.sched.now - t0))
            w.note('timeout')
        w.free_off()
        eq(t.echo(2), ('r', 2), 'next call')
        eq(early.result(5), ('r', 3), 'earlier request')


class Stale(Sys):
    """Late replies of abandoned requests while further calls are made."""

    def __init__(self, n, **kw):
        Sys.__init__(self, **kw)
        self.n = n
        self.name = 'late-replies-%d' % n

    def main(self, w):
        rec = serve(w)
        if pick(w, 2, 'local'):
            srv = w.tp.RPCServer()
            srv.run_lazy()
        c = w.tp.RPCClient(rec.addr)
        t = c._import('mct_tgt')
        n = 0
        hist = []
        busy = 0.0          # until when the server works
        for i in range(self.n):
            T = (0.03, 0.1, 0.3)[pick(w, 3, 'timeout')]
            D = (0.0, 0.06, 0.2)[pick(w, 3, 'delay')]
            n += 1
            hist.append((T, D))
            t0 = w.sched.now
            done = max(busy, t0) + D
            busy = done
            try:
                eq(t.slow(n, D, _timeout=T), ('r', n), 'history %s' % hist)
                true(done - t0 <= T + 0.025, 'result too late: %s' % hist)
            except TimeoutError:
                dt = w.sched.now - t0
                true(T - 0.005 <= dt <= T + 0.025, 'TimeoutError after %.3f s: %s' % (dt, hist))
                true(done - t0 > T - 0.025, 'TimeoutError although the reply came at %.3f s: %s' % (done - t0, hist))
        eq(t.echo(50), ('r', 50), 'call after %s' % hist)


def scenarios(tier):
    loc = (None, 'lazy', 'qt')
    if tier == 'quick':
        return [(Wait(None), 0), (Wait('lazy', waits=('call', 'future', 'default')), 0),
                (Wait('qt', waits=('call', 'future', 'default')), 0), (Stale(2), 0)] + [
                (Wait(l, (None, 60), (45.0,), ('call', 'future', 'option', 'get'), ('none',), suffix='-long'), 0)
                for l in loc] + [
                (Race(None, 0.1, 0.09), 1), (Race('lazy', 0.04, 0.03), 1), (Race(None, 0.1, 0.1), 1)]
    D = (0.0, 0.02, 0.06, 0.08, 0.16, 0.3, 1.2)
    T = (0, 0.03, 0.05, 0.1, 0.2, 0.5, None)
    return ([(Wait(l, T, D, phases=(0.0, 0.005, 0.013, 0.017)), 0) for l in loc] + [(Stale(4), 0)]
            + [(Wait(l, (None, 1200), (1000.0,), ('call', 'future', 'option', 'get'), ('none',), suffix='-long'), 0)
               for l in loc]
            + [(Race(l, 0.1, d), 2) for l in loc[:2] for d in (0.05, 0.09, 0.1)])
