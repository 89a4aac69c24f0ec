"""C20: timers call back at the right times and can be restarted."""
from ..harness import Sys, pick, serve, threads, other, wait_for, eq, true

ASSUMPTIONS = [
    'calls, once begun, take the time they take: a stop or a restart does not interrupt them',
    'a call that was committed to (at the same moment) when stop() or start() was called counts as under way',
]
TECHNIQUE = ('stateless model checking of the real timer in virtual time: all histories of start, stop and wait up to '
             'a depth x intervals, durations, limits and failures on the default schedule, and all schedules up to a '
             'deviation bound with switches between any two lines of the timer; monitored by a reference timeline')

I = 0.1
EPS = 1e-6
SLOP = 0.003       # reading the clock in a loop moves it a little


class Base(Sys):
    """Records what happens to a timer; judged afterwards."""

    def reset(self, w, what):
        self.w = w
        self.what = what
        self.ev = []            # (kind, time, ...)
        self.active = 0
        self.n = 0
        self.failed = None
        self.raised, self.reported = [], []
        w.img.modules['threading'].excepthook = lambda a: self.reported.append(a.exc_value)

    def callback(self, dur, fail_at=None, error=ArithmeticError):
        def f():
            w = self.w
            self.n += 1
            n = self.n
            true(self.active == 0, '%s: two calls at once' % self.what)
            self.active += 1
            self.ev.append(['call', w.sched.now, None])
            e = self.ev[-1]
            if dur:
                w.time.sleep(dur[(n - 1) % len(dur)])
            self.active -= 1
            e[2] = w.sched.now
            if fail_at == n:
                self.failed = e
                self.raised.append(error('call %d' % n))
                raise self.raised[-1]
        return f

    def start(self, t):
        e = ['start', self.w.sched.now, None]
        self.ev.append(e)
        t.start()
        e[2] = len(self.ev)
        self.ev.append(['started', self.w.sched.now, e])

    def stop(self, t):
        self.ev.append(['stop', self.w.sched.now, None])
        t.stop()
        self.ev.append(['stopped', self.w.sched.now, None])

    def reports(self):
        """Every exception of a callback reached the exception hook of the threads, once."""
        true(len(self.raised) == len(self.reported) and all(a is b for a, b in zip(self.raised, self.reported)),
             '%s: the callback raised %r, reported was %r' % (self.what, self.raised, self.reported))

    def judge(self, limit):
        """Check the recorded history (one controlling thread).

        A call that begins at the moment of a start() or stop() may have been committed to before: it belongs to
        either run, whichever explains the history.
        """
        start = self.w.sched.START
        what = '%s: %s' % (self.what, [(k, round(a - start, 3)) for k, a, b in self.ev])
        calls = [e for e in self.ev if e[0] == 'call']
        for a, b in zip(calls, calls[1:]):
            true(a[2] is not None and b[1] >= a[2] - EPS, 'overlapping calls: %s' % what)
        # events: boundaries in order with the calls between them
        runs = []               # [start, started, end (or None), running?, calls]
        cur = [None, self.ev[0][1] if self.ev else 0, None, False, []]
        runs.append(cur)
        for e in self.ev:
            k, a, b = e
            if k == 'start':
                cur[2] = a
                cur = [a, a, None, True, []]
                runs.append(cur)
            elif k == 'started':
                cur[1] = a
            elif k == 'stop':
                cur[2] = a
                cur = [a, a, None, False, []]
                runs.append(cur)
            elif k == 'stopped':
                cur[1] = a
            elif k == 'call':
                cur[4].append(e)
        cur[2] = self.w.sched.now
        errors = []

        flat = [(i, c) for i, r in enumerate(runs) for c in r[4]]

        def check(i, at, busy):
            """Periods from i on, calls from `at` on."""
            if i == len(runs):
                return True
            s, sd, end, running, _ = runs[i]
            j = at
            while j < len(flat) and flat[j][0] <= i:
                j += 1
            for k in (j, j + 1):
                if k > len(flat) or k > j and flat[j][1][1] > end + SLOP:
                    break
                mine = [c for _, c in flat[at:k]]
                err = self.period(s, sd, end, running, mine, busy, limit)
                if err is not None:
                    errors.append(err)
                elif check(i + 1, k, mine[-1] if mine else busy):
                    return True
            return False
        true(check(0, 0, None), '%s: %s' % (what, errors[-1:] and errors[-1]))
        return calls

    def period(self, s, sd, end, running, calls, busy, limit):
        if not running:
            return 'call although not running' if calls else None
        rel = self.w.sched.START
        ready = max(sd, busy[2] if busy is not None and busy[2] is not None else sd)
        n = 0
        for c in calls:
            if n and c[1] - prev[1] < I - EPS:
                return 'calls %.4f s apart' % (c[1] - prev[1])
            if c[1] > ready + SLOP:
                return 'no call at %.3f' % (ready - rel)
            prev = c
            n += 1
            if limit is not None and n > limit:
                return '%d calls, limit %d' % (n, limit)
            if n > 1 and self.failed is not None and calls[n - 2] is self.failed:
                return 'call after a failure'
            ready = max(c[1] + I, c[2] if c[2] is not None else c[1] + I)
        if (limit is None or n < limit) and not (calls and calls[-1] is self.failed) and end > ready + SLOP:
            return 'no call at %.3f' % (ready - rel)
        return None


class Histories(Base):

    def __init__(self, depth, bound0=True, **kw):
        Base.__init__(self, **kw)
        self.depth = depth
        self.name = 'histories-%d' % depth

    def main(self, w):
        tm = w.img.import_module('teleprox.timer')
        dur = ((), (0.05,), (0.15,), (0.25, 0.0))[pick(w, 4, 'duration')]
        limit = (None, 1, 2, 3, 0)[pick(w, 5, 'limit')]
        fail = (None, 1, 2)[pick(w, 3, 'fail_at')]
        error = (ArithmeticError, SystemExit, KeyboardInterrupt)[pick(w, 3 if fail and limit in (None, 2) and not dur else 1, 'error')]
        if limit == 0 and (dur or fail):
            return
        auto = pick(w, 2, 'start_argument')
        hist = []
        self.reset(w, '')
        self.what = 'duration %s, limit %s, fails at %s, %s' % (dur, limit, fail, hist)
        if auto:
            self.ev.append(['start', w.sched.now, None])
        t = tm.Timer(self.callback(dur, fail, error), I, limit=limit, start=bool(auto))
        if auto:
            self.ev.append(['started', w.sched.now, None])
        for i in range(self.depth):
            o = ('start', 'stop', 0.04, 0.13, 0.4)[pick(w, 5, 'op')]
            hist.append(o)
            if i == 0 and o == 'stop' or len(hist) > 1 and isinstance(o, float) and isinstance(hist[-2], float):
                return                  # (nothing new)
            self.what = 'duration %s, limit %s, fails at %s with %s, start=%s, %s' % (dur, limit, fail, error.__name__, bool(auto), hist)
            if o == 'start':
                self.start(t)
            elif o == 'stop':
                self.stop(t)
            else:
                w.time.sleep(o)
        w.time.sleep(0.61)
        self.stop(t)
        w.time.sleep(0.5)
        calls = self.judge(limit)
        self.reports()
        w.cases += 1
        w.note(tuple(hist), len(calls))


class Races(Base):
    """One controlling thread, every interleaving with the timer's thread."""
    lines = ('teleprox.timer',)

    def __init__(self, prog, dur=(), limit=None, fail=None, **kw):
        Base.__init__(self, **kw)
        self.prog, self.dur, self.limit, self.fail = prog, dur, limit, fail
        self.name = 'race-%s-%s-%s-%s' % (''.join(str(p) for p in prog), '+'.join(map(str, dur)), limit, fail)

    def main(self, w):
        tm = w.img.import_module('teleprox.timer')
        self.reset(w, '')
        self.what = str(self.prog)
        t = tm.Timer(self.callback(self.dur, self.fail), I, limit=self.limit)
        w.free_on()
        for o in self.prog:
            if o == 'S':
                self.start(t)
            elif o == 'X':
                self.stop(t)
            else:
                w.time.sleep(o)
        w.time.sleep(0.61)
        self.stop(t)
        w.free_off()
        w.time.sleep(0.5)
        calls = self.judge(self.limit)
        self.reports()
        w.note(tuple(round(c[1], 3) for c in calls))


class Two(Base):
    """Two threads start and stop one timer."""
    lines = ('teleprox.timer',)

    def __init__(self, a, b, dur=(), limit=None, **kw):
        Base.__init__(self, **kw)
        self.a, self.b, self.dur, self.limit = a, b, dur, limit
        self.name = 'two-%s-%s-%s-%s' % (a, b, '+'.join(map(str, dur)), limit)

    def main(self, w):
        tm = w.img.import_module('teleprox.timer')
        self.reset(w, '%s and %s' % (self.a, self.b))
        t = tm.Timer(self.callback(self.dur), I, limit=self.limit)

        def body(prog):
            def f(sync):
                sync()
                for o in prog:
                    if o == 'S':
                        t.start()
                    elif o == 'X':
                        t.stop()
                    else:
                        w.time.sleep(int(o) * 0.05)
            return f
        threads(w, [body(self.a), body(self.b)], 30)
        # whatever happened: from now on it behaves
        n0 = len(self.ev)
        at = w.sched.now
        w.time.sleep(0.55)
        calls = self.ev[n0:]
        if not ('X' in self.a or 'X' in self.b):
            n = len(self.ev)
            if self.limit is None:
                true(len(calls) >= 3, '%s: only %d calls' % (self.what, len(calls)))
            else:
                true(self.limit <= n <= 2 * self.limit + 1, '%s: %d calls, limit %d' % (self.what, n, self.limit))
        for x, y in zip(calls, calls[1:]):
            # (each start() may make a call at once)
            true(y[1] - x[1] >= I - EPS or y[1] <= at + SLOP + max(self.dur or (0,)), '%s: calls %.3f s apart' % (self.what, y[1] - x[1]))
        self.stop(t)
        n1 = len(self.ev)
        w.time.sleep(0.5)
        n = len(self.ev)
        k = [e for e in self.ev[n1:] if e[0] == 'call']
        true(len(k) <= 1, '%s: %d calls after stop()' % (self.what, len(k)))
        self.ev[:] = []
        self.start(t)
        w.time.sleep(0.45)
        self.stop(t)
        w.time.sleep(0.5)
        self.judge(self.limit)
        w.note(n)


class Proxied(Base):
    """Callbacks that are proxies."""
    opts = {'fairq': False}

    def __init__(self, lines=(), **kw):
        Base.__init__(self, **kw)
        self.lines = lines
        self.name = 'proxied' + ('-lines' if lines else '')

    def main(self, w):
        kind = ('function', 'method', 'object', 'attribute of attribute', 'own function', 'own function, by server',
                'own method, by proxy')[pick(w, 7, 'callback')]
        how = ('plain', 'restart', 'stop', 'auto_delete', 'used', 'in use')[pick(w, 6, 'history')]
        if kind in ('own function', 'own function, by server') and how in ('used', 'in use'):
            return
        rec = serve(w)
        tp = w.tp
        self.reset(w, 'callback: %s, %s' % (kind, how))
        c = tp.RPCClient(rec.addr)
        t = c._import('mct_tgt')
        cb = None
        srv = None
        seen = []
        img = rec.img
        if 'own' in kind:
            srv = tp.RPCServer()
            srv.run_in_thread()
            w.sched.sleep(0.01, 'harness-wait')

        class Own:
            def tick(self):
                seen.append(w.img._get_ident())
        o = Own()
        base = None
        if kind == 'function':
            cb = t.tick
        elif kind == 'method':
            base = t.Ticker(_return_type='proxy')
            cb = base.tick
        elif kind == 'object':
            base = cb = t.Ticker(_return_type='proxy')
        elif kind == 'attribute of attribute':
            base = t.Ticker(_return_type='proxy')
            cb = base.other.tick
        elif kind == 'own function, by server':
            cb = o.tick
        elif kind == 'own function':
            cb = o.tick
        else:
            cb = srv.get_proxy(o).tick
        if how == 'auto_delete' and base is not None:
            base._set_proxy_options(auto_delete=True)
        extra = 0
        if how in ('used', 'in use'):
            # by the thread that has it
            cb()
            extra = 1
        tm = w.img.import_module('teleprox.timer')
        w.free_on()
        if kind == 'own function, by server':
            timer = srv.start_timer(cb, I)
        else:
            timer = tm.Timer(cb, I, start=True)
        if how == 'in use':
            w.time.sleep(0.05)
            for i in range(3):
                cb()
                w.time.sleep(0.1)
            extra += 3
        else:
            base = cb = None
            w.time.sleep(0.35)
        if how == 'restart':
            timer.stop()
            w.time.sleep(0.25)
            timer.start()
            w.time.sleep(0.25)
        elif how == 'stop':
            timer.stop()
            w.time.sleep(0.25)
        w.free_off()
        n = len(seen) if 'own' in kind else len(rec.tgt.TICKS)
        want = {'plain': 4, 'restart': 7, 'stop': 4}.get(how, 4) + extra
        true(abs(n - want) <= (0 if not w.sched.trace else 1), '%s: %d calls, expected %d' % (self.what, n, want))
        timer.stop()
        w.time.sleep(0.3)
        k = len(seen) if 'own' in kind else len(rec.tgt.TICKS)
        true(k - n <= 1, '%s: %d calls after stop()' % (self.what, k - n))
        for s in w.img.sockets:
            if s.type == 5:         # (sockets of clients)
                true(len(s.users) <= 1, '%s: a connection is used by threads %s' % (self.what, s.users))
        true(not w.net.faults, '%s: %s' % (self.what, w.net.faults[:1]))
        if 'own' in kind and kind != 'own function':
            seen = seen[extra:] if how == 'used' else seen
            eq(len(set(seen)), 1, '%s: threads' % self.what)
            true(seen[0] != w.img._get_ident(), '%s: called in the wrong thread' % self.what)
        true(not w.img.unhandled, '%s: %s' % (self.what, w.img.unhandled[:1]))
        w.note(kind, how, n)


def scenarios(tier):
    q = tier == 'quick'
    d = 3 if q else 5
    L = [(Histories(3 if q else 4), 0)]
    L += [(Races(p, dur, limit, fail), d) for p, dur, limit, fail in (
        (('S', .13, 'X', 'S', .13, 'S'), (), None, None),
        (('S', .13, 'X', 'S', .13), (.05,), None, None),
        (('S', .2, 'X', .2, 'S'), (.05,), None, None),
        (('S', .1, 'S', .1, 'S'), (), 2, None),
        (('S', .2, 'S'), (), 2, None),
        (('S', .2, 'X', 'S'), (.1,), 2, 2),
        (('S', .05, 'S'), (.05,), None, 1),
        (('S', 'X', 'S', 'X', 'S'), (), None, None),
        (('S', 'X', 'S'), (.15,), 1, None),
    )]
    L += [(Two(a, b, dur, lim), 2 if q else 3) for a, b, dur, lim in (
        ('S', 'S', (), None), ('S', 'S', (.05,), 2), ('SX', 'S', (), None), ('S2X', '2S', (.05,), None), ('SXS', 'XS', (), None))]
    L += [(Proxied(), 0), (Proxied(lines=('teleprox.timer', 'teleprox.proxy#ObjectProxy._copy')), 1 if q else 2)]
    return L
