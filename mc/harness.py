"""Common pieces of the scenarios."""
from . import sched as S
from .explore import Scenario
from .world import Violation


class Sys(Scenario):
    """Servers and clients as threads of one process."""

    def main(self, w):
        """Harness code: the main thread of process 'p'."""
        raise NotImplementedError

    def build(self, w):
        img = w.process('p')
        w.img = img

        def run():
            img.import_module('mct_tgt')
            w.tp = img.import_module('teleprox')
            w.tgt = img.modules['mct_tgt']
            w.th = img.import_module('threading')
            w.time = img.modules['time']
            self.main(w)
            w.free_off()
            # leave without the interpreter's exit work: not under test here
            w.sched.finish('ok')
            raise S.Killed()
        w.start(img, run)


def pick(w, n, label='op'):
    """Free choice among n: enumerated completely."""
    return w.sched.choose(n, label, cost=0, force=True)


def server(w, **kw):
    """A server running in a background thread."""
    s = w.tp.RPCServer(**kw)
    s.run_in_thread()
    w.sched.sleep(0.01, 'harness-wait')     # until it is up
    return s


def expect(w, exc, f, what):
    """f() must raise exc; returns the exception."""
    try:
        r = f()
    except exc as e:
        return e
    except Exception as e:
        raise Violation('%s: expected %s, got %s: %s' % (what, _n(exc), type(e).__name__, str(e)[:200]))
    raise Violation('%s: expected %s, but it returned %r' % (what, _n(exc), r))


def _n(exc):
    return '/'.join(e.__name__ for e in exc) if isinstance(exc, tuple) else exc.__name__


def eq(got, want, what):
    if type(got) is not type(want) or got != want:
        raise Violation('%s: got %r, expected %r' % (what, got, want))


def true(c, what):
    if not c:
        raise Violation(what)


class Rec:
    """What the harness knows about a server process."""

    def __init__(self, **kw):
        self.__dict__.update(kw)


def serve(w, name='srv', mode='forever', setup=None, leave=False, **kw):
    """A server in a process of its own.  mode: 'forever' | 'qt' | 'thread'."""
    img = w.process(name)
    rec = Rec(img=img, up=False, addr=None, returned=False, mode=mode, leave=False)

    def run():
        rec.tgt = img.import_module('mct_tgt')
        rec.tp = img.import_module('teleprox')
        rec.ident = img._get_ident()
        if mode == 'qt':
            qt = rec.qt = img.import_module('teleprox.qt')
            rec.app = qt.QApplication([])
            rec.srv = rec.tp.QtRPCServer(**kw)
        else:
            rec.srv = rec.tp.RPCServer(**{k: v(rec) if callable(v) else v for k, v in kw.items()})
        rec.addr = rec.srv.address
        if setup is not None:
            setup(rec)
        if mode == 'thread':
            rec.srv.run_in_thread()
            rec.up = True
            w.sched.block(lambda: rec.leave, None, 'harness-idle')
            return
        if mode == 'forever':
            rec.up = True
        rec.srv.run_forever()
        rec.up = True
        if mode == 'qt':
            rec.app.exec()
        rec.returned = True
        if not leave:
            # (the process goes on)
            w.sched.block(lambda: rec.leave, None, 'harness-idle')
    rec.task = w.start(img, run, driver=False)
    w.sched.block(lambda: rec.up or img.state == 'dead', 5, 'harness-wait')
    w.sched.sleep(0.01, 'harness-wait')
    return rec


def healthy(rec, what='server process'):
    """The process of a server is running and nothing was reported there."""
    true(rec.img.state == 'running', '%s ended with code %r' % (what, rec.img.exit_code))
    bad = [u for u in rec.img.unhandled]
    true(not bad, '%s reported %r' % (what, bad[:1]))


def threads(w, fns, timeout=None, free=True):
    """Run the functions in threads of the current process; wait for all."""
    n = len(fns)
    st = {'ready': 0, 'left': n}

    def body(f):
        def run():
            def g():
                f(sync)
                st['left'] -= 1
            w._guard(g)()
        return run

    def sync():
        st['ready'] += 1
        w.sched.block(lambda: st['ready'] >= n, None, 'harness-sync')
        if free:
            w.free_on()
    for f in fns:
        w.th.Thread(target=body(f), daemon=True).start()
    ok = w.sched.block(lambda: st['left'] == 0 or bool(w.violations), timeout, 'harness-wait')
    w.free_off()
    if not ok:
        raise Violation('threads not finished after %g s' % timeout)
    if w.violations:
        w.sched.finish('ok')
        raise S.Killed()


def other(w, name, fn):
    """Run fn(rec) as the main program of another process; rec.done when it is over."""
    img = w.process(name)
    rec = Rec(img=img, done=False, leave=False)

    def run():
        def body():
            rec.tgt = img.import_module('mct_tgt')
            rec.tp = img.import_module('teleprox')
            rec.th = img.import_module('threading')
            rec.time = img.modules['time']
            fn(rec)
        w._guard(body)()
        rec.done = True
        w.sched.block(lambda: rec.leave, None, 'harness-idle')
    rec.task = w.start(img, run, driver=False)
    return rec


def wait_for(w, cond, timeout, what):
    if not w.sched.block(lambda: cond() or bool(w.violations), timeout, 'harness-wait'):
        raise Violation('%s: not within %g s' % (what, timeout))
    if w.violations:
        w.sched.finish('ok')
        raise S.Killed()


class Worker:
    """A thread of the program that does what it is told."""

    def __init__(self, w, name, th=None):
        self.w, self.job, self.busy = w, None, False
        t = self.thread = (th or w.th).Thread(target=w._guard(self.loop), name=name, daemon=True)
        t.start()

    def loop(self):
        while True:
            self.w.sched.block(lambda: self.job is not None, None, 'harness-idle')
            f, self.job = self.job, None
            if f == 'end':
                return
            try:
                self.result = (f(), None)
            except Exception as e:
                self.result = (None, e)
            self.busy = False

    def start(self, f):
        self.busy, self.job = True, f

    def wait(self, timeout=10, what='worker'):
        wait_for(self.w, lambda: not self.busy, timeout, what)
        return self.result

    def do(self, f, timeout=10, what='worker'):
        """(result, exception) of f() in this thread."""
        self.start(f)
        return self.wait(timeout, what)

    def end(self):
        self.job = 'end'
        self.thread.join()


class Gate:
    """n threads start at the same moment."""

    def __init__(self, w, n):
        self.w, self.left = w, n

    def __call__(self):
        self.left -= 1
        self.w.sched.block(lambda: self.left <= 0, None, 'harness-sync')
        self.w.free_on()
