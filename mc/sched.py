"""Deterministic cooperative scheduler over real OS threads.

Exactly one managed task runs at a time (baton passing).  Every place where the
running task may change, and every environment answer that is not determined, is
a *choice point*; option 0 is the default.  An execution is identified by the
sequence of its choices, so it can be replayed exactly.
"""
import _thread as _rt
import ctypes
import sys
import time as _real_time
import traceback
import zlib


class Killed(BaseException):
    """Unwinds managed tasks when an execution is over."""


class Violation(BaseException):
    """The property is broken in this execution (raised by harness code only)."""


class HarnessError(BaseException):
    """The harness (not the code under test) cannot go on."""


class Divergence(HarnessError):
    """A recorded choice sequence does not fit the execution that replays it."""


STATE = None            # the Sched of the execution in progress (one per worker process)


def cur():
    s = STATE
    if s is None or s.current is None or s.aborting:
        raise Killed()
    return s


class Task:
    _n = 0

    def __init__(self, sched, fn, name, image):
        self.sched = sched
        self.tid = len(sched.tasks)
        self.fn = fn
        self.name = name
        self.image = image
        self.baton = _rt.allocate_lock()
        self.baton.acquire()
        self.ended = _rt.allocate_lock()
        self.ended.acquire()
        self.started = False
        self.done = False
        self.dead = False          # its process was killed: never runs again
        self.blocked = None        # None or condition function
        self.deadline = None
        self.exc = None
        self.kills = 0
        self.spin = 0
        self.spin_at = -1.0
        self.sentinel = None
        self.atomic = 0
        self.on_done = []          # callbacks run when the task is done
        self.ident = None
        self.os_ident = None
        self.where = ''


class Sched:
    START = 1.0e6
    time_skew = 0.0

    def __init__(self, prefix=b'', prefix_crc=None, max_steps=200000, horizon=3600.0,
                 time_dev=False, time_dev_max=20.0):
        self.prefix = prefix
        self.prefix_crc = prefix_crc
        self.crc = 0
        self.trace = []            # (n_options, choice, cost)
        self.labels = []
        self.keep_labels = False
        self.now = self.START
        self.tasks = []
        self.wakes = []            # times at which something becomes ready
        self.current = None
        self.steps = 0
        self.switches = 0
        self.free = False          # are scheduling choices offered?
        self.max_steps = max_steps
        self.horizon = self.START + horizon
        self.time_dev = time_dev
        self.time_dev_max = time_dev_max
        self.aborting = False
        self.finished = False
        self.status = None
        self.harness_error = None
        self.violation = None
        self.ctl = _rt.allocate_lock()
        self.ctl.acquire()
        self.leaked = 0
        self.log = None
        self.switch_hook = None

    # ---- choices -----------------------------------------------------
    def choose(self, n, label, cost=1, force=False):
        """Environment/scheduling choice among n options; 0 is the default."""
        if n <= 1 or (not self.free and not force):
            return 0
        i = len(self.trace)
        self.crc = zlib.crc32(label.encode() + bytes([n & 255]), self.crc)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                self.harness_error = 'divergence: choice %d of %d at point %d (%s)' % (c, n, i, label)
                raise Divergence(self.harness_error)
            if i == len(self.prefix) - 1 and self.prefix_crc is not None and self.crc != self.prefix_crc:
                self.harness_error = 'divergence: different choice points on replay (point %d, %s)' % (i, label)
                raise Divergence(self.harness_error)
        else:
            c = 0
        self.trace.append((n, c, cost, self.crc))
        if self.keep_labels:
            self.labels.append('%s [%d/%d] task=%s t=%.4f' % (
                label, c, n, self.current.name if self.current else '-', self.now - self.START))
        return c

    # ---- tasks -------------------------------------------------------
    def spawn(self, fn, name, image, ident=None):
        t = Task(self, fn, name, image)
        t.ident = ident
        self.tasks.append(t)
        t.started = True
        _rt.start_new_thread(self._boot, (t,))
        return t

    def _boot(self, t):
        t.baton.acquire()
        t.os_ident = _rt.get_ident()
        try:
            if not self.aborting:
                t.fn()
        except Killed:
            pass
        except Violation as e:
            self.violation = str(e)
            if not self.aborting:
                self.finish('violation')
        except HarnessError as e:
            if self.harness_error is None:
                self.harness_error = '%s: %s' % (type(e).__name__, e) + ''.join(traceback.format_exc()[-1500:])
        except BaseException as e:
            t.exc = e
        finally:
            t.fn = None
            t.done = True
            if self.aborting:
                t.ended.release()
            else:
                try:
                    for f in t.on_done:
                        f()
                    if self.harness_error is not None:
                        self.finish('harness')
                    elif not self.finished:
                        self._switch(t, 'exit')
                except BaseException as e:
                    if self.harness_error is None and not isinstance(e, Killed):
                        self.harness_error = traceback.format_exc()
                        self.finish('harness')
                t.ended.release()

    def _enabled(self, t):
        if t.done or t.dead:
            return False
        if t.blocked is None:
            return True
        if t.deadline is not None and self.now >= t.deadline:
            return True
        return bool(t.blocked())

    def finish(self, status):
        if not self.finished:
            self.finished = True
            self.status = status
            self.current = None
            self.ctl.release()

    def _pick(self, me, label):
        """Choose the next task to run; None if the execution is over."""
        tasks = self.tasks
        while True:
            n = len(tasks)
            start = me.tid if me is not None else 0
            en = []
            for k in range(n):
                t = tasks[(start + k) % n]
                if self._enabled(t):
                    en.append(t)
            nd = None
            for t in tasks:
                if not t.done and not t.dead and t.blocked is not None and t.deadline is not None \
                        and t.deadline > self.now and (nd is None or t.deadline < nd):
                    nd = t.deadline
            if self.wakes:
                self.wakes = [x for x in self.wakes if x > self.now]
                for x in self.wakes:
                    if nd is None or x < nd:
                        nd = x
            if not en:
                if nd is None:
                    self.finish('quiescent')
                    return None
                if nd > self.horizon:
                    self.finish('horizon')
                    return None
                self.now = nd
                continue
            opts = len(en)
            # time passing while somebody could run (a slow thread) is an extra option
            tdev = (self.time_dev and self.free and nd is not None
                    and nd - self.now <= self.time_dev_max)
            idx = self.choose(opts + (1 if tdev else 0), label)
            if idx == opts:
                self.now = nd
                continue
            return en[idx]

    def _switch(self, me, label):
        self.steps += 1
        if self.steps > self.max_steps:
            self.finish('steps')
            nxt = None
        else:
            nxt = self._pick(me, label)
        if nxt is me and nxt is not None:
            me.blocked = None
            me.deadline = None
            self.current = me
            return
        if nxt is not None:
            self.switches += 1
            self.current = nxt
            if self.switch_hook is not None:
                self.switch_hook(me, nxt)
            nxt.baton.release()
        if me.done:
            return
        me.baton.acquire()
        if self.aborting:
            me.kills += 1
            raise Killed()
        me.blocked = None
        me.deadline = None

    def _check_abort(self, t):
        if self.aborting:
            t.kills += 1
            if t.kills > 500:
                # code that swallows everything: park this OS thread for good
                self.leaked += 1
                t.ended.release()
                _rt.allocate_lock().acquire()
                while True:
                    l = _rt.allocate_lock(); l.acquire(); l.acquire()
            raise Killed()
        if self.finished:
            raise Killed()

    # ---- called by the running task ----------------------------------
    def point(self, label):
        """A place where another task may be scheduled."""
        t = self.current
        self._check_abort(t)
        if t.atomic or not self.free:
            return
        t.where = label
        self._switch(t, label)

    def block(self, cond, timeout=None, label='block'):
        """Wait until cond() or until timeout (virtual seconds) has elapsed.
        Returns True if cond() holds, False on timeout."""
        t = self.current
        self._check_abort(t)
        if cond():
            return True
        deadline = None
        if timeout is not None:
            deadline = max(self.now + timeout, self.now + 1e-6)    # (a wait takes time)
            if timeout <= 0:
                return False
        t.where = label
        while True:
            t.blocked = cond
            t.deadline = deadline
            self._switch(t, label)
            if cond():
                return True
            if deadline is not None and self.now >= deadline:
                return False

    def block_until(self, cond, deadlines, label):
        """As block, with a function giving the earliest interesting time."""
        t = self.current
        self._check_abort(t)
        t.where = label
        while True:
            if cond():
                return True
            d, final = deadlines()
            if final is not None and self.now >= final:
                return False
            t.blocked = cond
            t.deadline = d
            self._switch(t, label)

    def sleep(self, d, label='sleep'):
        t = self.current
        if t is None:
            raise Killed()
        self._check_abort(t)
        if d <= 0:
            d = 0.0005
        self.block(lambda: False, d, label)

    # ---- controller ---------------------------------------------------
    def run(self, root, watchdog=30.0):
        """Run the execution to its end from the controller thread."""
        global STATE
        STATE = self
        try:
            self.current = root
            root.baton.release()
            last, last_t = -1, _real_time.monotonic()
            while not self.ctl.acquire(True, 1.0):
                now = _real_time.monotonic()
                if self.steps != last:
                    last, last_t = self.steps, now
                elif now - last_t > watchdog:
                    self.status = 'hang'
                    self.finished = True
                    t = self.current
                    self.aborting = True
                    if t is not None and t.os_ident:
                        for _ in range(50):
                            ctypes.pythonapi.PyThreadState_SetAsyncExc(
                                ctypes.c_ulong(t.os_ident), ctypes.py_object(Killed))
                            if t.ended.acquire(True, 0.1):
                                t.ended.release()
                                break
                    break
            self._cleanup()
        finally:
            STATE = None

    def _cleanup(self):
        self.aborting = True
        for t in self.tasks:
            if t.ended.acquire(False):
                continue
            # t is waiting for its baton (or about to end by itself)
            self.current = t
            if not t.done:
                try:
                    t.baton.release()
                except RuntimeError:
                    pass
            if not t.ended.acquire(True, 3.0):
                self.leaked += 1
        self.current = None
