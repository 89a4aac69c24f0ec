"""Exhaustive exploration of a scenario's executions, by number of deviations."""
import concurrent.futures as cf
import gc
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import zlib
from concurrent.futures.process import BrokenProcessPool

from . import sched as S
from .world import World

_gc_count = 0
LINES = None


class Result:
    __slots__ = ('status', 'violation', 'error', 'trace', 'steps', 'points', 'outcome', 'labels', 'leaked',
                 'nfree', 'switches', 'cases')


class Scenario:
    """One closed system: build(w) sets up images and drivers; final(w) looks at
    the end state.  Both report through w.fail / w.check."""
    name = 'scenario'
    opts = {}
    lines = ()              # source files (under teleprox/) with line-level points
    steps_fail = True

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def build(self, w):
        raise NotImplementedError

    def final(self, w):
        pass

    def allow(self, w, status):
        """Is ending with this status (not 'ok') acceptable?"""
        return False


def run_one(scn, prefix=b'', crc=None, labels=False):
    global _gc_count
    from . import lines
    w = World(scn.opts, prefix, crc)
    w.sched.keep_labels = labels
    r = Result()
    lines.select(scn.lines)
    lines.hook = None
    S.STATE = w.sched
    try:
        scn.build(w)
        st = w.run(scn.opts.get('watchdog', 30.0))
    finally:
        S.STATE = None
        lines.hook = None
    s = w.sched
    r.status = st
    r.trace = s.trace
    r.steps = s.steps
    r.switches = s.switches
    r.cases = w.cases
    r.labels = s.labels
    r.leaked = s.leaked
    r.error = None
    r.violation = None
    if s.harness_error is not None:
        r.error = s.harness_error
    elif len(s.trace) < len(prefix):
        r.error = 'divergence: execution ended before the recorded choices were used up'
    else:
        v = None
        if s.violation is not None:
            v = s.violation
        elif w.violations:
            v = w.violations[0]
        elif st != 'ok' and not scn.allow(w, st):
            v = describe(w, st)
        if v is None:
            try:
                scn.final(w)
            except S.Violation as e:
                v = str(e)
            except Exception:
                r.error = traceback.format_exc()
            if v is None and w.violations:
                v = w.violations[0]
        r.violation = v
    try:
        r.outcome = zlib.crc32(repr(w.notes).encode() + st.encode())
    except Exception:
        r.outcome = 0
    for img in w.images:
        # what is left of it must not act on later executions
        m = img.modules.get('teleprox.proxy')
        cls = getattr(m, 'ObjectProxy', None)
        if cls is not None and '__del__' in cls.__dict__:
            cls.__del__ = _nothing
    w.images = None
    _gc_count += 1
    if _gc_count % 40 == 0:
        gc.collect()
    return r


def _nothing(self):
    pass


def describe(w, st):
    bl = []
    for t in w.sched.tasks:
        if not t.done and not t.dead:
            bl.append('%s at %s' % (t.name, t.where))
    what = {'quiescent': 'deadlock: nothing can run any more',
            'horizon': 'not finished after %g simulated seconds' % (w.sched.now - w.sched.START),
            'steps': 'livelock: not finished after %d steps' % w.sched.steps,
            'hang': 'endless loop'}.get(st, st)
    return '%s; waiting: %s' % (what, ', '.join(bl)[:500])


def children(r, start, budget):
    """(prefix, crc, remaining budget) of every sibling branch of execution r."""
    ch = bytes(t[1] for t in r.trace)
    out = []
    for i in range(start, len(r.trace)):
        n, c, cost, crc = r.trace[i]
        if cost > budget:
            continue
        for alt in range(1, n):
            out.append((ch[:i] + bytes([alt]), crc, budget - cost))
    return out


class Stats:
    def __init__(self):
        self.execs = 0
        self.points = 0
        self.steps = 0
        self.switches = 0
        self.cases = 0
        self.outcomes = set()
        self.diverged = 0
        self.leaked = 0
        self.violation = None        # (prefix hex, message)
        self.error = None
        self.capped = False
        self.maxpoints = 0
        self.maxsteps = 0

    def add(self, o):
        self.execs += o.execs
        self.points += o.points
        self.steps += o.steps
        self.switches += o.switches
        self.cases += o.cases
        self.outcomes |= o.outcomes
        self.diverged += o.diverged
        self.leaked += o.leaked
        self.capped |= o.capped
        self.maxpoints = max(self.maxpoints, o.maxpoints)
        self.maxsteps = max(self.maxsteps, o.maxsteps)
        if o.violation is not None and (self.violation is None or len(o.violation[0]) < len(self.violation[0])):
            self.violation = o.violation
        if self.error is None:
            self.error = o.error


def _account(st, r, plen, count=True):
    if count:
        st.execs += 1
        st.points += len(r.trace) - plen
        st.steps += r.steps
        st.switches += r.switches
        st.cases += r.cases
        st.outcomes.add(r.outcome)
        st.maxpoints = max(st.maxpoints, len(r.trace))
        st.maxsteps = max(st.maxsteps, r.steps)
    st.leaked += r.leaked
    if r.error is not None:
        if r.error.startswith('divergence'):
            st.diverged += 1
        st.error = st.error or r.error
    if r.violation is not None and st.violation is None:
        st.violation = (bytes(t[1] for t in r.trace).hex(), r.violation)


_scns = None


def _init(scns):
    global _scns
    _scns = scns
    sys.unraisablehook = lambda u: None
    try:
        fd = os.open('/dev/null', os.O_WRONLY)
        os.dup2(fd, 2)
    except OSError:
        pass
    gc.disable()
    import threading
    threading.stack_size(16 * 1024 * 1024)


def _work(job):
    """Explore a list of subtrees.  mode 'expand': run the nodes only, return their
    children; mode 'tree': explore everything below."""
    try:
        return _work_(job)
    except BaseException:
        st = Stats()
        st.error = traceback.format_exc()
        return st, []


def _work_(job):
    idx, mode, nodes, deadline = job
    scn = _scns[idx]
    st = Stats()
    kids = []
    stack = list(reversed(nodes))
    while stack:
        if time.monotonic() > deadline:
            st.capped = True
            break
        prefix, crc, budget = stack.pop()
        r = run_one(scn, prefix, crc)
        if r.violation is not None:
            # the same schedule must fail again
            r2 = run_one(scn, bytes(t[1] for t in r.trace))
            if r2.violation is None and r2.error is None:
                r.violation = None
                r.error = 'divergence: violation did not repeat'
        _account(st, r, len(prefix))
        if st.violation is not None:
            break
        if r.error is not None:
            if st.diverged > 20 or not r.error.startswith('divergence'):
                break
            continue
        ch = children(r, len(prefix), budget)
        if mode == 'expand':
            kids.extend(ch)
        else:
            ch.reverse()
            stack.extend(ch)
    return st, kids


class Explorer:
    def __init__(self, scenarios, procs=8):
        self.scns = scenarios
        self.procs = procs
        gc.collect()
        gc.freeze()
        ctx = mp.get_context('fork')
        self.pool = cf.ProcessPoolExecutor(procs, ctx, _init, (scenarios,))

    def close(self):
        ps = list((self.pool._processes or {}).values())
        for p in ps:
            p.kill()
        self.pool.shutdown(wait=False, cancel_futures=True)
        for p in ps:
            p.join(5)

    def _map(self, jobs):
        """Results of the jobs as they arrive."""
        fs = [self.pool.submit(_work, j) for j in jobs]
        for f in cf.as_completed(fs):
            try:
                yield f.result()
            except BrokenProcessPool:
                st = Stats()
                st.error = 'a worker process died'
                yield st, []
                return

    def run(self, idx, bound, deadline, log=None):
        """Explore scenario idx completely up to `bound` deviations.
        Returns (Stats, completed bound)."""
        total = Stats()
        done = -1
        per = []
        for b in range(bound + 1):
            st, ok = self._level(idx, b, deadline)
            # interior nodes are run again at each level: count the last level only
            if ok or b == 0 or st.execs > total.execs:
                prev = total
                total = st
                total.outcomes |= prev.outcomes
                total.diverged = max(total.diverged, prev.diverged)
            per.append(st.execs)
            if st.violation is not None or st.error is not None:
                total.violation, total.error = st.violation, st.error
                break
            if not ok:
                total.capped = True
                break
            done = b
            if b > 0 and len(per) > 1 and per[-1] == per[-2]:
                done = bound            # no deviation left to take: space exhausted
                break
            if time.monotonic() > deadline:
                break
        return total, done, per

    def _level(self, idx, b, deadline):
        st = Stats()
        nodes = [(b'', None, b)]
        # widen the frontier
        rounds = 0
        while nodes and len(nodes) < 48 and rounds < 60:
            rounds += 1
            n = max(1, len(nodes) // (self.procs * 2))
            jobs = [(idx, 'expand', nodes[i:i + n], deadline) for i in range(0, len(nodes), n)]
            nodes = []
            for s1, kids in self._map(jobs):
                st.add(s1)
                nodes.extend(kids)
            if st.violation or st.error:
                return st, False
            if st.capped:
                return st, False
        if nodes:
            # heavy subtrees (large remaining budget, short prefix) first
            nodes.sort(key=lambda x: (-x[2], len(x[0])))
            n = max(1, min(200, len(nodes) // (self.procs * 12)))
            jobs = [(idx, 'tree', nodes[i::max(1, len(nodes) // n)], deadline)
                    for i in range(max(1, len(nodes) // n))]
            for s1, kids in self._map(jobs):
                st.add(s1)
                if st.violation or (st.error and not st.error.startswith('divergence')):
                    break
        if st.violation or (st.error and not st.error.startswith('divergence')):
            return st, False
        return st, not st.capped
