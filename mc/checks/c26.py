"""C26: process clean-up helpers kill what they were given and nothing else."""
from ..fproc import Proc
from ..harness import Sys, eq, pick, true

ASSUMPTIONS = [
    'signals, the process list and TCP connections are simulated: nothing real is signalled',
    'a process that has ended but was not waited for is not used (it still accepts signals); no process id is reused',
    'process list as printed by ps on Linux; addresses are IPv4',
]
TECHNIQUE = ('exhaustive enumeration of process sets, states, contents of the guarded block and connection outcomes, '
             'executed by the real helpers against a simulated process table that records every signal; processes '
             'that vanish do so at every point (all schedules up to a deviation bound, between any two lines)')
SRC = ('teleprox.util',)
STATES = ('alive', 'dead', 'vanishes', 'never')


class Table(Sys):

    def begin(self, w):
        self.w = w
        self.u = w.img.import_module('teleprox.util')
        self.p0 = set(w.procs)
        w.kills[:] = []

    def proc(self, cmd, state='alive', pid=None):
        w = self.w
        p = Proc(w, pid or w.new_pid(), 77, cmd.split(' '))
        w.procs[p.pid] = p
        p.state = state
        p.protected = state == 'foreign'
        if state == 'dead':
            self.gone(p)
        if state == 'never':
            p.exit(0)
            p.reaped = True
            del w.procs[p.pid]
        return p

    def gone(self, p):
        if not p.dead:
            p.exit(0)
        p.reaped = True

    def vanish(self, procs, after=0):
        """They may end at any moment from then on."""
        def f():
            if after:
                self.w.sched.sleep(after, 'harness-wait')
            for p in procs:
                self.w.sched.point('vanish')
                if not p.dead:
                    self.gone(p)
        if procs:
            self.w.th.Thread(target=f, daemon=True).start()

    def judge(self, given, others, what, named=None):
        """Signals went to the given processes only; they are dead now."""
        ids = {p.pid for p in named or given}
        for pid, sig, was in self.w.kills:
            true(pid in ids, '%s: signal %d to process %d, which is not one of %s' % (what, sig, pid, sorted(ids)))
            # (0 only asks)
        for p in given:
            true(p.dead, '%s: process %d (%s) is still running' % (what, p.pid, p.state))
        for p in others:
            true(not p.dead, '%s: process %d was killed' % (what, p.pid))
        for pid in self.p0:
            true(not self.w.procs[pid].dead, '%s: process %d was killed' % (what, pid))

    def killed(self, given):
        """Those that a signal was delivered to."""
        return [p for p in given if p.killed_by is not None]


class Boom(Exception):
    pass


class Cleaner(Table):

    def __init__(self, n, states, lines=(), **kw):
        Table.__init__(self, **kw)
        self.n, self.states, self.lines = n, states, lines
        self.name = 'cleaner-%d-%s%s' % (n, '+'.join(states), '-lines' if lines else '')

    def main(self, w):
        self.begin(w)
        states = [self.states[pick(w, len(self.states), 'state')] for i in range(self.n)]
        ps = [self.proc('sleeper %d' % i, s) for i, s in enumerate(states)]
        by = self.proc('bystander', pid=max([p.pid for p in ps] + [0]) + 1)
        how = (None, ValueError, AssertionError, KeyboardInterrupt, SystemExit, Boom)[pick(w, 6, 'block')]
        kind = pick(w, 3 if self.n > 1 and not self.lines else 2, 'form')
        # (also several of the same name)
        names = ['name%d' % (0 if kind == 2 else i) for i in range(self.n)]
        what = '%s, %s in the block%s' % (states, how and how.__name__, ', all of one name' if kind == 2 else '')
        want = how('from the block') if how else None
        got = None
        try:
            with self.u.ProcessCleaner() as c:
                for i, p in enumerate(ps):
                    if kind == 1:
                        class X:
                            pass
                        x = X()
                        x.name, x.pid = names[i], p.pid
                        c.add(x)
                    else:
                        c.add(names[i], p.pid)
                eq(w.kills, [], '%s: killed before the end of the block' % what)
                w.free_on()
                self.vanish([p for p in ps if p.state == 'vanishes'])
                if want is not None:
                    raise want
        except BaseException as e:
            got = e
        w.free_off()
        self.judge([p for p in ps if not p.protected], [by] + [p for p in ps if p.protected], what, ps)
        hit = [names[i] for i, p in enumerate(ps) if p.killed_by is not None]
        if want is not None:
            true(got is want, '%s: raised %r' % (what, got))
        elif hit:
            true(isinstance(got, AssertionError), '%s: raised %r, but %s were alive' % (what, got, hit))
            for i in range(self.n):
                n = names[i]
                if ps[i].protected:
                    continue
                true((n in str(got)) == (n in hit), '%s: %s; alive: %s' % (what, got, hit))
        elif not any(p.protected for p in ps):
            true(got is None, '%s: raised %r' % (what, got))
        w.cases += 1
        w.note(tuple(states), how and how.__name__, len(hit))


class Pids(Table):
    """assert_pids_dead, assert_pid_dead, kill_pid"""

    def __init__(self, n, lines=(), **kw):
        Table.__init__(self, **kw)
        self.n, self.lines = n, lines
        self.name = 'pids-%d%s' % (n, '-lines' if lines else '')

    def main(self, w):
        self.begin(w)
        states = [(STATES + ('foreign',))[pick(w, 5, 'state')] for i in range(self.n)]
        ps = [self.proc('sleeper %d' % i, s) for i, s in enumerate(states)]
        by = self.proc('bystander')
        what = 'assert_pids_dead: %s' % states
        w.free_on()
        self.vanish([p for p in ps if p.state == 'vanishes'])
        got = None
        try:
            if self.n == 1 and pick(w, 2, 'form'):
                self.u.assert_pid_dead(ps[0].pid)
            else:
                self.u.assert_pids_dead([p.pid for p in ps])
        except AssertionError as e:
            got = e
        w.free_off()
        self.judge([p for p in ps if not p.protected], [by] + [p for p in ps if p.protected], what, ps)
        hit = [p.pid for p in ps if p.killed_by is not None]
        if any(p.protected for p in ps) and not hit:
            # (whether somebody else's process is reported is left open)
            w.cases += 1
            return
        true(bool(hit) == (got is not None), '%s: raised %r; alive: %s' % (what, got, hit))
        if got is not None:
            for p in ps:
                if p.protected:
                    continue
                true((str(p.pid) in str(got)) == (p.pid in hit), '%s: %s; alive: %s' % (what, got, hit))
        w.cases += 1
        w.note(tuple(states), len(hit))


CMDS = ('python -m teleprox.bootstrap mct-1_child --qt', '/opt/x mct-1', 'mct-1', 'mct_1', '[kworker/0:1-mct]',
        'sh -c  two  spaces mct-1 end', 'MCT-1', '-leading mct-1', 'uni \xe4 mct-1', 'bad \udcff mct-1')
SEARCH = ('mct-1', 'mct.1', '\xe4', '[k', 'nothing', 'two  spaces', '4242')


class Search(Table):
    """kill_procs"""

    def __init__(self, n, states=('alive',), lines=(), cmds=CMDS, **kw):
        Table.__init__(self, **kw)
        self.n, self.states, self.lines, self.cmds = n, states, lines, cmds
        self.name = 'search-%d-%s%s' % (n, '+'.join(states), '-lines' if lines else '')

    def main(self, w):
        self.begin(w)
        search = SEARCH[pick(w, len(SEARCH), 'search')]
        if self.n > 1 and search in ('nothing', '4242'):
            return
        ps = []
        for i in range(self.n):
            k = pick(w, len(self.cmds), 'command')
            st = self.states[pick(w, len(self.states), 'state')]
            ps.append(self.proc(self.cmds[k], 'alive' if st == 'later' else st, pid=(4242, 42420, 14242)[i]))
            ps[-1].state = st
        wait = (0, 0.5, None)[pick(w, 3, 'wait')]
        late = [p for p in ps if p.state == 'later']
        for p in late:
            del w.procs[p.pid]
        what = 'kill_procs(%r, %r): %s' % (search, wait, [(p.cmd, p.state) for p in ps])
        t0 = w.sched.now
        first = []
        w_kill = w.kill

        def appear():
            w.sched.sleep(0.1)
            for p in late:
                w.procs[p.pid] = p
            for p in ps:
                if p.state == 'ends':
                    self.gone(p)
                if p.state == 'changes':
                    # (by exec)
                    p.cmd = ['something', 'else']
        if late or any(p.state in ('ends', 'changes') for p in ps):
            w.th.Thread(target=appear, daemon=True).start()
        w.free_on()
        self.vanish([p for p in ps if p.state == 'vanishes'], 5 if wait is None else wait)
        r = self.u.kill_procs(search) if wait is None else self.u.kill_procs(search, wait=wait)
        w.free_off()
        took = w.sched.now - t0
        match = [p for p in ps if search in ' '.join(p.cmd).encode('utf-8', 'surrogateescape').decode('utf-8', 'replace')]
        rest = [p for p in ps if p not in match]
        for p in rest:
            true(p.killed_by is None, '%s: killed %d' % (what, p.pid))
        ids = {p.pid for p in match}
        for pid, sig, was in w.kills:
            # (ps lists itself)
            true(pid in ids or was == 'gone', '%s: signal to %d' % (what, pid))
        hit = sorted(p.pid for p in match if p.killed_by is not None)
        for p in match:
            if p.state in ('alive', 'changes'):
                true(p.dead, '%s: %d is still running' % (what, p.pid))
        eq(sorted(x[0] for x in r), hit, what)
        for pid, line in r:
            p = w.procs[pid]
            true(' '.join(p.cmd).encode('utf-8', 'surrogateescape').decode('utf-8', 'replace') in line, '%s: %r' % (what, line))
        if hit and any(p.state == 'alive' for p in match):
            true(took >= (5 if wait is None else wait) - 1e-6, '%s: killed after %.3f s' % (what, took))
        for pid in self.p0:
            true(not w.procs[pid].dead, '%s: process %d was killed' % (what, pid))
        w.cases += 1
        w.note(search, len(hit))


class Port(Sys):
    name = 'port'

    def main(self, w):
        u = w.img.import_module('teleprox.util')
        host = ('127.0.0.1', 'localhost', '10.1.2.3')[pick(w, 3, 'host')]
        rule, want = ((None, 'closed'), ('open', 'open'), ('refused', 'closed'), ('timeout', 'timeout'),
                      (('open', 0.3), 'slow'), (('refused', 0.3), 'slow'), (('open', 0.9), 'slow'), (('open', 2.0), 'slow'),
                      (('refused', 2.0), 'slow'), ('server', 'open'), ('was server', 'closed'))[pick(w, 11, 'outcome')]
        limit = (None, 0.1, 0.5, 3.0)[pick(w, 4, 'timeout')]
        port = 5123
        if rule in ('server', 'was server'):
            if host == '10.1.2.3':
                return
            srv = w.tp.RPCServer()
            port = int(srv.address.decode().rpartition(':')[2])
            srv.run_in_thread()
            if rule == 'was server':
                srv.close()
                w.sched.sleep(0.5, 'harness-wait')
        elif rule is not None:
            w.tcp_rules[host.replace('localhost', '127.0.0.1'), port] = rule
        t = 1.0 if limit is None else limit
        if want == 'slow':
            want = {'open': 'open', 'refused': 'closed'}[rule[0]] if rule[1] <= t else 'timeout'
        what = 'check_tcp_port(%s): %s, timeout %s' % (host, rule, limit)
        n0, t0 = w.open_tcp, w.sched.now
        r = u.check_tcp_port(host, port) if limit is None else u.check_tcp_port(host, port, timeout=limit)
        eq(r, want, what)
        true(w.sched.now - t0 <= t + 0.01, '%s: took %.2f s' % (what, w.sched.now - t0))
        eq(w.open_tcp, n0, what + ': sockets left open')
        w.cases += 1
        w.note(r, str(rule))


def scenarios(tier):
    q = tier == 'quick'
    d = 1 if q else 2
    L = [(Cleaner(k, STATES), 0) for k in (0, 1, 2, 3)] + [(Cleaner(2, ('alive', 'foreign', 'dead')), 0)]
    L += [(Cleaner(2, ('alive', 'vanishes'), SRC), 2 if q else 3), (Cleaner(3, ('alive', 'vanishes', 'dead'), SRC), d)]
    L += [(Pids(k), 0) for k in (0, 1, 3)] + [(Pids(2, SRC), 2 if q else 3), (Pids(3, SRC), d)]
    L += [(Search(1), 0), (Search(2), 0), (Search(2, ('alive', 'later', 'ends', 'changes'), cmds=CMDS[:4]), 0),
          (Search(2, ('alive', 'vanishes'), SRC, CMDS[:2]), 1 if q else 2), (Port(), 0)]
    if not q:
        L += [(Search(3, cmds=CMDS[:5]), 0)]
    return L
