"""C17: log routing follows the configured server and level."""
from ..harness import Gate, Sys, eq, expect, other, pick, true, wait_for
from .c16 import Collect, Stamp

ASSUMPTIONS = [
    'records logged while their server is down may or may not arrive when it is started again at the same address',
    'a server takes up to 1.5 s to release its socket after stop() (it looks once per second)',
    'records logged while the address is being changed go to either server',
]
TECHNIQUE = ('exhaustive enumeration of histories of configuring senders, servers and levels with records at every level '
             'after every step, against a model; and systematic exploration of the schedules of logging, switching '
             'and stopping at every line of log/remote.py up to a deviation bound')
LINES = ('teleprox.log.remote',)
FEW = tuple('teleprox.log.remote#' + x for x in ('handle', 'connect', 'run', 'set_logger_address', 'close'))
LEVELS = (10, 20, 29, 30, 31, 40, 50)


class Server:
    def __init__(self, w, log, lg, name, filt=True, addr=None):
        self.w, self.log, self.name = w, log, name
        self.parent = lg.getLogger('grp' + name)
        self.logger = lg.getLogger('grp%s.srv' % name)
        self.col = Collect(w.img, self.logger)
        self.logger.setLevel(0)
        self.parent.setLevel(1)
        self.level = 1
        self.filt = filt
        self.addr = None
        self.start()

    def start(self):
        kw = {} if self.filt else {'filter_by_level': False}
        if self.addr is not None:
            kw['address'] = self.addr
        # (by name or by object)
        self.srv = self.log.LogServer(self.logger if self.name == 'A' else self.logger.name, **kw)
        a = self.srv.address
        self.addr = a.decode() if isinstance(a, bytes) else a
        self.up = True

    def passes(self, lev):
        return self.up and (not self.filt or lev >= self.level)


class History(Sys):
    opts = {'fairq': False, 'max_steps': 100000, 'horizon': 3000.0, 'watchdog': 60.0}
    OPS = ('A', 'B', 'A-str', 'bad', 'lev30', 'lev31', 'parent40', 'filter', 'stop', 'restart', 'own', 'child')

    def __init__(self, depth, ops=None, **kw):
        Sys.__init__(self, **kw)
        self.depth = depth
        self.ops = ops or self.OPS
        self.name = 'histories-%d' % depth + ('' if ops is None else '-some')

    def main(self, w):
        hist = []
        for i in range(self.depth):
            op = self.ops[pick(w, len(self.ops), 'op')]
            if op == 'child' and i < self.depth - 1:
                return
            hist.append(op)
        if hist.count('own') > 2 or 'restart' in hist and 'stop' not in hist[:hist.index('restart')]:
            return
        log = w.img.import_module('teleprox.log')
        lg = w.img.modules['logging']
        S = {'A': Server(w, log, lg, 'A'), 'B': Server(w, log, lg, 'B', filt=False)}
        what = ', '.join(hist)
        m = {'to': None, 'own': None, 'n': 0, 'set': None}

        def q_main(r):
            rl = r.img.import_module('logging')
            qlog = r.img.import_module('teleprox.log')
            root = rl.getLogger()
            root.setLevel(1)
            lgr = rl.getLogger('src')
            eq(qlog.get_logger_address(), None, 'at first')
            self.probe(w, S, m, lgr, 'at first')
            for k, op in enumerate(hist):
                self.step(w, r, S, m, op, qlog, rl, '%s (step %d)' % (what, k + 1))
                want = m['own'] or m['set']
                eq(qlog.get_logger_address(), want, '%s (step %d): get_logger_address()' % (what, k + 1))
                self.probe(w, S, m, lgr, '%s (step %d)' % (what, k + 1))
            w.sched.sleep(2.0, 'harness-wait')
            self.probe(w, S, m, lgr, what + ' (later)')
        q = other(w, 'q', q_main)
        wait_for(w, lambda: q.done, None, 'q')
        w.cases += 1
        w.note(what)

    def probe(self, w, S, m, lgr, what):
        m['n'] += 1
        tag = 'probe%d' % m['n']
        # (the names mean something to this process only)
        lgr = lgr.manager.getLogger(('src', 'grpA.srv', 'grpB', 'grpB.srv')[m['n'] % 4])
        for lev in LEVELS:
            lgr.log(lev, '%s/%d', tag, lev)
        w.sched.sleep(0.05, 'harness-wait')
        for n, s in S.items():
            got = [x for x in s.col.msgs() if x.startswith(tag + '/')]
            want = ['%s/%d' % (tag, lev) for lev in LEVELS if s.passes(lev)] if m['to'] == n else []
            eq(got, want, '%s: server %s' % (what, n))
        if m.get('owncol'):
            got = [x for x in m['owncol'].msgs() if x.startswith(tag + '/')]
            eq(got, [], '%s: own server' % what)
        for s in S.values():
            ms = [x for x in s.col.msgs() if x.startswith('probe')]
            true(len(set(ms)) == len(ms), '%s: duplicated records' % what)

    def step(self, w, r, S, m, op, qlog, rl, what):
        if op in ('A', 'B', 'A-str'):
            a = S[op[0]].addr
            a = a if op == 'A-str' else a.encode()
            qlog.set_logger_address(a)
            m['to'], m['set'] = op[0], a
        elif op == 'bad':
            try:
                qlog.set_logger_address('nonsense')
            except Exception:
                pass
            else:
                true(False, '%s: a bad address is accepted' % what)
        elif op in ('lev30', 'lev31'):
            for s in S.values():
                s.level = int(op[3:])
                s.logger.setLevel(s.level)
        elif op == 'parent40':
            for s in S.values():
                s.level = 40
                s.logger.setLevel(0)
                s.parent.setLevel(40)
        elif op == 'filter':
            for s in S.values():
                s.filt = s.srv.filter_by_level = not s.filt
        elif op == 'stop':
            s = S['A']
            s.srv.stop()
            s.srv.stop()
            s.up = False
        elif op == 'restart':
            s = S['A']
            if s.up:
                return
            w.sched.sleep(1.6, 'harness-wait')
            true(s.addr not in w.net.bound, '%s: the address of the stopped server is still in use' % what)
            true(not s.srv.is_alive(), '%s: the stopped server is still there' % what)
            s.start()
            w.sched.sleep(1.0, 'harness-wait')      # (until the sender has connected)
        elif op == 'own':
            if m['own'] is not None:
                expect(w, Exception, qlog.start_log_server, what + ': second server')
                return
            qlog.start_log_server()
            m['own'] = qlog.get_logger_address()
            true(m['own'] is not None and (m['own'].decode() if isinstance(m['own'], bytes) else m['own']) in w.net.bound,
                 '%s: reported address %r is not of a server' % (what, m['own']))
            lgr = rl.getLogger('teleprox.log.remote')
            m['owncol'] = Collect(r.img, lgr)
            lgr.setLevel(0)
            lgr.propagate = True
        elif op == 'child':
            kw = ({}, {'log_stdio': False}, {'stdout': -3, 'stderr': -3}, {'qt': True}, {'log_stdio': True, 'shell': True},
                  {'start_local_server': True, 'log_stdio': False})[pick(w, 6, 'child options') if len(self.ops) > 5 else 0]
            what += ' %s' % kw
            c = r.tp.start_process('c', log_level=20, **kw)
            addr = c.client._import('teleprox.log').get_logger_address()
            want = m['own'] or m['set']
            want = want.encode() if isinstance(want, str) else want
            addr = addr.encode() if isinstance(addr, str) else addr
            eq(addr, want, '%s: address in the child' % what)
            cl = c.client._import('logging').getLogger('ch')
            for lev in LEVELS:
                cl.log(lev, 'child %d' % lev)
            w.sched.sleep(0.1, 'harness-wait')
            all_ = ['child %d' % lev for lev in LEVELS if lev >= 20]
            for n, s in S.items():
                got = [(x[0].getMessage(), x[0].process_name) for x in s.col.got if x[0].getMessage().startswith('child ')]
                # (records of the own server are passed on to the configured one)
                want = [('child %d' % lev, 'c') for lev in LEVELS if lev >= 20 and s.passes(lev)] if m['to'] == n else []
                eq(got, want, '%s: records of the child at %s' % (what, n))
            if m['own']:
                eq([x for x in m['owncol'].msgs() if x.startswith('child ')], all_, '%s: records of the child at the own server' % what)
            c.kill()


class Switch(Sys):
    """Threads log while the address is changed."""
    lines = LINES

    def __init__(self, seq, n=1, per=3, first=True, latency=0.0, setters=1, rev=False, **kw):
        Sys.__init__(self, **kw)
        self.seq, self.n, self.per, self.first, self.setters, self.rev = seq, n, per, first, setters, rev
        self.opts = {'fairq': False, 'latency': latency}
        self.name = 'switch-%s-%dx%d%s%s%s' % (''.join(seq), n, per, '' if first else '-unset', '-lat' if latency else '',
                                               '-%dsetters' % setters if setters > 1 else '') + ('-rev' if rev else '')

    def main(self, w):
        log = w.img.import_module('teleprox.log')
        lg = w.img.modules['logging']
        S = {'A': Server(w, log, lg, 'A'), 'B': Server(w, log, lg, 'B')}
        st = Stamp()
        sets = []           # (from, to, target)

        def q_main(r):
            rl = r.img.import_module('logging')
            th = r.img.import_module('threading')
            qlog = r.img.import_module('teleprox.log')
            lgr = rl.getLogger('src')
            rl.getLogger().setLevel(1)
            left = [self.n + self.setters]
            # (harness records do not go through the sender)
            if self.first:
                qlog.set_logger_address(S['A'].addr)
                sets.append((st.mark(), st.mark(), 'A'))

            gate = Gate(w, self.n + self.setters)

            def body(i):
                def f():
                    gate()
                    for j in range(self.per):
                        st.log(lgr, 't%d %d' % (i, j))
                    left[0] -= 1
                return w._guard(f)

            def setter(i):
                def f():
                    gate()
                    for k, x in enumerate(self.seq):
                        if k % self.setters == i:
                            a = st.mark()
                            e = [a, None, x]
                            sets.append(e)
                            qlog.set_logger_address(S[x].addr)
                            e[1] = st.mark()
                    left[0] -= 1
                return w._guard(f)
            ts = [th.Thread(target=body(i), daemon=True) for i in range(self.n)]
            ts += [th.Thread(target=setter(i), daemon=True) for i in range(self.setters)]
            if self.rev:
                ts.reverse()
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            w.free_off()
            if w.violations:
                return
            # the last one counts, everywhere
            a = qlog.get_logger_address()
            n = [k for k, s in S.items() if s.addr == a][0]
            last = [x for b, e, x in sets if all(e2 is None or e is None or e >= b2 for b2, e2, x2 in sets)]
            true(n in last, '%s: the address is that of %s' % (self.name, n))
            st.log(lgr, 'end')
            w.sched.sleep(0.3, 'harness-wait')
            true('end' in S[n].col.msgs(), '%s: get_logger_address() gives %s, but records go to %s' % (
                self.name, n, [k for k, s in S.items() if 'end' in s.col.msgs()]))
        q = other(w, 'q', q_main)
        wait_for(w, lambda: q.done, 20, 'q')
        w.sched.sleep(1.0, 'harness-wait')
        got = {k: [x for x in s.col.msgs() if x[0] in 'te'] for k, s in S.items()}
        allm = got['A'] + got['B']
        what = '%s: %s' % (self.name, got)
        true(len(set(allm)) == len(allm), what + ': duplicated')
        for msg, (a, b) in st.calls.items():
            # possible targets: those whose setting was the last before, or overlaps
            poss = set()
            for s in sets:
                b0, e0, x = s
                if b0 > b:
                    continue
                # replaced before the record?
                if any(s2 is not s and s2[0] > e0 and s2[1] < a for s2 in sets):
                    continue
                poss.add(x)
            sure = any(e0 < a for b0, e0, x in sets)
            where = [k for k in 'AB' if msg in got[k]]
            if sure:
                true(len(where) == 1, '%s: %s is missing' % (what, msg))
            true(not where or where[0] in poss, '%s: %s went to %s, not %s' % (what, msg, where, sorted(poss)))
        for k in 'AB':
            Stamp.check(self._sub(st, got[k]), got[k], what=what)
        w.note(str(got))

    @staticmethod
    def _sub(st, msgs):
        s = Stamp()
        s.calls = {m: st.calls[m] for m in msgs}
        return s


class Stop(Sys):
    """A server is stopped while records arrive."""
    lines = ('teleprox.log.remote#LogServer',)

    def __init__(self, how='other', n=1, per=3, slow=None, **kw):
        Sys.__init__(self, **kw)
        self.how, self.n, self.per, self.slow = how, n, per, slow
        self.opts = {'fairq': False, 'latency': 0.05}
        self.name = 'stop-%s-%dx%d%s' % (how, n, per, '-slow' if slow else '')

    def main(self, w):
        log = w.img.import_module('teleprox.log')
        lg = w.img.modules['logging']
        target = lg.getLogger('target')
        st = {'stopped': False, 'late': [], 'srv': None, 'begun': []}
        me = self

        class H(lg.Handler):
            def emit(self, rec):
                if st['stopped']:
                    st['late'].append(rec.getMessage())
                st['begun'].append(rec.getMessage())
                if me.slow:
                    w.time.sleep(me.slow)
                if me.how == 'handler' and not st['stopped']:
                    st['srv'].stop()
                    st['stopped'] = True
        target.addHandler(H())
        target.setLevel(1)
        target.propagate = False
        srv = st['srv'] = log.LogServer(target)
        addr = srv.address
        addr = addr.decode() if isinstance(addr, bytes) else addr

        def q_main(r):
            rl = r.img.import_module('logging')
            qlog = r.img.import_module('teleprox.log')
            qlog.set_logger_address(addr)
            lgr = rl.getLogger('src')
            lgr.setLevel(1)
            w.sched.block(lambda: 'go' in st, None, 'harness-idle')
            for i in range(self.per):
                lgr.info('%d', i)
        q = other(w, 'q', q_main)
        w.sched.sleep(0.1, 'harness-wait')
        st['go'] = True
        if self.how != 'handler':
            w.sched.block(lambda: q.done, None, 'harness-wait')
        if self.how != 'twice':
            w.free_on()
            w.sched.sleep(0.05, 'harness-wait')         # (the records arrive)
        if self.how == 'other':
            srv.stop()
            st['stopped'] = True
        elif self.how == 'twice':
            gate = Gate(w, 2)

            def f():
                gate()
                w.sched.sleep(0.05, 'harness-wait')
                srv.stop()
                st['stopped'] = True
            ts = [w.th.Thread(target=w._guard(f), daemon=True) for i in range(2)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        w.sched.block(lambda: st['stopped'] and q.done, 10, 'harness-wait')
        true(st['stopped'], '%s: stop() does not return' % self.name)
        w.free_off()
        w.sched.sleep(1.6 + (self.slow or 0) * 2, 'harness-wait')
        true(not st['late'], '%s: handled %r after stop()' % (self.name, st['late']))
        true(addr not in w.net.bound, '%s: the socket of the stopped server is still bound' % self.name)
        true(not srv.is_alive(), '%s: the thread of the stopped server goes on' % self.name)
        true(not w.img.unhandled, '%s: %r' % (self.name, w.img.unhandled[:1]))
        eq(st['begun'], [str(i) for i in range(len(st['begun']))], self.name)
        # its place can be taken
        col = Collect(w.img, lg.getLogger('next'))
        log.LogServer(lg.getLogger('next'), addr)

        def q2(r):
            rl = r.img.import_module('logging')
            qlog = r.img.import_module('teleprox.log')
            lgr = rl.getLogger('src')
            lgr.setLevel(1)
            qlog.LogSender(addr, lgr)
            lgr.info('new')
        other(w, 'q2', q2)
        w.sched.sleep(0.5, 'harness-wait')
        eq([x for x in col.msgs() if x == 'new'], ['new'], self.name)
        w.note(tuple(st['begun']))


class Senders(Sys):
    """Senders attached by the program: where, with which level and filters, connected when."""
    opts = {'fairq': False, 'max_steps': 100000, 'horizon': 3000.0, 'watchdog': 60.0}
    HOW = ('name', 'object', 'root', 'parent', 'later', 'two')
    FILT = ('none', 'drop', 'odd', 'name', 'two')
    CONN = ('first', 'then', 'moved')

    def __init__(self, **kw):
        Sys.__init__(self, **kw)
        self.name = 'senders'

    def main(self, w):
        how = self.HOW[pick(w, len(self.HOW), 'logger')]
        filt = self.FILT[pick(w, len(self.FILT), 'filter')]
        conn = self.CONN[pick(w, len(self.CONN), 'connected')]
        log = w.img.import_module('teleprox.log')
        lg = w.img.modules['logging']
        S = {'A': Server(w, log, lg, 'A'), 'B': Server(w, log, lg, 'B')}
        what = 'sender on %s, filter %s, connected %s' % (how, filt, conn)

        def q_main(r):
            rl = r.img.import_module('logging')
            qlog = r.img.import_module('teleprox.log')
            for n in ('', 'app', 'app.part', 'app.other', 'else'):
                rl.getLogger(n).setLevel(1)
            part = rl.getLogger('app.part')
            on = {'name': 'app.part', 'object': part, 'root': '', 'parent': 'app', 'later': None, 'two': part}[how]
            snd = qlog.LogSender(S['A'].addr if conn != 'then' else None, on)
            if how == 'later':
                part.addHandler(snd)
            ref = None
            if how == 'two':
                ref = qlog.LogSender(S['B'].addr, rl.getLogger('app'))
            if conn == 'then':
                # nobody to send these to
                part.info('too early')
                snd.connect(S['A'].addr)
            to = 'A'
            if conn == 'moved':
                part.info('before')
                snd.connect(S['B'].addr)
                to = 'B'

            class Odd:
                def filter(self, rec):
                    return 'odd' not in rec.msg
            if filt == 'drop':
                snd.addFilter(lambda rec: False)
            elif filt == 'odd':
                snd.addFilter(Odd())
            elif filt == 'name':
                snd.addFilter(rl.Filter('app.part'))
            elif filt == 'two':
                snd.addFilter(lambda rec: rec.levelno != 20)
                snd.addFilter(lambda rec: 0 if 'odd' in rec.msg else 1)
            want = {'A': [], 'B': []}
            if conn == 'moved':
                want['A'].append('before')
                if how == 'two':
                    want['B'].append('before')
            if conn == 'then' and how == 'two':
                want['B'].append('too early')
            n = 0
            for hlev in (0, 30):
                snd.setLevel(hlev)
                for src in ('app.part', 'app.other', 'else'):
                    for lev in (10, 20, 30, 31):
                        for word in ('even', 'odd'):
                            n += 1
                            rl.getLogger(src).log(lev, word + ' %d', n)
                            there = lev >= hlev and (src == 'app.part' or how == 'root' or how == 'parent' and src != 'else')
                            if filt == 'drop' or filt in ('odd', 'two') and word == 'odd' or \
                                    filt == 'name' and src != 'app.part' or filt == 'two' and lev == 20:
                                there = False
                            if there:
                                want[to].append('%s %d' % (word, n))
                            if ref is not None and src != 'else':
                                want['B'].append('%s %d' % (word, n))
            w.sched.sleep(0.1, 'harness-wait')
            for k, s in S.items():
                got = s.col.msgs()
                if how == 'two':
                    got, want[k] = sorted(got), sorted(want[k])
                eq(got, want[k], '%s: server %s' % (what, k))
        q = other(w, 'q', q_main)
        wait_for(w, lambda: q.done, None, 'q')
        w.cases += 1
        w.note(what)


class Own(Sys):
    """Only one global server, whoever starts it."""
    lines = LINES
    opts = {'fairq': False}

    def __init__(self, **kw):
        Sys.__init__(self, **kw)
        self.name = 'own-server'

    def main(self, w):
        log = w.img.import_module('teleprox.log')
        out = []

        gate = Gate(w, 2)

        def f():
            gate()
            try:
                log.start_log_server()
                out.append('ok')
            except Exception as e:
                out.append(type(e).__name__)
            out.append(log.get_logger_address())
        ts = [w.th.Thread(target=w._guard(f), daemon=True) for i in range(2)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        w.free_off()
        true(out.count('ok') == 1, 'start_log_server() in two threads: %s' % out)
        addrs = [x for x in out if isinstance(x, (bytes, str)) and b'tcp' in (x if isinstance(x, bytes) else x.encode())]
        true(len(addrs) == 2 and addrs[0] == addrs[1] == log.get_logger_address(), 'addresses: %s' % out)
        eq(len([b for b in w.net.bound if b.startswith('tcp')]), 1, 'servers')
        w.note(str(out))


def scenarios(tier):
    q = tier == 'quick'
    b = 1 if q else 2
    few = ('A', 'B', 'lev30', 'stop', 'restart', 'own', 'child')
    L = [(History(1), 0), (Senders(), 0), (History(2), 0)]
    if not q:
        L += [(Switch(('B',), per=2, lines=FEW), 3), (Switch(('B', 'A'), per=3, lines=FEW), 3)]
        L += [(History(4, few), 0), (History(5, ('A', 'B', 'stop', 'restart')), 0)]
    L += [
        (Switch(('B',), rev=True), b), (Switch(('B', 'A'), rev=True), b), (Switch(('A',), first=False, rev=True), b),
        (Switch(('B',)), b),
        (Switch(('B', 'A')), b),
        (Switch(('B', 'A'), latency=0.02), b),
        (Switch(('A',), n=1, per=2), b),
        (Switch(('B',), n=2, per=2), b),
        (Switch(('A',), first=False), b),
        (Switch(('A', 'B'), n=1, per=2, first=False, setters=2), b),
        (Switch(('B', 'A'), n=1, per=1, setters=2), b),
        (Stop(), b + 1),
        (Stop(slow=0.05), b + 1),
        (Stop('handler'), b),
        (Stop('twice'), b + 1),
        (Own(), b + (not q)),
    ]
    return L + [(History(3), 0)]
